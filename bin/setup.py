#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses."""
import glob
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import JARS, VERIF
bad = 0
for f in sorted(glob.glob(os.path.join(VERIF, "spec", "*.tla"))):
    r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       cwd=os.path.join(VERIF, "spec"))
    if r.returncode:
        bad += 1
        print(f, r.stdout[-2000:])
for tool in (["g++", "--version"], ["gcc", "--version"]):
    if subprocess.run(tool, stdout=subprocess.DEVNULL).returncode:
        bad += 1
print("setup: %s" % ("failed" if bad else "ok"))
sys.exit(1 if bad else 0)
