#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo: builds, passes the stable
tests, demonstration passes without and fails with the change; then, with
--check, runs the check of the property (and others given) against the copy.

usage: plant.py [--check] [--only-check] [--props C01,C02] ID...
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("PLANT_DIR", "/tmp/plant-copy")

def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", env=dict(os.environ, **(env or {})), timeout=timeout)
    return r.returncode, r.stdout

def build():
    rc, o = sh("cmake -S . -B bld -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_FLAGS_RELWITHDEBINFO='-O2 -g' "
               "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO='-O2 -g' >/dev/null && ninja -C bld", W)
    if rc: return None, o
    rc, o = sh("python3 /opt/vp/run_boost_cases.py %s/bld" % W, W)
    return o, o

def main():
    args = sys.argv[1:]
    check = "--check" in args; only = "--only-check" in args
    props = None
    if "--props" in args:
        k = args.index("--props"); props = args[k + 1].split(","); del args[k:k + 2]
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    if not os.path.exists(W):
        subprocess.check_call(["git", "clone", "-q", "/repo", W])
        open(W + "/.git/info/exclude", "a").write("bld\n")
    sh("git fetch -q origin && git checkout -q -f $(git -C /repo rev-parse HEAD)", W)
    sh("git checkout -q -f -- .", W)
    base = None
    if not only:
        base, o = build()
        assert base is not None, o
    for i in ids:
        d = V + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        msg = []
        try:
            if not only:
                rc, o = sh(["bash", d + "/demo.sh"], W)
                msg.append("demo without: %d%s" % (rc, "" if rc == 0 else " BAD " + o[-300:]))
            rc, o = sh(["git", "apply", d + "/patch.diff"], W)
            if rc:
                print(i, "DOES NOT APPLY", o); continue
            if not only:
                t, o = build()
                if t is None: print(i, "DOES NOT BUILD", o[-1500:]); continue
                same = sorted(t.split("\n")) == sorted(base.split("\n"))
                msg.append("tests: " + ("same" if same else "DIFFER " + str(set(t.split("\n")) ^ set(base.split("\n")))[:400]))
                rc, o = sh(["bash", d + "/demo.sh"], W)
                msg.append("demo with: %d%s" % (rc, "" if rc else " BAD"))
            if check or only:
                for p in props or [meta["property"]]:
                    rc, o = sh(["python3", V + "/bin/check.py", p], V, {"VERIF_REPO": W, "VERIF_TIER": "quick", "VERIF_SEED": "1"})
                    v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                    msg.append("%s: %s" % (p, "caught" if rc == 1 and v else "MISSED" if rc == 0 else "ERROR %d %s" % (rc, o[-600:])))
        finally:
            sh("git checkout -q -f -- . && git clean -fdq opm", W)
        print(i, "|", "; ".join(msg), flush=True)
main()
