"""Shared machinery of the checks: building harnesses, running TLC, verdicts.

Everything a run makes lies in a scratch directory under /verif/.work which
is removed at the end; replay files go to /verif/replay.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, ".work"))
        self.violations = []      # (engine, message, replay data)
        self.counts = {}
        self.samples = []
        self.states = self.transitions = self.traces = 0
        self.parts = []           # description of what ran
        self.assumptions = []
        self._lib = {}
        self.t0 = time.time()
        self.n = 0
        self.lock = threading.Lock()

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def count(self, engine, key, n):
        k = engine + "." + key
        if key.startswith("max_"):
            self.counts[k] = max(self.counts.get(k, 0), n)
        else:
            self.counts[k] = self.counts.get(k, 0) + n

    def violate(self, engine, msg, data=None):
        self.violations.append((engine, msg, data or {}))

    def tmp(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, "%03d-%s" % (self.n, name))

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ------------------------------------------------------------ building
    CFLAGS = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"]

    def lib(self):
        """Objects of all library sources in /repo's working tree."""
        if self._lib:
            return self._lib["objs"]
        srcs = sorted(glob.glob(os.path.join(REPO, "opm", "**", "*.c*"), recursive=True))
        srcs = [s for s in srcs if s.endswith((".c", ".cpp", ".cc", ".cxx"))]
        if not srcs:
            raise CheckError("no library sources found in " + REPO)
        d = os.path.join(self.work, "obj")
        os.makedirs(d, exist_ok=True)

        def one(s):
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            if s.endswith(".c"):
                cmd = ["gcc", "-std=gnu11"] + self.CFLAGS + ["-I" + REPO, "-c", s, "-o", o]
            else:
                cmd = ["g++", "-std=c++17", "-D_GLIBCXX_ASSERTIONS"] + self.CFLAGS + ["-I" + REPO, "-c", s, "-o", o]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError("cannot compile %s:\n%s" % (s, r.stdout[-3000:]))
            return o
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(one, srcs))
        self._lib["objs"] = objs
        return objs

    def build(self, name, extra_ld=()):
        """Build harness/<name>.cpp against the library."""
        key = "prog:" + name
        if key in self._lib:
            return self._lib[key]
        out = os.path.join(self.work, name)
        src = os.path.join(VERIF, "harness", name + ".cpp")
        with cf.ThreadPoolExecutor(2) as ex:
            fo = ex.submit(subprocess.run,
                           ["g++", "-std=c++17", "-D_GLIBCXX_ASSERTIONS"] + self.CFLAGS
                           + ["-I" + REPO, "-c", src, "-o", out + ".o"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            objs = self.lib()
            r = fo.result()
        if r.returncode:
            raise CheckError("cannot compile harness %s:\n%s" % (name, r.stdout[-3000:]))
        r = subprocess.run(["g++", "-fsanitize=address", out + ".o"] + objs + ["-o", out] + list(extra_ld),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("cannot link harness %s:\n%s" % (name, r.stdout[-3000:]))
        self._lib[key] = out
        return out

    # ------------------------------------------------------------ running
    ENV = dict(os.environ,
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=33554432:"
                            "malloc_fill_byte=190:abort_on_error=0:exitcode=99:symbolize=0",
               LC_ALL="C")

    # Half of the processes get freed memory back at once, as without a
    # sanitizer: anything remembered by address meets another object there.
    REUSE = dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0")

    def run_one(self, prog, args, timeout=800):
        args = list(args)
        part = args[args.index("--part") + 1] if "--part" in args else 0
        env = self.REUSE if int(part) % 2 else self.ENV
        try:
            r = subprocess.run([prog] + [str(a) for a in args], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, errors="replace", env=env,
                               timeout=timeout, cwd=self.work)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            def txt(x):
                return x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
            return -1000, txt(e.stdout), txt(e.stderr)

    def run_parts(self, engine, prog, args, parts=NCPU, timeout=None, only_arg="--only"):
        """Run a harness as `parts` processes over disjoint cases.

        A process that dies (sanitizer, assertion, signal, per-case CPU limit)
        counts as a violation if the case in hand makes it die again.
        Returns the outputs of the processes that finished.
        """
        outs = []
        timeout = timeout or (3 * 3600 if self.thorough() else 480)

        def one(k):
            pf = self.tmp("prog-%s-%d" % (os.path.basename(prog), k))
            rc, out, err = self.run_one(prog, list(args) + ["--part", k, "--parts", parts, "--progress", pf], timeout)
            return k, pf, rc, out, err
        with cf.ThreadPoolExecutor(parts) as ex:
            res = list(ex.map(one, range(parts)))
        confirmed = False
        for k, pf, rc, out, err in res:
            if rc == 0 and "\nDONE " in "\n" + out:
                outs.append(out)
                continue
            if confirmed:       # one that dies again will do (hangs take long to confirm)
                outs.append(out)
                continue
            if rc == 3:
                raise CheckError("%s could not run: %s" % (prog, err[-500:]))
            case = ""
            try:
                case = open(pf, errors="replace").read().strip()
            except OSError:
                pass
            num = case.split()[0] if case.split() else ""
            why = death(rc, err)
            if not re.fullmatch(r"\d+", num):
                raise CheckError("%s died before its first case: %s\n%s" % (prog, why, err[-1500:]))
            rc2, out2, err2 = self.run_one(prog, list(args) + [only_arg, num, "--progress", pf + "r"], timeout)
            if rc2 == 0:
                if rc == -1000:
                    raise CheckError("%s took longer than %d s" % (prog, timeout))
                # Not reproduced in isolation: repeat the whole part.
                rc2, out2, err2 = self.run_one(
                    prog, list(args) + ["--part", k, "--parts", parts, "--progress", pf + "r"], timeout)
                if rc2 == 0:
                    outs.append(out2)
                    print("note: %s died once (%s) and not when repeated" % (os.path.basename(prog), why))
                    continue
            self.violate(engine, "the code died on case %s: %s" % (case, death(rc2, err2)),
                         {"case": case, "args": [str(a) for a in args], "stderr": err2[-4000:]})
            confirmed = True
            outs.append(out2)
        return outs

    def take(self, engine, outs, cases=None):
        """Collect MISMATCH and COUNT lines of harness outputs."""
        for out in outs:
            for line in out.splitlines():
                if line.startswith("MISMATCH "):
                    f = line.split(" ", 4)
                    if f[1] == self.prop:
                        data = {"line": line}
                        if cases is not None:
                            data["case"] = cases.get(int(f[2]))
                        self.violate(engine, line[9:], data)
                elif line.startswith("COUNT "):
                    _, k, v = line.split()
                    self.count(engine, k, int(v))

    # ------------------------------------------------------------ TLC
    def tlc(self, module, constants, invariants=(), spec="Spec", properties=(), view=None, alias=None,
            constraint=None, postcondition=None, timeout=None, workers=NCPU, extra=(), heap="6g"):
        """Run TLC on spec/<module>.tla.  Returns an object with the parsed outcome."""
        d = self.tmp(module)
        os.makedirs(d)
        timeout = timeout or (3 * 3600 if self.thorough() else 800)
        cfg = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
        if constants:
            cfg.append("CONSTANTS")
            for k, v in constants.items():
                cfg.append("  %s = %s" % (k, tla(v)))
        if invariants:
            cfg.append("INVARIANTS " + " ".join(invariants))
        if properties:
            cfg.append("PROPERTIES " + " ".join(properties))
        if view:
            cfg.append("VIEW " + view)
        if alias:
            cfg.append("ALIAS " + alias)
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        cp = os.path.join(d, module + ".cfg")
        with open(cp, "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE",
               "-config", cp] + list(extra) + [os.path.join(VERIF, "spec", module + ".tla")]
        t = time.time()
        out = os.path.join(d, "out")
        seen = None
        with open(out, "wb") as f:
            r = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=d)
        while True:
            try:
                r.wait(2 if r.poll() is None and time.time() - t > 5 else 0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            # printing the states that lead to a violation can take forever
            if seen is None and now - t > 20 and b"is violated" in read_tail(out):
                seen = now
            if seen is not None and now - seen > 40:
                r.kill()
                r.wait()
                break
            if now - t > timeout:
                r.kill()
                r.wait()
                raise CheckError("TLC on %s took longer than %d s" % (module, timeout))
        with open(out, errors="replace") as f:
            o = TlcOut(module, r.returncode, f.read(), time.time() - t)
        shutil.rmtree(d, ignore_errors=True)
        with self.lock:
            self.states += o.distinct
            self.transitions += max(0, o.generated - o.initial)
        self.parts.append({"tlc": module, "constants": {k: str(v)[:80] for k, v in constants.items() if "File" not in k},
                           "invariants": list(invariants), "states": o.distinct, "generated": o.generated,
                           "seconds": round(o.secs, 1)})
        return o

    def tlc_ok(self, *a, **k):
        """As tlc(), for models that do not depend on the code: any failure is ours."""
        o = self.tlc(*a, **k)
        if not o.ok:
            raise CheckError("TLC failed on %s:\n%s" % (o.module, o.tail()))
        return o

    def judge(self, engine, module, constants, invariants, reject_invariants=None, **k):
        """Trace validation: an invariant violation is a rejection of the code's
        trace, anything else that goes wrong is an error of the check."""
        o = self.tlc(module, constants, invariants, **k)
        if o.ok:
            return o
        if o.violated:
            self.violate(engine, "TLC rejects the recorded trace: %s (%s)" % (o.violated, module),
                         {"tlc": o.tail(6000), "notes": o.lines("@")[:20]})
            return o
        if o.undefined:
            # what was recorded is outside the domain of the specification (an index of
            # nothing, a number that does not fit): no behaviour of it
            self.violate(engine, "TLC cannot take the recorded trace for a behaviour: %s (%s)" % (o.undefined, module),
                         {"tlc": o.tail(6000), "notes": o.lines("@")[:20]})
            return o
        raise CheckError("TLC failed on %s:\n%s" % (module, o.tail()))


def read_tail(path, n=1 << 20):
    with open(path, "rb") as f:
        f.seek(0, os.SEEK_END)
        f.seek(max(0, f.tell() - n))
        return f.read()


def death(rc, err):
    if rc == -1000:
        return "wall time limit"
    if rc == -27:
        return "no result within the CPU time limit of one case"
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
    if m:
        return "AddressSanitizer: " + m.group(1)[:200]
    m = re.search(r"[^\n]*Assertion[^\n]*", err)
    if m:
        return m.group(0)[:300]
    m = re.search(r"terminate called[^\n]*(\n[^\n]*what[^\n]*)?", err)
    if m:
        return m.group(0)[:300]
    return "exit status %d" % rc if rc >= 0 else "signal %d" % -rc


class TlcOut:
    def __init__(self, module, rc, out, secs):
        self.module, self.rc, self.out, self.secs = module, rc, out, secs
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out
        m = re.search(r"Invariant (\S+) is violated", out)
        self.violated = m.group(1) if m else None
        m = re.search(r"Attempted to (?:apply|access|select|check|compare|compute|enumerate)[^\n]*|[^\n]*not in the domain of the function[^\n]*|Overflow when computing[^\n]*", out)
        self.undefined = m.group(0)[:200] if m and rc != 0 and "OutOfMemory" not in out and "Java heap" not in out else None
        m = re.findall(r"(\d+) states generated(?:[^\n]*?), (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"(\d+) distinct states? generated at", out) or re.search(r"Finished computing initial states: (\d+)", out)
        self.initial = int(m.group(1)) if m else 0

    def lines(self, prefix):
        """Strings printed by the specification with the given prefix."""
        r = []
        for l in self.out.splitlines():
            if l.startswith('"' + prefix) and l.endswith('"'):
                r.append(l[1 + len(prefix):-1].replace('\\"', '"'))
        return r

    def tail(self, n=2500):
        body = "\n".join(l for l in self.out.splitlines() if not l.startswith('"@'))
        i = body.find("Error:")
        return body[i:i + n] if i >= 0 else body[-n:]


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    return '"' + str(v) + '"'


def finish(ctx, level, errors=None):
    """Write evidence, print verdict lines, return the exit code."""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples[:6],
           "counts": dict(sorted(ctx.counts.items())),
           "models": ctx.parts}
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, v in sorted(ctx.counts.items()):
        print("  %-40s %d" % (k, v))
    print("  states %d, transitions %d, traces validated against the code %d, %.1f s"
          % (ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.t0))
    known = known_findings(ctx.prop)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k))
    if ctx.violations:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (ctx.prop, ctx.seed, int(time.time() * 1000) % 10**9))
        with open(path, "w") as f:
            json.dump({"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed,
                       "repeat": "cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 bin/check.py %s"
                                 % (VERIF, ctx.seed, ctx.tier, ctx.prop),
                       "violations": [{"engine": e, "message": m, "data": d} for e, m, d in ctx.violations[:25]]},
                      f, indent=1)
            f.write("\n")
        for e, m, _ in ctx.violations[:5]:
            print("  [%s] %s" % (e, m[:400]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        return 1
    return 0


def known_findings(prop):
    """Findings recorded, not repaired: lines `known: property=<id> <what fails>`."""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r.append(m.group(2).strip())
    return r
