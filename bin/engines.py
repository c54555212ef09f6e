"""One function per engine: a specification, how its behaviours are bound to
the code, and what is counted.  See DESIGN.md."""
import concurrent.futures as cf
import json
import os

from vlib import CheckError, NCPU


# ---------------------------------------------------------------- flow: exact networks
FLOW_INV = ["SupportOK", "BalanceOK", "UnityOK", "SuperposeOK", "CapOK", "MirrorOK", "PairVolOK", "PairFluxOK", "CoverOK"]


def flow_cases(ctx, family, first, last, stride, seed):
    o = ctx.tlc_ok("FlowGen", {"Family": family, "First": first, "Last": last, "Stride": stride,
                               "Seed": seed, "Emit": True}, FLOW_INV, workers=4)
    lines = sorted(o.lines("@"), key=lambda l: int(l[1:l.index(",")]))
    if not lines:
        raise CheckError("FlowGen produced no cases for family " + family)
    return lines


def flow(ctx):
    prog = ctx.build("flow")
    prop = ctx.prop
    big = ctx.thorough()
    fams = []
    stride = 1 if big else 23
    fams.append(("exh", ctx.seed % stride, 31999, stride))
    n = 40000 if big else 1500
    for fam in ("rnd", "bal", "cyc"):
        m = n
        if prop == "C06" and fam == "bal":
            m = n // 4
        if prop in ("C18", "C19") and fam in ("rnd", "cyc"):
            m = n // 2
        fams.append((fam, 0, m - 1, 1))
    def one(fam, a, b, st):
        cases = []
        # the pseudo random families have room for 20000 indices each
        if fam != "exh" and b >= 20000:
            for k in range((b + 1) // 20000):
                cases += flow_cases(ctx, fam, 0, 19999, 1, ctx.seed + 1000003 * k)
        else:
            cases = flow_cases(ctx, fam, a, b, st, ctx.seed)
        path = ctx.tmp("flow-%s.txt" % fam)
        with open(path, "w") as f:
            f.write("\n".join(cases) + "\n")
        outs = ctx.run_parts("flow", prog, ["--in", path, "--seed", ctx.seed, "--props", prop])
        os.unlink(path)
        return fam, cases, outs

    # all families at once: none has to wait for the slowest part of another
    with cf.ThreadPoolExecutor(2 if big else len(fams)) as ex:
        for fam, cases, outs in ex.map(lambda f: one(*f), fams):
            if len(ctx.samples) < 3:
                ctx.samples.append({"engine": "flow", "family": fam, "case": json.loads(cases[len(cases) // 2])})
            before = ctx.counts.get("flow.cases", 0)
            ctx.take("flow", outs, {int(l[1:l.index(",")]): l for l in cases})
            ctx.traces += ctx.counts.get("flow.cases", 0) - before


# ---------------------------------------------------------------- flowbig: large networks, residuals
def flowbig(ctx):
    t = ctx.thorough()
    prog = ctx.build("flowbig")
    pre = ctx.tmp("rec")
    outs = ctx.run_parts("flowbig", prog, ["--seed", ctx.seed, "--props", ctx.prop, "--out", pre,
                                           "--num", 1536 if t else 96])
    ctx.take("flowbig", outs)
    if ctx.violations:
        return
    path, n = gather(ctx, pre)
    ctx.tlc_ok("DyadicThm", {"Big": 5}, ["NormalOK", "AddOK", "MulOK", "LeOK", "ShiftOK", "DistOK", "SqBig"])
    ctx.judge("flowbig", "FlowTrace", {"TraceFile": path, "Prop": ctx.prop}, ["AllHold"], heap="10g")
    ctx.traces += n
    os.unlink(path)


# ---------------------------------------------------------------- solver: one solver, many solves
def solver(ctx):
    t = ctx.thorough()
    prog = ctx.build("solver")
    pre = ctx.tmp("rec")
    outs = ctx.run_parts("solver", prog, ["--seed", ctx.seed, "--props", ctx.prop, "--out", pre, "--num", 2048 if t else 128])
    ctx.take("solver", outs)
    if ctx.violations:
        return
    path, n = gather(ctx, pre)
    ctx.judge("solver", "FlowTrace", {"TraceFile": path, "Prop": ctx.prop}, ["AllHold"], heap="10g")
    ctx.traces += n
    os.unlink(path)


# ---------------------------------------------------------------- solver_model: the algorithm of the solver
def solver_model(ctx):
    """The algorithm meets the determinant solution in any admissible order and any
    history of solves; the histories are replayed into one real solver object."""
    t = ctx.thorough()
    inv = ["Exact", "Below", "RegionSoon", "NoLeak"]
    c = {"First": 0, "Last": 400 if t else 40, "Stride": 1, "Solves": 1, "Sweeps": 5 if t else 4, "AnyOrder": True,
         "Seed": ctx.seed, "Emit": False}
    ctx.tlc_ok("SolverAlgo", c, inv, properties=["Rising", "Ends"])
    if ctx.prop != "C24":
        return
    prog = ctx.build("solver")
    for k in range(10 if t else 1):
        c = {"First": 1000 + 100 * k, "Last": 1000 + 100 * k + (80 if t else 20), "Stride": 1, "Solves": 3, "Sweeps": 1, "AnyOrder": False,
             "Seed": ctx.seed, "Emit": True}
        o = ctx.tlc_ok("SolverAlgo", c, inv)
        lines = sorted(o.lines("@"))
        if not lines:
            raise CheckError("SolverAlgo produced no histories")
        path = ctx.tmp("hist.txt")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        ctx.samples.append({"engine": "solver_model", "history": json.loads(lines[len(lines) // 3])})
        outs = ctx.run_parts("solver_model", prog, ["--in", path, "--seed", ctx.seed, "--props", ctx.prop])
        ctx.take("solver_model", outs, dict(enumerate(lines)))
        ctx.traces += len(lines)
        os.unlink(path)
        if ctx.violations:
            return


# ---------------------------------------------------------------- tarjan: strong components
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]


def gather(ctx, prefix, parts=NCPU):
    """Concatenate the record files of the parts of a harness run."""
    path = ctx.tmp("trace.ndjson")
    n = 0
    with open(path, "w") as w:
        for k in range(parts):
            p = "%s.%d" % (prefix, k)
            if os.path.exists(p):
                with open(p) as f:
                    for line in f:
                        if line.endswith("}\n"):
                            w.write(line)
                            n += 1
                os.unlink(p)
    return path, n


def sample(ctx, engine, path, k=1, maxlen=1500):
    with open(path) as f:
        got = 0
        for j, line in enumerate(f):
            if j % 997 == 13 and len(line) < maxlen:
                ctx.samples.append({"engine": engine, "record": json.loads(line)})
                got += 1
                if got >= k:
                    return


def tarjan(ctx):
    t = ctx.thorough()
    prog = ctx.build("tarjan", WRAP)
    pre = ctx.tmp("rec")
    args = ["--seed", ctx.seed, "--props", ctx.prop, "--out", pre,
            "--n4", 65536 if t else 4000, "--rnd", 20000 if t else 1500,
            "--hist", 4000 if t else 400, "--faults", 600 if t else 60,
            "--chains", 1500 if t else 60]
    outs = ctx.run_parts("tarjan", prog, args)
    ctx.take("tarjan", outs)
    if ctx.violations:
        return
    path, n = gather(ctx, pre)
    sample(ctx, "tarjan", path, 3)
    ctx.judge("tarjan", "TarjanTrace", {"TraceFile": path}, [ctx.prop + "_OK"])
    ctx.traces += n
    os.unlink(path)


def scc_model(ctx):
    """The specification itself: certificates mean the same as the definition, and
    the algorithm, with its shared memory, meets it."""
    t = ctx.thorough()
    if ctx.prop in ("C11", "C12"):
        ctx.tlc_ok("SccThm", {"N": 3 if t or ctx.prop == "C12" else 2}, ["Equivalent", "RevOK"])
    else:
        ctx.tlc_ok("SccThm", {"N": 2}, ["Equivalent", "RevOK"])
    ctx.tlc_ok("ChainThm", {"N": 2, "MaxK": 2}, ["Same"])
    if t:
        ctx.tlc_ok("ChainThm", {"N": 1, "MaxK": 5}, ["Same"])
    inv = ["StacksApart", "InBounds", "StackSane", "Correct"]
    if ctx.prop == "C11":
        ctx.tlc_ok("TarjanAlgo", {"N": 3, "W": 3, "Mode": "full", "MaxStart": 0, "First": 0, "Last": 511}, inv, properties=["Ends"])
        ctx.tlc_ok("TarjanAlgo", {"N": 4, "W": 4, "Mode": "full", "MaxStart": 0,
                                  "First": 0 if t else 8192 * (ctx.seed % 8), "Last": 65535 if t else 8192 * (ctx.seed % 8) + 8191}, inv)
    elif ctx.prop == "C12":
        ctx.tlc_ok("TarjanAlgo", {"N": 3, "W": 4, "Mode": "reach", "MaxStart": 3 if t else 2, "First": 0, "Last": 511}, inv,
                   properties=["Ends"])
        if t:
            ctx.tlc_ok("TarjanAlgo", {"N": 4, "W": 5, "Mode": "reach", "MaxStart": 2, "First": 0, "Last": 32767}, inv)


# ---------------------------------------------------------------- csr: compressed adjacency
def csr(ctx):
    t = ctx.thorough()
    prog = ctx.build("csr")
    pre = ctx.tmp("rec")
    args = ["--seed", ctx.seed, "--props", ctx.prop, "--out", pre,
            "--exh", 20000 if t else 2500, "--rnd", 40000 if t else 2500,
            "--big", 64 if t else 12, "--print", 40000 if t else 4000]
    outs = ctx.run_parts("csr", prog, args)
    ctx.take("csr", outs)
    if ctx.violations:
        return
    path, n = gather(ctx, pre)
    sample(ctx, "csr", path, 2, 4000)
    ctx.judge("csr", "CsrTrace", {"TraceFile": path}, [ctx.prop + "_OK"], view="Place", alias="Short", heap="8g")
    ctx.traces += n
    os.unlink(path)


def csr_model(ctx):
    inv = ["Correct", "PlacesOK", "CertSame"]
    if ctx.prop == "C14":
        k = dict(MaxI=2, MaxJ=2, MaxLen=4, MaxRows=4, MaxGraphs=1) if ctx.thorough() else dict(MaxI=2, MaxJ=2, MaxLen=3, MaxRows=4, MaxGraphs=1)
    else:
        k = dict(MaxI=2, MaxJ=2, MaxLen=3, MaxRows=4, MaxGraphs=2) if ctx.thorough() else dict(MaxI=1, MaxJ=2, MaxLen=2, MaxRows=3, MaxGraphs=2)
    ctx.tlc_ok("CsrAlgo", k, inv)


# ---------------------------------------------------------------- hist: call histories of toolboxes
def hist(ctx):
    t = ctx.thorough()
    prog = ctx.build("hist")
    models = range(0, 24 if t else 7)
    path = ctx.tmp("models.txt")
    ntr = 0

    def one(m):
        return ctx.tlc_ok("Toolbox", {"Model": m + 24 * (ctx.seed % 50), "Seed": ctx.seed, "Emit": True},
                          ["TypeOK", "CacheCoherent"], properties=["Frame", "Monotone"], workers=2)
    with cf.ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(one, models))
    with open(path, "w") as f:
        for o in outs:
            lines = sorted(set(o.lines("@")), key=lambda l: int(l[1:l.index(",")]))
            tags = [l[1] for l in lines]
            if tags.count("0") != 1 or tags.count("2") != 1 or tags.count("3") == 0:
                raise CheckError("Toolbox printed an incomplete model")
            ntr += tags.count("4")
            f.write("\n".join(lines) + "\n")
    ctx.count("hist", "spec_transitions", ntr)
    outs = ctx.run_parts("hist", prog, ["--in", path, "--seed", ctx.seed, "--props", ctx.prop,
                                        "--rnd", 60000 if t else 4000, "--len", 5 if t else 4])
    ctx.take("hist", outs)
    ctx.traces += ctx.counts.get("hist.sequences", 0) + ctx.counts.get("hist.walks", 0)
    ctx.samples.append({"engine": "hist", "transition": "[4, pv, flux, inflow, call, option, outcome, pv', flux', inflow']",
                        "models": len(models)})
    os.unlink(path)


# ---------------------------------------------------------------- derived: curves and pairs
def derived(ctx):
    t = ctx.thorough()
    prog = ctx.build("derived")
    args = ["--seed", ctx.seed, "--props", ctx.prop]
    if ctx.prop in ("C16", "C17"):
        path = ctx.tmp("curves.txt")
        inv = ["CurveOK", "LorenzOK", "SweepOK"]
        n = 0
        with open(path, "w") as f:
            for fam, a, b, st in (("exh", 0 if t else ctx.seed % 3, 49151, 1 if t else 7), ("rnd", 0, 40000 if t else 2500, 1)):
                o = ctx.tlc_ok("DerivedGen", {"Family": fam, "First": a, "Last": b, "Stride": st, "Seed": ctx.seed, "Emit": True}, inv)
                lines = sorted(o.lines("@"), key=lambda l: int(l[1:l.index(",")]))
                n += len(lines)
                f.write("\n".join(lines) + "\n")
                ctx.samples.append({"engine": "derived", "family": fam, "case": json.loads(lines[len(lines) // 2])})
        if not n:
            raise CheckError("DerivedGen produced no cases")
        args += ["--in", path]
        ctx.traces += n
    pre = ctx.tmp("rec")
    args += ["--out", pre, "--rnd", 20000 if t else 1200, "--big", 48 if t else 12]
    outs = ctx.run_parts("derived", prog, args)
    ctx.take("derived", outs)
    if ctx.violations:
        return
    path, n = gather(ctx, pre)
    sample(ctx, "derived", path, 2)
    ctx.judge("derived", "DerivedTrace", {"TraceFile": path}, [ctx.prop + "_OK"], heap="8g")
    ctx.traces += n


# ---------------------------------------------------------------- curve: curves of any magnitude
def curve(ctx):
    t = ctx.thorough()
    prog = ctx.build("curve")
    pre = ctx.tmp("rec")
    outs = ctx.run_parts("curve", prog, ["--seed", ctx.seed, "--props", ctx.prop, "--out", pre, "--num", 12000 if t else 800])
    ctx.take("curve", outs)
    if ctx.violations:
        return
    path, n = gather(ctx, pre)
    ctx.judge("curve", "CurveTrace", {"TraceFile": path, "Prop": ctx.prop}, ["AllHold"], heap="10g")
    ctx.traces += n
    os.unlink(path)


# ---------------------------------------------------------------- cont: value holders
def cont(ctx):
    t = ctx.thorough()
    prog = ctx.build("cont")
    pre = ctx.tmp("rec")
    outs = ctx.run_parts("cont", prog, ["--seed", ctx.seed, "--props", ctx.prop, "--out", pre,
                                        "--rnd", 12000 if t else 1200, "--exh", 10000 if t else 2000])
    ctx.take("cont", outs)
    if ctx.violations:
        return
    path, n = gather(ctx, pre)
    sample(ctx, "cont", path, 3, 3000)
    ctx.judge("cont", "ContTrace", {"TraceFile": path}, [ctx.prop + "_OK"], view="Place", alias="Short", heap="8g")
    ctx.traces += n
    os.unlink(path)


# ---------------------------------------------------------------- threads: separate objects at the same time
def threads(ctx):
    t = ctx.thorough()
    prog = ctx.build("threads", WRAP + ["-pthread"])
    inv = ["ResultOK", "Partial"]
    path = ctx.tmp("schedules.txt")
    n = 0
    with open(path, "w") as f:
        for p, segs, runs in ((2, 4, 6), (3, 2, 5)) if not t else ((2, 6, 8), (3, 3, 7), (4, 2, 6)):
            c = {"P": p, "Segs": segs, "MaxRuns": runs, "Global": False, "Emit": True}
            o = ctx.tlc_ok("Threads", c, inv, properties=["Apart"])
            lines = sorted(set(o.lines("@")))
            if not lines:
                raise CheckError("Threads produced no schedules")
            n += len(lines)
            f.write("\n".join(lines) + "\n")
            ctx.samples.append({"engine": "threads", "threads": p, "schedule": json.loads(lines[len(lines) // 2])})
    # the schedules can tell memory of one's own from memory in common
    o = ctx.tlc("Threads", {"P": 2, "Segs": 2, "MaxRuns": 3, "Global": True, "Emit": False}, ["ResultOK"])
    if o.violated != "ResultOK":
        raise CheckError("Threads: common memory was not told apart:\n" + o.tail())
    ctx.count("threads", "spec_schedules", n)
    outs = ctx.run_parts("threads", prog, ["--in", path, "--seed", ctx.seed, "--rnd", 40000 if t else 3000,
                                           "--pairs", 4000 if t else 312, "--free", 60 if t else 4])
    ctx.take("threads", outs)
    ctx.traces += ctx.counts.get("threads.schedules", 0)
    os.unlink(path)


ENGINES = {"threads": threads, "curve": curve, "solver_model": solver_model, "solver": solver, "flowbig": flowbig, "cont": cont, "derived": derived, "hist": hist, "flow": flow, "tarjan": tarjan, "scc_model": scc_model,
           "csr": csr, "csr_model": csr_model}

PROPS = {
    "C01": ["flow", "flowbig"],
    "C02": ["flow", "flowbig"],
    "C03": ["flow", "flowbig"],
    "C04": ["flow", "flowbig"],
    "C05": ["flow", "flowbig"],
    "C06": ["solver_model", "flow", "flowbig"],
    "C07": ["flow", "flowbig"],
    "C08": ["hist", "flowbig"],
    "C09": ["hist"],
    "C10": ["flow", "flowbig"],
    "C11": ["scc_model", "tarjan"],
    "C12": ["scc_model", "tarjan"],
    "C13": ["scc_model", "tarjan"],
    "C14": ["csr_model", "csr"],
    "C15": ["csr_model", "csr"],
    "C20": ["cont"],
    "C21": ["cont"],
    "C22": ["csr"],
    "C23": ["cont"],
    "C16": ["derived", "curve"],
    "C17": ["derived", "curve"],
    "C18": ["derived", "flow", "flowbig"],
    "C19": ["derived", "flow", "flowbig"],
    "C24": ["solver_model", "solver"],
    "C25": ["threads"],
}
