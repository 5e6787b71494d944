"""C32: each repetition runs exactly once, in no more processes than useful."""
from ..decide import compare
from ..terms import *
from .common import *  # noqa: F403
from .common import mk

HEAD = '''
from mcsas3.mc_core import McCore
from mcsas3.mc_hat import McHat
f = SA_PATH("f.nxs")
SA_FRESH(f)
md = {"Q": [SA_SYM("Q", "array")], "I": SA_SYM("I", "array"), "ISigma": SA_SYM("s", "array")}
LO, HI = SA_SYM("lo", "float"), SA_SYM("hi", "float")
NCORES = SA_SYM("nCores", "int")
if not NCORES >= 0:
    raise SystemExit
def optimize(self):
    SA_OBS("repetition", self._opt.repetition)
    SA_OBS("Q", self._measData["Q"][0])
    SA_OBS("intensity", self._measData["I"])
    SA_OBS("uncertainty", self._measData["ISigma"])
    SA_OBS("lower limit", self._model.fitParameterLimits["radius"][0])
    SA_OBS("upper limit", self._model.fitParameterLimits["radius"][1])
    SA_OBS("scattering length density", self._model.staticParameters["sld"])
    SA_OBS("largest number of steps", self._opt.maxIter)
    SA_OBS("convergence criterion", self._opt.convCrit)
    SA_OBS("number of contributions", self._model.nContrib)
McCore.optimize = optimize
if {nostore}:
    McCore.store = McHat.store = lambda self, *a, **k: None
def hat(**k):
    return McHat(modelName="sphere", nContrib=2, fitParameterLimits={"radius": [LO, HI]}, staticParameters={"sld": SA_SYM("sld", "float")}, seed=SA_SYM("seed", "int"), maxIter=SA_SYM("maxIter", "int"), convCrit=SA_SYM("convCrit", "float"), **k)
'''
def same(cx):
    return {
        "Q": cx.sym("Q", "array"), "intensity": cx.sym("I", "array"), "uncertainty": cx.sym("s", "array"), "lower limit": cx.sym("lo", "float"), "upper limit": cx.sym("hi", "float"),
        "scattering length density": cx.sym("sld", "float"), "largest number of steps": cx.sym("maxIter", "int"), "convergence criterion": cx.sym("convCrit", "float"), "number of contributions": const(2),
    }


WAYS = {
    "a run": 'h = hat(nRep={n}, nCores={c})\nSA_MARK("start")\nh.run(md, f)\nSA_MARK("end")\n',
    "a second run": 'h = hat(nRep={n}, nCores={c})\nh.run(md, f)\nSA_MARK("start")\nh.run(md, f)\nSA_MARK("end")\n',
    "a run after another one": 'g = hat(nRep=2, nCores={c})\ng.run(md, f)\nh = hat(nRep={n}, nCores={c})\nSA_MARK("start")\nh.run(md, SA_PATH("g.nxs"))\nSA_MARK("end")\n',
    "a run for another result index": 'h = hat(nRep={n}, nCores={c})\nSA_MARK("start")\nh.run(md, f, 3)\nSA_MARK("end")\n',
    "a run after one repetition": 'h = hat(nRep={n}, nCores={c})\nh.runOnce(md, f, 0)\nSA_MARK("start")\nh.run(md, f)\nSA_MARK("end")\n',
    "a run with the settings of a file": 'hat(nRep={n}, nCores=1).run(md, f)\nh = hat(loadFromFile=f, nCores={c})\nSA_MARK("start")\nh.run(md, f)\nSA_MARK("end")\n',
}
CORES = sym("number of cores", "int")


def cores(t):
    return transform(t, lambda x: CORES if x.op == "call" and isinstance(x.a[0], str) and x.a[0].endswith("cpu_count") else x)


def atleast(t, n):
    return neg(mk("cmp", "<", t, const(n)))
# (processes asked for, cores), 0: any number of cores
CONFIGS = [("NCORES", 0), ("0", 0), ("1", 0)] + [(str(c), k) for c in (0, 1, 2, 4) for k in (1, 2, 3, 8)]


def check(cx):
    ns = (1, 2, 3, 5) if cx.tier == "quick" else (1, 2, 3, 4, 5, 6, 7)
    for n in (*ns, 12):
        for c, k in CONFIGS if n < 12 else [("1", 0), ("1", 4), ("2", 4), ("4", 8), ("0", 16)]:
            for name, way in WAYS.items():
                if k and n == 1 and k > 1 or "file" in name and not k:
                    continue
                if n == 12 and name != "a run" or "file" in name and n != 2 or cx.tier == "quick" and n not in (1, 2 if "file" in name else 3) and name != "a run":
                    continue
                name = f"{name}, {n} repetitions, {'any number of' if c == 'NCORES' else c if c != '0' else 'automatic number of'} processes" + f" on {k} cores" * bool(k)
                e = cx.drive(name, HEAD.replace("{nostore}", str("file" not in name)) + way.format(n=n, c=c), STUBS, setup=(lambda e: setattr(e.lib, "f_multiprocessing_cpu_count", lambda args, kw: const(k))) if k else None)
                if e is not None:
                    judge(cx, e, name, n, sym("nCores", "int") if c == "NCORES" else const(int(c)), const(k) if k else CORES)


def judge(cx, e, name, n, given, CORES):
    evs = section(e, "start", "end")
    if not driven(e, "end"):
        why = e.uncaught[-1] if e.uncaught else None
        cx.und("each repetition exactly once", f"{name}: the run did not end ({why[1] if why else 'no path'})")
        return
    base = [cores(g) for x in e.events if x.kind == "mark" and x.name == "start" for g in x.guard] + [atleast(CORES, 1)]
    end = [cores(g) for x in e.events if x.kind == "mark" and x.name == "end" for g in x.guard]
    obs = [x for x in evs if x.kind == "obs"]
    fuzzy = any(c[0] == "loop" for x in obs for c in x.ctx) or e.unmodelled
    count = {r: const(0) for r in range(n)}
    pos = None
    for x in obs:
        g = [cores(t) for t in x.guard]
        if x.name == "repetition":
            v = cores(x.value)
            for r in range(n):
                count[r] = mk("bin", "+", count[r], gamma(conj(g + [mk("cmp", "==", v, const(r))]), const(1), const(0)))
            # its own number, one of those asked for
            verdict(cx, compare(conj([atleast(v, 0), mk("cmp", "<", v, const(n))]), TRUE, g + base), "only the repetitions that were asked for", f"{name}: repetition {show(v, 4)[:80]}", x.pos)
        else:
            verdict(cx, compare(x.value, same(cx)[x.name], g + base), "the same data and settings for every repetition", f"{name}: {x.name} is {show(x.value, 4)[:200]}", x.pos)
    for r in range(n):
        what = f"{name}: repetition {r}"
        if fuzzy:
            cx.und("each repetition exactly once", what + ": repetitions in a loop of unknown length")
            continue
        verdict(cx, compare(count[r], const(1), end + [atleast(CORES, 1)]), "each repetition exactly once", what + f" is run {show(count[r], 4)[:200]} times", runpos(e))
    # the processes
    pools = [x for x in evs if x.kind == "pool" and live(x)]
    for i, x in enumerate(pools):
        g = [cores(t) for t in x.guard] + [atleast(CORES, 1)]
        p = cores(x.n) if x.n is not NONE else CORES
        p = p.a[1] if p.op == 'call' and p.a[0] == 'int' and cint(p.a[1]) else p
        before = [y for y in pools[:i] if not joined(evs, y, x)]
        if before:
            cx.und("no more processes than useful", f"{name}: several groups of processes at a time")
            continue
        rule = "no more processes than useful"
        verdict(cx, compare(neg(mk("cmp", "<", const(n), p)), TRUE, g), rule, f"{name}: {show(p, 4)[:120]} processes for {n} repetitions", x.pos)
        verdict(cx, compare(neg(mk("cmp", "<", CORES, p)), TRUE, g), rule, f"{name}: {show(p, 4)[:120]} processes may be more than the cores", x.pos)
        verdict(cx, compare(disj([mk("cmp", "==", given, const(0)), neg(mk("cmp", "<", given, p))]), TRUE, g), rule, f"{name}: {show(p, 4)[:120]} processes are more than requested", x.pos)
        rule = "no processes for one core or one repetition"
        verdict(cx, compare(disj([mk("cmp", "==", given, const(1)), TRUE if n == 1 else FALSE]), FALSE, g), rule, f"{name}: processes are started", x.pos)
    if not pools:
        cx.ok("no processes for one core or one repetition")


def joined(evs, y, x):
    on = False
    for z in evs:
        if z is y:
            on = True
        elif z is x:
            return False
        elif on and z.kind in ("pooljoin", "poolexit", "poolshutdown") and z.ref is y.ref:
            return True
    return False


def runpos(e):
    return next((x.pos for x in e.events if x.kind in ("task", "pool")), None)


def verdict(cx, r, rule, text, pos):
    cx.require(rule, {"ok": True, "bad": False}.get(r.status), text + (f": {r.why}" if r.status == "undecided" else ""), pos)


HOW = "runs are analysed for an unknown and for several known numbers of cores and processes up to the optimisation of each repetition; repetitions are counted on every path"
