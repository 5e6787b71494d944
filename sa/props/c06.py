"""C06: the seed decides every random choice."""
import ast

from ..terms import *  # noqa: F403
from .common import HAT, HATARGS, SETUP, STUBS

RUN = HAT + f'''
h = McHat({HATARGS}, nCores=%s)
h.run(md, f)
'''
LOGS = HAT + f'''
h = McHat({HATARGS}, nCores=1, logRandom=True)
h.run(md, f)
'''
TRIAL = SETUP + '''
model = McModel(modelName="sphere", nContrib=3, fitParameterLimits={"radius": [LO, HI], "length": [LO2, HI2]}, staticParameters={"sld": SA_SYM("sld", "float")}, seed=SA_SYM("seed", "int"), logRandom=%s)
opt = McOpt(maxIter=SA_SYM("maxIter", "int"), convCrit=SA_SYM("convCrit", "float"), maxAccept=SA_SYM("maxAccept", "int"), repetition=2)
c = McCore(md, model=model, opt=opt)
c.iterate()
c.iterate()
SA_OBS("parameters", c._model.parameterSet)
SA_OBS("trial parameters", c._model.pickParameters)
SA_OBS("intensity", c._opt.modelI)
SA_OBS("goodness of fit", c._opt.gof)
SA_OBS("scaling and background", c._opt.x0)
f = SA_PATH("f.nxs")
SA_FRESH(f)
c.store(f)
'''
NONDET = ("time.", "os.getpid", "os.urandom", "id", "hash", "datetime", "uuid", "secrets", "random.", "getrandom", "numpy.random")


def nondet(t):
    return [x for x in walk(t) if x.op == "call" and isinstance(x.a[0], str) and x.a[0] not in ("numpy.random",) and any(x.a[0] == n or (n.endswith(".") or n in ("datetime", "uuid", "secrets")) and x.a[0].startswith(n) for n in NONDET)]


def leaves(t):
    """the values that t may have"""
    return leaves(t.a[1]) + leaves(t.a[2]) if t.op == "gamma" else [x for k in t.a for x in leaves(k)][:1] if t.op == "or" else [t]


def check(cx):
    for name, src in (("run in one process", RUN % 1), ("run in worker processes", RUN % 4), ("run with logarithmic picking", LOGS), ("trial moves", TRIAL % False), ("trial moves, logarithmic", TRIAL % True)):
        e = cx.drive(name, src, STUBS)
        if e is None:
            continue
        rngs = [x for x in e.events if x.kind == "rng"]
        for x in rngs:
            s = x.seed
            nd = nondet(s)
            if any(x is NONE for x in leaves(s)) and "seed" in syms(s):
                cx.bad("generators are created from the configured seed", f"{name}: this generator has no seed where {show(s, 4)[:120]} is None", x.pos)
            elif "seed" in syms(s) and not nd:
                cx.ok("generators are created from the configured seed", pos=x.pos)
            elif has_op(s, "unk", "loopval", "mu", "app") and not nd:
                cx.und("generators are created from the configured seed", f"{name}: seeded with {show(s, 4)[:120]}")
            else:
                cx.bad("generators are created from the configured seed", f"{name}: this generator is seeded with {show(s, 4)[:120]}", x.pos)
        for x in e.events:
            if x.kind == "globalrandom":
                cx.bad("no random numbers from a global generator", f"{name}: {x.fn}", x.pos)
        gens = 0
        for x in e.events:
            if x.kind == "h5write":
                nd = nondet(x.value) if isinstance(x.value, T) else []
                gens += 1
                cx.require("no other source of randomness in the results", not nd, f"{name}: {show(x.path, 4)} depends on {[show(y, 3)[:60] for y in nd[:2]]}", x.pos)
        for k, (v, raw, st) in e.obs.items():
            nd = nondet(v)
            cx.require("no other source of randomness in the results", not nd, f"{name}: {k} depends on {[show(y, 3)[:60] for y in nd[:2]]}", cx.position(e, v, None, raw))
        if not rngs:
            cx.und("generators are created from the configured seed", f"{name}: no generator seen")
    # anything else in the modules of the optimisation that gives random numbers
    e = cx.engines[0] if cx.engines else None
    if e is None:
        return
    bad = calls = 0
    for mod, (path, tree, src) in e.mods.items():
        if not mod.startswith("mcsas3") or mod.endswith(("mc_plot",)):
            continue
        names = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    names[(a.asname or a.name).split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    names[a.asname or a.name] = n.module + "." + a.name
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                calls += 1
                d = dotted(n.func, names)
                if d and (d.startswith(("random.", "secrets.", "uuid.")) or d == "os.urandom" or (d.startswith("numpy.random.") and d.split(".")[2] not in ("default_rng", "Generator", "PCG64", "SeedSequence", "RandomState", "MT19937", "Philox"))):
                    bad += 1
                    cx.bad("no random numbers from a global generator", f"call of {d}", (e.relpath(mod), n.lineno, mod))
    if not bad:
        cx.ok("no random numbers from a global generator")
    cx.scanned.append(f"{calls} calls in {len(e.mods)} modules for random sources other than a seeded generator")


def dotted(f, names):
    parts = []
    while isinstance(f, ast.Attribute):
        parts.append(f.attr)
        f = f.value
    if isinstance(f, ast.Name) and f.id in names:
        return ".".join([names[f.id]] + parts[::-1])
    return None
