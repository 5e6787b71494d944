"""Pieces of drivers that several properties share."""

from ..terms import *  # noqa: F403
from ..terms import mk

SETUP = '''
from mcsas3.mc_core import McCore
from mcsas3.mc_model import McModel
from mcsas3.mc_opt import McOpt
md = {"Q": [SA_SYM("Q", "array")], "I": SA_SYM("I", "array"), "ISigma": SA_SYM("s", "array")}
LO, HI, LO2, HI2 = SA_SYM("lo", "float"), SA_SYM("hi", "float"), SA_SYM("lo2", "float"), SA_SYM("hi2", "float")
'''

MODEL = '''
model = McModel(modelName="sphere", nContrib=3, fitParameterLimits={"radius": [LO, HI], "length": [LO2, HI2]},
                staticParameters={"sld": SA_SYM("sld", "float")}, seed=SA_SYM("seed", "int"))
opt = McOpt(maxIter=SA_SYM("maxIter", "int"), convCrit=SA_SYM("convCrit", "float"), maxAccept=SA_SYM("maxAccept", "int"), repetition=2)
c = McCore(md, model=model, opt=opt)
'''


def todict(e, t):
    """the value of a mapping: a dictionary"""
    v = e.val(t)
    if v.op == "serc":
        ks = v.a[0].a if v.a[0].op in ("tup", "list", "tuple") else None
        if ks is not None and len(ks) == len(v.a) - 1:
            return mk("dict", *[z for i, k in enumerate(ks) for z in (k, v.a[1 + i])])
    if v.op == "dict" and all(cstr(k) for k in v.a[::2]):
        o = sorted(range(len(v.a) // 2), key=lambda i: cval(v.a[2 * i]))
        return mk("dict", *[z for i in o for z in (v.a[2 * i], v.a[2 * i + 1])])
    return v


def stub_calc(e, info, args, kw, node):
    p = args[1] if len(args) > 1 else next(iter(kw.values()), None)
    if p is None:
        return None
    d = todict(e, p)
    return mk("tuple", e.box(e.note(mk("call", "SA_calcI", d))), e.note(mk("call", "SA_calcV", d)))


def stub_match(e, info, args, kw, node):
    names = [a.arg for a in info.node.args.args]
    vals = dict(zip(names, args))
    vals.update(kw)
    m = vals.get("modelI", args[1] if len(args) > 1 else None)
    x0 = vals.get("x0", NONE)
    if m is None:
        return None
    m, x0 = e.val(m), e.val(x0)
    return mk("tuple", e.box(e.note(mk("call", "SA_matchx", m, x0))), e.note(mk("call", "SA_matchg", m, x0)))


CALC = "mcsas3.mc_model.McModel.calcModelIV"
MATCH = "mcsas3.osb.optimizeScalingAndBackground.match"
STUBS = {CALC: stub_calc, MATCH: stub_match}

# the optimisation loop, replaced by "any outcome": every value that it may change is unknown afterwards
ANYOUTCOME = '''
from mcsas3.mc_core import McCore
def anyoutcome(self):
    n = "after repetition " + str(self._opt.repetition) + " "
    SA_MARK("optimize")
    b = "start of repetition " + str(self._opt.repetition) + ": "
    SA_OBS(b + "scaling and background", self._opt.x0)
    SA_OBS(b + "goodness of fit", self._opt.gof)
    SA_OBS(b + "intensity", self._opt.modelI)
    SA_OBS(b + "steps", self._opt.step)
    SA_OBS(b + "accepted moves", self._opt.accepted)
    SA_OBS(b + "accepted steps", self._opt.acceptedSteps)
    SA_OBS(b + "accepted goodness of fit", self._opt.acceptedGofs)
    SA_OBS(b + "volumes", self._model.volumes)
    for k in range(2):
        for p in self._model.fitParameterLimits:
            SA_OBS(b + p + " of contribution " + str(k), self._model.parameterSet.loc[k, p])
    self._opt.gof = SA_SYM(n + "gof", "num")
    self._opt.x0 = SA_SYM(n + "x0", "array")
    self._opt.accepted = SA_SYM(n + "accepted", "int")
    self._opt.step = SA_SYM(n + "step", "int")
    self._opt.modelI = SA_SYM(n + "modelI", "array")
    self._opt.acceptedSteps = [0, SA_SYM(n + "as", "int")]
    self._opt.acceptedGofs = [SA_SYM(n + "ag0", "num"), SA_SYM(n + "ag", "num")]
    for k in range(self._model.nContrib):
        self._model.volumes[k] = SA_SYM(n + "v" + str(k), "num")
        self._model.parameterSet.loc[k] = {p: SA_SYM(n + p + str(k), "num") for p in self._model.fitParameterLimits}
McCore.optimize = anyoutcome
'''
HATARGS = 'modelName="sphere", nContrib=2, fitParameterLimits={"radius": [LO, HI], "length": [SA_SYM("lo2", "float"), SA_SYM("hi2", "float")]}, staticParameters={"sld": SA_SYM("sld", "float")}, seed=SA_SYM("seed", "int"), maxIter=SA_SYM("maxIter", "int"), nRep=3'
HAT = ANYOUTCOME + '''
from mcsas3.mc_hat import McHat
md = {"Q": [SA_SYM("Q", "array")], "I": SA_SYM("I", "array"), "ISigma": SA_SYM("s", "array")}
LO, HI = SA_SYM("lo", "float"), SA_SYM("hi", "float")
f = SA_PATH("f.nxs")
SA_FRESH(f)
'''


def section(e, start, end=None):
    """the events between two marks"""
    out, on = [], start is None
    for x in e.events:
        if x.kind == "mark":
            on = on or x.name == start
            if end is not None and x.name == end:
                return out
        elif on:
            out.append(x)
    return out


def live(x):
    """can this event happen at all?"""
    from ..decide import feasible, guardpaths

    return any(feasible(p) for p in guardpaths(x.guard)[0])


WRITING = {"h5write", "h5delete", "h5attrwrite"}


def readonly(cx, e, rule, start=None, end=None, name=None):
    """nothing in this section changes a file"""
    n = 0
    for x in section(e, start, end):
        if x.kind == "h5open":
            n += 1
            m = x.mode
            if m.op == "const":
                cx.require(rule, cval(m) == "r" or not live(x), f"{name or e.name}: {show(x.file, 3)[:60]} is opened with mode {cval(m)!r}", x.pos)
            else:
                cx.und(rule, f"{name or e.name}: mode {show(m, 3)[:80]}", x.pos)
        elif x.kind in WRITING and live(x):
            n += 1
            cx.bad(rule, f"{name or e.name}: {x.kind[2:]} of {show(x.path, 4)[:120]} in {show(x.file, 3)[:60]}", x.pos)
        elif x.kind == "unlink" and live(x):
            cx.bad(rule, f"{name or e.name}: {show(x.path, 4)[:100]} is deleted", x.pos)
    if not n:
        cx.und(rule, f"{name or e.name}: no access to a file was seen")


def driven(e, end):
    """was the mark reached?"""
    return any(x.kind == "mark" and x.name == end for x in e.events)


def modules(cx):
    """(path, module name, syntax tree) of every module of the package"""
    import ast
    import os

    for root, dirs, files in os.walk(os.path.join(cx.srcdir, "mcsas3")):
        dirs.sort()
        for fn in sorted(files):
            if fn.endswith(".py"):
                p = os.path.join(root, fn)
                try:
                    tree = ast.parse(open(p).read())
                except SyntaxError:
                    continue
                yield os.path.relpath(p, cx.repo), fn[:-3], tree


def imports(tree):
    """what the imported names of a module stand for"""
    import ast

    names = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                names[(a.asname or a.name).split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                names[a.asname or a.name] = n.module + "." + a.name
    return names


STATE = set("""
    ISpolator Ipolator _OSB _measData _model _opt _outputFilename accepted acceptedGofs acceptedSteps columns convCrit defaults
    extrapScaling extrapY0 fitParameterLimits func gof info kernel logRandoms maxAccept maxIter measDataI measDataISigma measQ
    modelDType modelI modelName nContrib parameterSet parameters pickIndex pickParameters radius randomGenerators repetition
    resultIndex seed simDataI simDataISigma simDataQ0 simDataQ1 sld sld_solvent staticParameters step testModelI testModelV testX0
    volumes weighting x0 xBounds""".split())


def hidden(cx):
    """further state of the optimisation, which a driver that sets the known state does not set"""
    import ast

    names = set()
    for path, mod, tree in modules(cx):
        if mod not in ("mc_core", "mc_opt", "mc_model", "osb"):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                names.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                names.add(n.args[1].value)
            elif isinstance(n, ast.Global):
                names.update(n.names)
    more = names - STATE
    return f"the state has further parts ({', '.join(sorted(map(str, more)))}), which this driver does not set" if more else None
