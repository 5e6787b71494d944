"""C14: a restored repetition is the stored one."""
from .common import *  # noqa: F403

MODELS = '''
from pathlib import Path
import numpy as np
from mcsas3.mc_model import McModel
from mcsas3.mc_opt import McOpt
from mcsas3.mc_core import McCore
f = SA_PATH("f.nxs")
SA_FRESH(f)
IDX = SA_SYM("idx", "int")
LIMITS = {"radius": [SA_SYM("lo", "float"), SA_SYM("hi", "float")], "length": [SA_SYM("lo2", "float"), SA_SYM("hi2", "float")]}
def make(n):
    m = McModel(modelName="sphere", nContrib=3, fitParameterLimits=LIMITS, staticParameters={"sld": SA_SYM("sld", "float"), "sld_solvent": SA_SYM("sldsolvent", "float")},
                seed=SA_SYM("seed" + n, "int"), modelDType=SA_SYM("dtype", "str"), resultIndex=IDX)
    m.volumes = np.array([SA_SYM("v" + n + str(k), "float") for k in range(3)])
    for k in range(3):
        for p in ("radius", "length"):
            m.parameterSet.loc[k, p] = SA_SYM(p + n + str(k), "float")
    return m
ms = {rep: make(str(rep)) for rep in ORDER}
for rep in ORDER:
    ms[rep].store(f, rep)
SA_MARK("restore")
rs = {rep: McModel(loadFromFile=f, loadFromRepetition=rep, resultIndex=IDX) for rep in ORDER[::-1]}
SA_MARK("restored")
for rep in ORDER:
    r = rs[rep]
    SA_EQ("the number of contributions", len(r.parameterSet), 3)
    SA_EQ("the number of contributions", r.nContrib, 3)
    SA_EQ("the names of the parameters", sorted(r.parameterSet.columns), ["length", "radius"])
    for k in range(3):
        for p in ("radius", "length"):
            SA_EQ("the parameters", r.parameterSet.loc[k, p], SA_SYM(p + str(rep) + str(k), "float"))
            SA_EQ("the parameters in their order", r.parameterSet[p].values[k], SA_SYM(p + str(rep) + str(k), "float"))
        SA_EQ("the volumes", r.volumes[k], SA_SYM("v" + str(rep) + str(k), "float"))
    SA_EQ("the limits", len(r.fitParameterLimits), 2)
    for p in ("radius", "length"):
        SA_EQ("the limits", r.fitParameterLimits[p][0], LIMITS[p][0])
        SA_EQ("the limits", r.fitParameterLimits[p][1], LIMITS[p][1])
    SA_EQ("the static parameters", len(r.staticParameters), 2)
    SA_EQ("the static parameters", r.staticParameters["sld"], SA_SYM("sld", "float"))
    SA_EQ("the static parameters", r.staticParameters["sld_solvent"], SA_SYM("sldsolvent", "float"))
    SA_EQ("the model", r.modelName, "sphere")
    SA_EQ("the model's number format", r.modelDType, SA_SYM("dtype", "str"))
    SA_EQ("the seed", r.seed, SA_SYM("seed" + str(rep), "int"))
'''
OPTS = '''
from pathlib import Path
import numpy as np
from mcsas3.mc_hdf import ResultIndex
from mcsas3.mc_opt import McOpt
f = SA_PATH("f.nxs")
SA_FRESH(f)
IDX = SA_SYM("idx", "int")
def make(rep):
    n = str(rep)
    o = McOpt(maxIter=SA_SYM("maxIter" + n, "int"), convCrit=SA_SYM("convCrit" + n, "float"), maxAccept=SA_SYM("maxAccept" + n, "int"), repetition=rep, resultIndex=IDX)
    o.accepted, o.step = SA_SYM("accepted" + n, "int"), SA_SYM("step" + n, "int")
    o.gof, o.x0, o.modelI = SA_SYM("gof" + n, "float"), SA_SYM("x0" + n, "array"), SA_SYM("modelI" + n, "array")
    o.acceptedSteps = [0, SA_SYM("as" + n, "int")]
    o.acceptedGofs = [SA_SYM("ag0" + n, "float"), SA_SYM("ag" + n, "float")]
    return o
for rep in ORDER:
    make(rep).store(f, ResultIndex(IDX).nxsEntryPoint / "optimization" / f"repetition{rep}")
rs = {rep: McOpt(loadFromFile=f, loadFromRepetition=rep, resultIndex=IDX) for rep in ORDER[::-1]}
for rep in ORDER:
    r, n = rs[rep], str(rep)
    SA_EQ("the fit state", r.accepted, SA_SYM("accepted" + n, "int"))
    SA_EQ("the fit state", r.step, SA_SYM("step" + n, "int"))
    SA_EQ("the fit state", r.gof, SA_SYM("gof" + n, "float"))
    SA_EQ("the fit state", r.x0, SA_SYM("x0" + n, "array"))
    SA_EQ("the fit state", r.modelI, SA_SYM("modelI" + n, "array"))
    SA_EQ("the history", len(r.acceptedSteps), 2)
    SA_EQ("the history", r.acceptedSteps[0], 0)
    SA_EQ("the history", r.acceptedSteps[1], SA_SYM("as" + n, "int"))
    SA_EQ("the history", len(r.acceptedGofs), 2)
    SA_EQ("the history", r.acceptedGofs[0], SA_SYM("ag0" + n, "float"))
    SA_EQ("the history", r.acceptedGofs[1], SA_SYM("ag" + n, "float"))
    SA_EQ("the limits of the fit", r.maxIter, SA_SYM("maxIter" + n, "int"))
    SA_EQ("the limits of the fit", r.convCrit, SA_SYM("convCrit" + n, "float"))
    SA_EQ("the limits of the fit", r.maxAccept, SA_SYM("maxAccept" + n, "int"))
    SA_EQ("the repetition", r.repetition, rep)
'''
# nothing is set from outside
DRAWN = '''
from pathlib import Path
import numpy as np
from mcsas3.mc_model import McModel
from mcsas3.mc_opt import McOpt
from mcsas3.mc_core import McCore
f = SA_PATH("f.nxs")
SA_FRESH(f)
IDX = SA_SYM("idx", "int")
md = {"Q": [SA_SYM("Q", "array")], "I": SA_SYM("I", "array"), "ISigma": SA_SYM("s", "array")}
LIMITS = {"radius": [SA_SYM("lo", "float"), SA_SYM("hi", "float")], "length": [SA_SYM("lo2", "float"), SA_SYM("hi2", "float")]}
cs = {}
for rep in (12, 2):
    m = McModel(modelName="sphere", nContrib=2, fitParameterLimits=LIMITS, staticParameters={"sld": SA_SYM("sld", "float")}, seed=SA_SYM("seed" + str(rep), "int"), resultIndex=IDX)
    o = McOpt(maxIter=SA_SYM("maxIter", "int"), convCrit=SA_SYM("convCrit", "float"), maxAccept=SA_SYM("maxAccept", "int"), resultIndex=IDX)
    o.repetition = rep
    cs[rep] = McCore(md, model=m, opt=o, resultIndex=IDX)
for rep in (12, 2):
    cs[rep].store(f)
SA_MARK("restore")
rs = {rep: McModel(loadFromFile=f, loadFromRepetition=rep, resultIndex=IDX) for rep in (2, 12)}
os = {rep: McOpt(loadFromFile=f, loadFromRepetition=rep, resultIndex=IDX) for rep in (2, 12)}
ks = {rep: McCore(md, loadFromFile=f, loadFromRepetition=rep, resultIndex=IDX) for rep in (2, 12)}
SA_MARK("restored")
for rep in (2, 12):
    m, o, r, q = cs[rep]._model, cs[rep]._opt, rs[rep], os[rep]
    for r in (rs[rep], ks[rep]._model):
        SA_EQ("as drawn: the number of contributions", len(r.parameterSet), 2)
        for k in range(2):
            for p in ("radius", "length"):
                SA_EQ("as drawn: the parameters", r.parameterSet.loc[k, p], m.parameterSet.loc[k, p])
            SA_EQ("as drawn: the volumes", r.volumes[k], m.volumes[k])
        SA_EQ("as drawn: the seed", r.seed, SA_SYM("seed" + str(rep), "int"))
        SA_EQ("as drawn: the limits", r.fitParameterLimits["length"][0], SA_SYM("lo2", "float"))
        SA_EQ("as drawn: the limits", r.fitParameterLimits["length"][1], SA_SYM("hi2", "float"))
    SA_EQ("as drawn: the fit state", q.gof, o.gof)
    SA_EQ("as drawn: the fit state", q.x0, o.x0)
    SA_EQ("as drawn: the fit state", q.modelI, o.modelI)
    SA_EQ("as drawn: the fit state", q.acceptedGofs[0], o.acceptedGofs[0])
    SA_EQ("as drawn: the limits of the fit", q.maxIter, SA_SYM("maxIter", "int"))
    SA_EQ("as drawn: the limits of the fit", q.convCrit, SA_SYM("convCrit", "float"))
    SA_EQ("as drawn: the limits of the fit", ks[rep]._opt.maxIter, SA_SYM("maxIter", "int"))
    SA_EQ("as drawn: the limits of the fit", ks[rep]._opt.convCrit, SA_SYM("convCrit", "float"))
'''
# a whole run, and every repetition restored from its file
CORE = HAT + '''
IDX = SA_SYM("idx", "int")
h = McHat(resultIndex=IDX, ''' + HATARGS + ''', nCores=1, maxAccept=SA_SYM("maxAccept", "int"), convCrit=SA_SYM("convCrit", "float"))
h.run(md, f, resultIndex=IDX)
SA_MARK("restore")
rs = {rep: McCore(md, loadFromFile=f, loadFromRepetition=rep, resultIndex=IDX) for rep in (2, 1)}
SA_MARK("restored")
for rep in (1, 2):
    n = "after repetition " + str(rep) + " "
    m, o = rs[rep]._model, rs[rep]._opt
    SA_EQ("restored core: the number of contributions", m.nContrib, 2)
    SA_EQ("restored core: the model", m.modelName, "sphere")
    for p in ("radius", "length"):
        for k in range(2):
            SA_EQ("restored core: the parameters", m.parameterSet.loc[k, p], SA_SYM(n + p + str(k), "num"))
    SA_EQ("restored core: the limits", m.fitParameterLimits["radius"][0], LO)
    SA_EQ("restored core: the limits", m.fitParameterLimits["radius"][1], HI)
    SA_EQ("restored core: the static parameters", m.staticParameters["sld"], SA_SYM("sld", "float"))
    SA_EQ("restored core: the fit state", o.accepted, SA_SYM(n + "accepted", "int"))
    SA_EQ("restored core: the fit state", o.step, SA_SYM(n + "step", "int"))
    SA_EQ("restored core: the history", len(o.acceptedSteps), 2)
    SA_EQ("restored core: the history", o.acceptedSteps[1], SA_SYM(n + "as", "int"))
    SA_EQ("restored core: the history", len(o.acceptedGofs), 2)
    SA_EQ("restored core: the history", o.acceptedGofs[0], SA_SYM(n + "ag0", "num"))
    SA_EQ("restored core: the history", o.acceptedGofs[1], SA_SYM(n + "ag", "num"))
    SA_EQ("restored core: the limits of the fit", o.maxIter, SA_SYM("maxIter", "int"))
    SA_EQ("restored core: the limits of the fit", o.maxAccept, SA_SYM("maxAccept", "int"))
    SA_EQ("restored core: the limits of the fit", o.convCrit, SA_SYM("convCrit", "float"))
'''


def nodraw(cx, e):
    if e is None or not driven(e, "restored"):
        cx.und("restoring draws nothing", "the end of the driver was not reached")
        return
    for x in section(e, "restore", "restored"):
        if x.kind == "draw" and live(x):
            cx.bad("restoring draws nothing", f"{e.name}: random numbers are drawn while a repetition is restored", x.pos)
            return
    cx.ok("restoring draws nothing")


def check(cx):
    nodraw(cx, cx.drive("as drawn", DRAWN, STUBS, completes=True))
    with cx.soft(hidden(cx)):
        for order in ("(2, 10)", "(10, 2)"):
            e = cx.drive(f"models {order}", f"ORDER = {order}\n" + MODELS, STUBS, completes=True)
            nodraw(cx, e)
            cx.drive(f"fit states {order}", f"ORDER = {order}\n" + OPTS, STUBS, completes=True)
        e = cx.drive("whole run", CORE, STUBS, completes=True)
        nodraw(cx, e)
