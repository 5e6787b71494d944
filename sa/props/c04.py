"""C04: the model intensity is the sum over all contributions."""
from .common import CALC, MATCH, MODEL, SETUP, STUBS

SUM = SETUP + '''
def total(m, n):
    t = 0
    for k in range(n):
        t = t + m.calcModelIV(m.parameterSet.loc[k].to_dict())[0]
    return t
''' + MODEL + '''
SA_EQ("initial intensity is the sum over the contributions", c._opt.modelI, total(c._model, 3))
for k in range(3):
    SA_EQ("volume under its own number", c._model.volumes[k], c._model.calcModelIV(c._model.parameterSet.loc[k].to_dict())[1])
for k in range(3):
    c._model.parameterSet.loc[k] = {"radius": SA_SYM("r" + str(k), "num"), "length": SA_SYM("l" + str(k), "num")}
c._opt.modelI = SA_SYM("junk", "array")
c.initModelI()
e = 0
for k in range(3):
    p = {"radius": SA_SYM("r" + str(k), "num"), "length": SA_SYM("l" + str(k), "num")}
    e = e + c._model.calcModelIV(p)[0]
    SA_EQ("volume under its own number", c._model.volumes[k], c._model.calcModelIV(p)[1])
SA_EQ("initial intensity is the sum over the contributions", c._opt.modelI, e)
'''

RESTORED = SETUP + MODEL + '''
f = SA_PATH("f.nxs")
SA_FRESH(f)
for k in range(3):
    c._model.parameterSet.loc[k] = {"radius": SA_SYM("r" + str(k), "num"), "length": SA_SYM("l" + str(k), "num")}
c.store(f)
d = McCore(md, loadFromFile=f, loadFromRepetition=2)
e = 0
for k in range(3):
    e = e + d._model.calcModelIV({"radius": SA_SYM("r" + str(k), "num"), "length": SA_SYM("l" + str(k), "num")})[0]
SA_EQ("restored intensity is the sum over the contributions", d._opt.modelI, e)
'''

ONE = SETUP + '''
import sasmodels.direct_model, sasmodels.product, sasmodels.mixture
''' + MODEL + '''
P = {"radius": SA_SYM("r", "num"), "length": SA_SYM("l", "num")}
full = {"sld": SA_SYM("sld", "float"), "radius": SA_SYM("r", "num"), "length": SA_SYM("l", "num")}
I, V = c._model.calcModelIV(P)
K = c._model.kernel
if isinstance(K, (sasmodels.product.ProductKernel, sasmodels.mixture.MixtureKernel)):
    SA_EQ("intensity of one contribution (product and mixture models)", I, sasmodels.direct_model.call_kernel(K, full))
    SA_EQ("volume of one contribution (product and mixture models)", V, K.results()["volume"])
else:
    F, Fsq, R, VS, VR = sasmodels.direct_model.call_Fq(K, full)
    SA_EQ("intensity of one contribution", I, Fsq / VS)
    SA_EQ("volume of one contribution", V, VS)
'''

# with a kernel that is any function of its parameters
ANY = SETUP + '''
model = McModel(modelName="mcsas_sphere", nContrib=2, fitParameterLimits={"radius": [LO, HI], "length": [LO2, HI2]},
                staticParameters={"sld": SA_SYM("sld", "float"), "sld_solvent": ZERO}, seed=SA_SYM("seed", "int"))
def val(w, p):
    return SA_FUN(w, p["radius"], p["length"], p["sld"], p["sld_solvent"], len(p))
model.kernel = lambda **p: (val("F", p), val("V", p))
for k in range(2):
    p = {"radius": SA_SYM("r" + str(k), "num"), "length": SA_SYM("l" + str(k), "num")}
    I, V = model.calcModelIV(p)
    full = {"radius": SA_SYM("r" + str(k), "num"), "length": SA_SYM("l" + str(k), "num"), "sld": SA_SYM("sld", "float"), "sld_solvent": ZERO}
    SA_EQ("intensity of one contribution, any kernel", I, val("F", full) / val("V", full))
    SA_EQ("volume of one contribution, any kernel", V, val("V", full))
'''


def check(cx):
    for zero in ("0.0", "0", '-1.5', 'SA_SYM("sl", "float")'):
        cx.drive(f"any kernel, a static parameter of {zero}", ANY.replace("ZERO", zero), {MATCH: STUBS[MATCH]}, completes="driver")
    cx.drive("sum", SUM, STUBS)
    cx.drive("restored", RESTORED, STUBS)
    cx.drive("one contribution", ONE, {MATCH: STUBS[MATCH]})
