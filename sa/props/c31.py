"""C31: the simulated-data model rescales its data consistently."""
from .common import *  # noqa: F403

HEAD = '''
import numpy as np
from mcsas3.mc_core import McCore
from mcsas3.mc_model import McModel, McSimPseudoModel
from mcsas3.mc_opt import McOpt
Q, Q2 = SA_SYM("Q", "array"), SA_SYM("Q2", "array")
LO, HI, F, F2 = [SA_SYM(n, "float") for n in ("lo", "hi", "factor", "factor2")]
def sim(n):
    return dict(simDataQ0=SA_SYM("q" + n, "array"), simDataQ1=None, simDataI=SA_SYM("i" + n, "array"), simDataISigma=SA_SYM("is" + n, "array"),
                extrapY0=SA_SYM("background" + n, "float"), extrapScaling=SA_SYM("scaling" + n, "float"))
S, T = sim("1"), sim("2")
def value(q, s):
    x, y = s["simDataQ0"], s["simDataI"]
    return np.where(q < x.min(), y[0], np.where(q > x.max(), s["extrapY0"] + s["extrapScaling"] * q**-4, SA_FUN("interp_linear", x, y, q)))
def claims(got, q, f, s):
    SA_POINTS("intensity at the scaled Q", got[0], value(q * f, s) * f**6)
    SA_POINTS("volume of the size factor", got[1], f**3)
def contribution(got, q, f, s):
    SA_POINTS("intensity of one contribution", got[0], value(q * f, s) * f**3)
    SA_POINTS("volume of one contribution", got[1], f**3)
'''
NEED = '''
for v in (F, F2):
    if not v > 0:
        raise SystemExit
'''
MODEL = 'McModel(modelName="sim", nContrib=2, fitParameterLimits={{"factor": [LO, HI]}}, staticParameters=dict({k}), seed=1)'
DIRECT = {
    "one model": "k = A.make_kernel(measQ=[Q])\nclaims(k(factor=F), Q, F, S)\n",
    "several factors": "k = A.make_kernel(measQ=[Q])\nk(factor=F2)\nclaims(k(factor=F), Q, F, S)\nclaims(k(factor=F2), Q, F2, S)\n",
    "other Q": "k = A.make_kernel(measQ=[Q2])\nk(factor=F)\nk = A.make_kernel(measQ=[Q])\nclaims(k(factor=F), Q, F, S)\n",
    "two models": "k, l = A.make_kernel(measQ=[Q]), B.make_kernel(measQ=[Q2])\nclaims(k(factor=F), Q, F, S)\nclaims(l(factor=F2), Q2, F2, T)\nclaims(k(factor=F2), Q, F2, S)\n",
    "parameters with the static ones": "k = A.make_kernel([Q])\nclaims(k(factor=F, **S), Q, F, S)\n",
}
INMODEL = {
    "in a model": "m.kernel = m.func.make_kernel(measQ=[Q])\ncontribution(m.calcModelIV({'factor': F}), Q, F, S)\n",
    "in two models": "n = " + MODEL.format(k="T") + "\nm.kernel = m.func.make_kernel(measQ=[Q])\nn.kernel = n.func.make_kernel(measQ=[Q2])\n"
    "contribution(m.calcModelIV({'factor': F}), Q, F, S)\ncontribution(n.calcModelIV({'factor': F}), Q2, F, T)\ncontribution(m.calcModelIV({'factor': F2}), Q, F2, S)\n",
    "in an optimisation": "md = {'Q': [Q], 'I': SA_SYM('I', 'array'), 'ISigma': SA_SYM('s', 'array')}\nc = McCore(md, model=m, opt=McOpt())\ncontribution(m.calcModelIV({'factor': F}), Q, F, S)\n",
    "without a second Q": "S.pop('simDataQ1')\nm = " + MODEL.format(k="S") + "\nm.kernel = m.func.make_kernel(measQ=[Q])\ncontribution(m.calcModelIV({'factor': F}), Q, F, S)\n",
}


def check(cx):
    head = HEAD.split("def contribution")[0] + NEED
    for name, src in DIRECT.items():
        cx.drive(name, head + "A, B = McSimPseudoModel(**S), McSimPseudoModel(**T)\n" + src, completes=True)
    head = HEAD.split("def claims")[0] + "def contribution" + HEAD.split("def contribution")[1] + NEED
    for name, src in INMODEL.items():
        cx.drive(name, head + f"m = {MODEL.format(k='S')}\n" + src, {MATCH: STUBS[MATCH]}, completes=True)


HOW = "the model is analysed for unknown simulated data, Q and size factors; its values at any single Q are compared with the rescaled and continued data"
