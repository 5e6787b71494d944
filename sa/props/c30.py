"""C30: the built-in sphere model computes the sphere form factor."""
from .common import *  # noqa: F403

HEAD = '''
import numpy as np
from mcsas3.mc_core import McCore
from mcsas3.mc_model import McModel, mcsasSphereModel
from mcsas3.mc_opt import McOpt
Q, Q2 = SA_SYM("Q", "array"), SA_SYM("Q2", "array")
R, R2, D, DS, D2, DS2 = [SA_SYM(n, "float") for n in ("radius", "radius2", "sld", "solvent", "sld2", "solvent2")]
LO, HI = SA_SYM("lo", "float"), SA_SYM("hi", "float")
def volume(r):
    return 4 / 3 * np.pi * r**3
def fsq(q, r, sld, solvent):
    x = q * r
    f = 3 * (np.sin(x) - x * np.cos(x)) / x**3
    return (volume(r) * (sld - solvent) / 100 * f) ** 2
def claims(got, q, r, sld, solvent):
    SA_POINTS("square of volume, contrast and amplitude", got[0], fsq(q, r, sld, solvent))
    SA_POINTS("volume of the sphere", got[1], volume(r))
def contribution(got, q, r, sld, solvent):
    SA_POINTS("intensity of one contribution", got[0], fsq(q, r, sld, solvent) / volume(r))
    SA_POINTS("volume of one contribution", got[1], volume(r))
'''
NEED = '''
for v in (R, R2):
    if not v > 0:
        raise SystemExit
'''
FUN = 'mcsasSphereModel({k})'
MODEL = 'McModel(modelName="mcsas_sphere", nContrib=2, fitParameterLimits={{"radius": [LO, HI]}}, staticParameters=dict({k}), seed=1)'
ONE = "sld=D, sld_solvent=DS"
TWO = "sld=D2, sld_solvent=DS2"
DIRECT = {
    "one model": "k = A.make_kernel(measQ=[Q])\nclaims(k(radius=R), Q, R, D, DS)\n",
    "several radii": "k = A.make_kernel(measQ=[Q])\nk(radius=R2)\nclaims(k(radius=R), Q, R, D, DS)\nclaims(k(radius=R2), Q, R2, D, DS)\n",
    "other Q": "k = A.make_kernel(measQ=[Q2])\nk(radius=R)\nk = A.make_kernel(measQ=[Q])\nclaims(k(radius=R), Q, R, D, DS)\n",
    "two models": "k, l = A.make_kernel(measQ=[Q]), B.make_kernel(measQ=[Q2])\nclaims(k(radius=R), Q, R, D, DS)\nclaims(l(radius=R2), Q2, R2, D2, DS2)\nclaims(k(radius=R2), Q, R2, D, DS)\n",
    "parameters with the static ones": "k = A.make_kernel(measQ=[Q])\nclaims(k(radius=R, sld=D, sld_solvent=DS), Q, R, D, DS)\n",
    "solvent left out": "C = mcsasSphereModel(sld=D)\nk = C.make_kernel(measQ=[Q])\nclaims(k(radius=R), Q, R, D, 0)\n",
    "another name for Q": "k = A.make_kernel([Q])\nclaims(k(**{'radius': R}), Q, R, D, DS)\n",
}
INMODEL = {
    "in a model": "m.kernel = m.func.make_kernel(measQ=[Q])\ncontribution(m.calcModelIV({'radius': R}), Q, R, D, DS)\n",
    "in two models": "n = " + MODEL.format(k=TWO) + "\nm.kernel = m.func.make_kernel(measQ=[Q])\nn.kernel = n.func.make_kernel(measQ=[Q2])\n"
    "contribution(m.calcModelIV({'radius': R}), Q, R, D, DS)\ncontribution(n.calcModelIV({'radius': R}), Q2, R, D2, DS2)\ncontribution(m.calcModelIV({'radius': R2}), Q, R2, D, DS)\n",
    "in an optimisation": "md = {'Q': [Q], 'I': SA_SYM('I', 'array'), 'ISigma': SA_SYM('s', 'array')}\nc = McCore(md, model=m, opt=McOpt())\ncontribution(m.calcModelIV({'radius': R}), Q, R, D, DS)\n",
    "in optimisations of other data": "md = {'Q': [Q2], 'I': SA_SYM('I2', 'array'), 'ISigma': SA_SYM('s2', 'array')}\nc = McCore(md, model=m, opt=McOpt())\n"
    "md = {'Q': [Q], 'I': SA_SYM('I', 'array'), 'ISigma': SA_SYM('s', 'array')}\nc = McCore(md, model=m, opt=McOpt())\ncontribution(m.calcModelIV({'radius': R}), Q, R, D, DS)\n",
}


def check(cx):
    head = HEAD.split("def contribution")[0] + NEED
    for name, src in DIRECT.items():
        cx.drive(name, head + f"A, B = {FUN.format(k=ONE)}, {FUN.format(k=TWO)}\n" + src, completes=True)
    head = HEAD.split("def claims")[0] + "def contribution" + HEAD.split("def contribution")[1] + NEED
    for name, src in INMODEL.items():
        cx.drive(name, head + f"m = {MODEL.format(k=ONE)}\n" + src, {MATCH: STUBS[MATCH]}, completes=True)


HOW = "the model is analysed for unknown Q, radius and scattering length densities; its values at any single Q are compared with the form factor of a sphere"
