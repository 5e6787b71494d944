"""C25: histogram bins cover the requested range."""
from .common import MODEL, SETUP, STUBS

CORE = SETUP + MODEL + '''
import pandas, numpy as np
from mcsas3.mc_model_histogrammer import McModelHistogrammer
for k in range(3):
    c._model.parameterSet.loc[k] = {"radius": SA_SYM("r" + str(k), "float"), "length": SA_SYM("l" + str(k), "float")}
    c._model.volumes[k] = SA_SYM("v" + str(k), "num")
c._opt.x0 = SA_SYM("x0", "array")
P0, P1, P2, P3 = [SA_SYM("p" + str(i), "float") for i in range(4)]
N, M = SA_SYM("n", "int"), SA_SYM("m", "int")
'''
RANGES = '''
hr = pandas.DataFrame([
    dict(parameter="length", nBin=N, binScale="{0}", presetRangeMin=P0, presetRangeMax=P1, binWeighting="vol", autoRange=False),
    dict(parameter="length", nBin=M, binScale="{1}", presetRangeMin=P2, presetRangeMax=P3, binWeighting="vol", autoRange=True),
    dict(parameter="radius", nBin=N, binScale="{1}", presetRangeMin=P2, presetRangeMax=P3, binWeighting="vol", autoRange=False),
    dict(parameter="radius", nBin=M, binScale="{0}", presetRangeMin=P0, presetRangeMax=P1, binWeighting="vol", autoRange=True)])
mh = McModelHistogrammer(c, hr)
'''
EDGES = '''
def edges(scale, lo, hi, n):
    return np.linspace(lo, hi, n + 1) if scale == "linear" else np.geomspace(lo, hi, n + 1)
for i, (scale, lo, hi, n) in enumerate([("{0}", P0, P1, N), ("{1}", LO2, HI2, M), ("{1}", P2, P3, N), ("{0}", LO, HI, M)]):
    what = ("a given range", "an automatic range")[i % 2]
    SA_EQ(scale + " bin edges of " + what, mh._binEdges[i], edges(scale, lo, hi, n))
    SA_EQ("lower end of " + what, mh._histRanges.loc[i, "rangeMin"], lo)
    SA_EQ("upper end of " + what, mh._histRanges.loc[i, "rangeMax"], hi)
SA_EQ("one set of bins per range", len(mh._binEdges), 4)
'''

AUTO = '''
hr = pandas.DataFrame([
    dict(parameter="length", nBin=N, binScale="auto", presetRangeMin=P0, presetRangeMax=P1, binWeighting="vol", autoRange=False),
    dict(parameter="radius", nBin=M, binScale="auto", presetRangeMin=P2, presetRangeMax=P3, binWeighting="vol", autoRange=True)])
mh = McModelHistogrammer(c, hr)
SA_EQ("first edge of bins as the data asks for", mh._binEdges[0][0], P0)
SA_EQ("last edge of bins as the data asks for", mh._binEdges[0][-1], P1)
SA_EQ("first edge of bins as the data asks for, automatic range", mh._binEdges[1][0], LO)
SA_EQ("last edge of bins as the data asks for, automatic range", mh._binEdges[1][-1], HI)
SA_EQ("lower end of a given range", mh._histRanges.loc[0, "rangeMin"], P0)
SA_EQ("upper end of a given range", mh._histRanges.loc[0, "rangeMax"], P1)
'''


def check(cx):
    cx.drive("bins auto", CORE + AUTO, STUBS, completes="driver")
    for a, b in (("linear", "log"), ("log", "linear")):
        cx.drive(f"bins {a}, {b}", CORE + (RANGES + EDGES).replace("{0}", a).replace("{1}", b), STUBS, completes="driver")
