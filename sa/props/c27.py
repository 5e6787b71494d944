"""C27: averages are taken over exactly the stored repetitions."""
from .common import HAT, HATARGS, STUBS

RUN = HAT + f'''
import pandas, numpy as np
from mcsas3.mc_analysis import McAnalysis
from mcsas3.mc_core import McCore
from mcsas3.mc_model_histogrammer import McModelHistogrammer
P0, P1 = SA_SYM("p0", "float"), SA_SYM("p1", "float")
h = McHat({HATARGS}, nCores=1, resultIndex=INDEX)
''' + '''
h.fillFitParameterLimits(md)
for i in REPS:
    h.runOnce(md, f, i, resultIndex=INDEX)
hr = pandas.DataFrame([
    dict(parameter="radius", nBin=3, binScale="log", presetRangeMin=P0, presetRangeMax=P1, binWeighting="vol", autoRange=False),
    dict(parameter="length", nBin=2, binScale="linear", presetRangeMin=P0, presetRangeMax=P1, binWeighting="vol", autoRange=True)])
a = McAnalysis(f, md, hr, store=False, resultIndex=INDEX)
def after(i, what, kind):
    return SA_SYM("after repetition " + str(i) + " " + what, kind)
own = [McCore(md, loadFromFile=f, loadFromRepetition=i, resultIndex=INDEX) for i in REPS]
n = len(REPS)
def mean(vs):
    return sum(vs) / n
def std(vs, ddof):
    m = mean(vs)
    return np.sqrt(sum([(v - m) ** 2 for v in vs]) / (n - ddof))
'''
OPT = '''
opt = {"scaling": [c._opt.x0[0] for c in own], "background": [c._opt.x0[1] for c in own], "gof": [c._opt.gof for c in own],
       "accepted": [after(i, "accepted", "int") for i in REPS], "step": [after(i, "step", "int") for i in REPS]}
for k, vs in opt.items():
    SA_EQ("the mean of a fit result is over all repetitions", a.optParAvg.loc[k, "valMean"], mean(vs))
    SA_EQ("the deviation of a fit result is over all repetitions", a.optParAvg.loc[k, "valStd"], std(vs, 1))
Is = [c._opt.modelI * c._opt.x0[0] + c._opt.x0[1] for c in own]
SA_EQ("the mean intensity scales each repetition by its own scaling and background", a.modelIAvg["modelIMean"].values, mean(Is))
SA_EQ("the deviation of the intensity is over all repetitions", a.modelIAvg["modelIStd"].values, std(Is, 0))
'''
HIST = '''
for j, (p, lo, hi) in enumerate([("radius", P0, P1), ("length", SA_SYM("lo2", "float"), SA_SYM("hi2", "float"))]):
    edges = np.geomspace(lo, hi, 4) if j == 0 else np.linspace(lo, hi, 3)
    hs = []
    for i, c in zip(REPS, own):
        x, _ = np.histogram(pandas.Series([after(i, p + str(k), "num") for k in range(2)]), bins=edges)
        hs.append(x * c._opt.x0[0] * 1e-5)
    aH = a._averagedHistograms[j]
    SA_EQ("the mean histogram is over all repetitions", aH["yMean"].values, mean(hs))
    SA_EQ("the deviation of the histogram is over all repetitions", aH["yStd"].values, std(hs, 1))
    SA_EQ("the bin widths are those of the bin edges", aH["xWidth"].values, edges[1:] - edges[:-1])
    SA_EQ("the bin positions are the centres of the bins", aH["xMean"].values, (edges[1:] + edges[:-1]) / 2)
'''
MODES = '''
SA_GIVEN(*[c for i in REPS for k in range(2) for c in (P0 <= after(i, "radius" + str(k), "num"), after(i, "radius" + str(k), "num") <= P1,
         SA_SYM("lo2", "float") <= after(i, "length" + str(k), "num"), after(i, "length" + str(k), "num") <= SA_SYM("hi2", "float"))])
own = [McModelHistogrammer(c, hr.copy(), resultIndex=INDEX) for c in own]
for j in range(2):
    for m in ("totalValue", "mean", "variance", "skew", "kurtosis"):
        vs = [x._modes.loc[j, m] for x in own]
        SA_EQ("the mean of a population statistic is over all repetitions", a._averagedModes.loc[j, (m, "valMean")], mean(vs))
        SA_EQ("the deviation of a population statistic is over all repetitions", a._averagedModes.loc[j, (m, "valStd")], std(vs, 1))
'''


def check(cx):
    for reps, index in (((0, 2, 11), 1), ((10, 9), 2)):
        for part in (OPT, HIST, MODES):
            cx.drive(f"repetitions {reps}", RUN.replace("REPS", str(list(reps))).replace("INDEX", str(index)) + part.replace("REPS", str(list(reps))).replace("INDEX", str(index)), STUBS, completes="driver")
