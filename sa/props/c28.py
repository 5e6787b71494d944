"""C28: the analysis writes only on request, and then everything."""
from .c27 import RUN
from .common import STUBS, driven, readonly

NOSTORE = RUN.replace("a = McAn", 'SA_MARK("analysis")\na = McAn', 1).split("def after")[0] + 'SA_MARK("end")\n'
STORE = RUN.split("def after")[0].replace("store=False", "store=True") + '''
from pathlib import PurePosixPath
from mcsas3.mc_hdf import loadKV
root = PurePosixPath("/analyses/MCResultINDEX")
H = root / "histograms"
MODES = ("totalValue", "mean", "variance", "skew", "kurtosis")
own = [McModelHistogrammer(McCore(md, loadFromFile=f, loadFromRepetition=i, resultIndex=INDEX), hr.copy(), resultIndex=INDEX) for i in REPS]
for j in range(2):
    R = H / ("histRange" + str(j))
    for i, mh in zip(REPS, own):
        r = R / ("repetition" + str(i))
        SA_EQ("the histogram of every repetition and range is stored", loadKV(f, r / "hist"), mh._histDict[j])
        SA_EQ("the bin edges of every repetition and range are stored", loadKV(f, r / "binEdges"), mh._binEdges[j])
        for m in MODES:
            SA_EQ("the statistics of every repetition and range are stored", loadKV(f, r / m), mh._modes.loc[j, m])
    for k in ("parameter", "nBin", "binScale", "presetRangeMin", "presetRangeMax", "binWeighting", "autoRange"):
        dt = "str" if k in ("parameter", "binScale", "binWeighting") else None
        SA_EQ("the ranges are stored", loadKV(f, R / k, datatype=dt), hr.loc[j, k])
    for m in MODES:
        for w in ("valMean", "valStd"):
            SA_EQ("the averaged statistics of every range are stored", loadKV(f, R / "average" / m / w), a._averagedModes.loc[j, (m, w)])
    for k in ("xMean", "xWidth", "yMean", "yStd"):
        SA_EQ("the averaged histogram of every range is stored", loadKV(f, R / "average" / k), a._averagedHistograms[j][k].values)
for k in ("scaling", "background", "gof", "accepted", "step"):
    for w in ("valMean", "valStd"):
        SA_EQ("the averaged fit results are stored", loadKV(f, root / "optimization" / "average" / k / w), a.optParAvg.loc[k, w])
for w in ("modelIMean", "modelIStd"):
    SA_EQ("the averaged intensity is stored", loadKV(f, root / "optimization" / "average" / w), a.modelIAvg[w].values)
'''

# many ranges
MANY = '''
import pandas
from mcsas3.mc_analysis import McAnalysis
from mcsas3.mc_hdf import ResultIndex, loadKV
from pathlib import PurePosixPath
N = 12
class A(McAnalysis):
    optParAvg = pandas.DataFrame({w: {k: SA_SYM(k + w, "float") for k in ("gof", "step")} for w in ("valMean", "valStd")})
    modelIAvg = pandas.DataFrame({"modelIMean": [SA_SYM("m0", "float")], "modelIStd": [SA_SYM("m1", "float")]})
    def __init__(self):
        self.resultIndex = ResultIndex(1)
        self._averagedHistograms = {i: pandas.DataFrame({"yMean": [SA_SYM("y" + str(i), "float")], "yStd": [SA_SYM("s" + str(i), "float")]}) for i in range(N)}
        self._averagedModes = pandas.DataFrame({(m, w): [SA_SYM(m + w + str(i), "float") for i in range(N)] for m in ("totalValue", "mean", "variance", "skew", "kurtosis") for w in ("valMean", "valStd")})
a = A()
f = SA_PATH("f.nxs")
SA_FRESH(f)
a.store(f)
H = PurePosixPath("/analyses/MCResult1/histograms")
for i in range(N):
    SA_EQ("many ranges: the averaged histogram of every range is stored", loadKV(f, H / ("histRange" + str(i)) / "average" / "yMean")[0], SA_SYM("y" + str(i), "float"))
    SA_EQ("many ranges: the averaged statistics of every range are stored", loadKV(f, H / ("histRange" + str(i)) / "average" / "mean" / "valStd"), SA_SYM("meanvalStd" + str(i), "float"))
'''


def check(cx):
    cx.drive("many ranges", MANY)
    for reps, index in (((0, 2, 11), 1), ((10, 9), 2)):
        def fill(s):
            return s.replace("REPS", str(list(reps))).replace("INDEX", str(index))

        e = cx.drive(f"without storing, repetitions {reps}", fill(NOSTORE), STUBS)
        if e is None or not driven(e, "end"):
            cx.und("without the request nothing is written", "the analysis was not followed to its end")
        else:
            readonly(cx, e, "without the request nothing is written", "analysis", "end")
        cx.drive(f"with storing, repetitions {reps}", fill(STORE), STUBS, completes="driver")
