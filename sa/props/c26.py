"""C26: histograms and population statistics describe the same contributions."""
from .c25 import CORE, STUBS

WANT = '''
hr = pandas.DataFrame([dict(parameter="{name}", nBin=N, binScale="{scale}", presetRangeMin=P0, presetRangeMax=P1, binWeighting="vol", autoRange={auto})])
mh = McModelHistogrammer(c, hr)
w = pandas.Series([SA_SYM("{name}"[0] + str(k), "float") for k in range(3)])
lo, hi = ({lim} if {auto} else (P0, P1))
S = SA_SYM("x0", "array")[0]
h, _ = np.histogram(w, bins=mh._binEdges[0])
SA_EQ("a histogram counts the values of its own parameter, in absolute units", mh._histDict[0], h * S * 1e-5)
x = w[w.between(lo, hi)].values
n = x.size
none = n == 0
mu = x.sum() / n
var = ((x - mu) ** 2).sum() / n
SA_CASES(lo <= w[0], w[0] <= hi, lo <= w[1], w[1] <= hi, lo <= w[2], w[2] <= hi)
for name, want in (("totalValue", n * 1e-5 * S), ("mean", mu), ("variance", var),
                   ("skew", ((x - mu) ** 3).sum() / n / np.sqrt(abs(var)) ** 3), ("kurtosis", ((x - mu) ** 4).sum() / n / np.sqrt(abs(var)) ** 4)):
    got = mh._modes.loc[0, name]
    SA_EQ("the " + name + " is that of the contributions in range", got, np.nan if none else want)
'''


def check(cx):
    for name, lim in (("length", "(LO2, HI2)"), ("radius", "(LO, HI)")):
        for auto in ("True", "False"):
            scale = "log" if auto == "True" else "linear"
            d = WANT.replace("{name}", name).replace("{lim}", lim).replace("{auto}", auto).replace("{scale}", scale)
            cx.drive(f"statistics of {name}, automatic range {auto}", CORE + d, STUBS, completes="driver")
