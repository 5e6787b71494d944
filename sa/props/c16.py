"""C16: rebinning averages each datapoint in exactly one logarithmic bin."""
from .common import *  # noqa: F403

HEAD = '''
import numpy as np, pandas
from mcsas3.mc_data_1d import McData1D
A, B, C = SA_SYM("A", "array"), SA_SYM("B", "array"), SA_SYM("C", "array")
df = pandas.DataFrame({"Q": A, "I": B, "ISigma": C})
LO, HI, OLO, OHI, IE = [SA_SYM(n, "float") for n in ("lo", "hi", "olo", "ohi", "iemin")]
N = NBINS
'''
SPEC = '''
edges = np.geomspace(raw.Q.min(), raw.Q.max(), num=N + 1)
edges[-1] = edges[-1] + 1e-3 * (edges[-1] - edges[-2])
parts = [raw[(raw.Q >= edges[i]) & (raw.Q < edges[i + 1])] for i in range(N)]
def sigma(p):
    n = len(p)
    prop = np.sqrt((p.ISigma**2).sum()) / n
    return np.max([p.I.sem(ddof=1), prop, p.I.mean() * IE]) if n > 1 else np.max([prop, p.I.mean() * IE])
binned = d.binnedData
'''
ALL = '''
filled = [p for p in parts if len(p) > 0]
SA_EQ("empty bins are left out", len(binned), len(filled))
SA_EQ("the mean Q of a bin", binned["Q"].values, np.array([p.Q.mean() for p in filled]))
SA_EQ("the mean intensity of a bin", binned["I"].values, np.array([p.I.mean() for p in filled]))
SA_EQ("the uncertainty of a bin", binned["ISigma"].values, np.array([sigma(p) for p in filled]))
'''
FILLED = '''
SA_GIVEN(len(raw) > 0, *[len(p) > 0 for p in parts])
SA_EQ("every bin with datapoints remains", len(binned), N)
SA_GIVEN(len(raw) > 0, *[len(p) > 0 for p in parts])
for i, p in enumerate(parts):
    SA_EQ("the mean Q of a bin", binned["Q"].values[i], p.Q.mean())
    SA_EQ("the mean intensity of a bin", binned["I"].values[i], p.I.mean())
    SA_EQ("the uncertainty of a bin", binned["ISigma"].values[i], sigma(p))
'''
WAYS = {
    "range": ("d = McData1D(df=df, nbins=N, dataRange=[LO, HI], IEmin=IE)\n", "raw = df[(df.Q >= LO) & (df.Q < HI)].dropna()\n"),
    "loaded later": ("d = McData1D(nbins=N, IEmin=IE)\nd.from_pandas(df)\n", "raw = df[(df.Q >= -np.inf) & (df.Q < np.inf)].dropna()\n"),
    "omitted range": (
        "d = McData1D(df=df, nbins=N, omitQRanges=[[OLO, OHI]], IEmin=IE)\n",
        "raw = df[(df.Q >= -np.inf) & (df.Q < np.inf)].dropna()\nraw = raw[~((raw.Q >= OLO) & (raw.Q < OHI))]\n",
    ),
    "settings changed": (
        "d = McData1D(df=df, nbins=7 - N, dataRange=[LO, HI], IEmin=0.02)\nd.nbins = N\nd.IEmin = IE\nd.prepare()\n",
        "raw = df[(df.Q >= LO) & (df.Q < HI)].dropna()\n",
    ),
    "given to the function": (
        "d = McData1D(df=df, nbins=7 - N, dataRange=[LO, HI], IEmin=0.02)\nd.reBin(nbins=N, IEmin=IE)\n",
        "raw = df[(df.Q >= LO) & (df.Q < HI)].dropna()\n",
    ),
}


def check(cx):
    for name, (way, limited) in WAYS.items():
        for n in (1, 2):
            cx.drive(f"{name}, {n} bins", HEAD.replace("NBINS", str(n)) + way + limited + SPEC + ALL, STUBS, completes=True)
        for n in (3, 4, 6) if cx.tier != "quick" else ((3,) if name != "range" else (3, 4)):
            if n == 6 and name != "range":
                continue
            cx.drive(f"{name}, {n} bins", HEAD.replace("NBINS", str(n)) + way + limited + SPEC + FILLED, STUBS, completes=True)
