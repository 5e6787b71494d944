"""C15: one-dimensional data is limited to the requested range, before anything else uses it."""
from .common import *  # noqa: F403

HEAD = '''
from pathlib import Path
import numpy as np, pandas
from mcsas3.mc_data_1d import McData1D
A, B, C = SA_SYM("A", "array"), SA_SYM("B", "array"), SA_SYM("C", "array")
df = pandas.DataFrame({"Q": A, "I": B, "ISigma": C})
LO, HI, OLO, OHI, OLO2, OHI2 = [SA_SYM(n, "float") for n in ("lo", "hi", "olo", "ohi", "olo2", "ohi2")]
import h5py
X = SA_PATH("x.nxs")
SA_FRESH(X)
with h5py.File(X, "w") as h:
    h["/e/q"] = A
    h["/e/i"] = B
    h["/e/s"] = C
    h["/"].attrs["default"] = "e"
    h["/e"].attrs["signal"] = "i"
    h["/e"].attrs["i_uncertainty"] = "s"
    h["/e"].attrs["axes"] = "q"
for ending in ("csv", "pdh", "dat"):
    SA_TABLE(SA_PATH("x." + ending), lambda **k: df)
def rebin(self, *a, **k):
    self.binnedData = pandas.DataFrame({n: SA_FUN("binned" + n, self.clippedData["Q"].values, self.clippedData["I"].values, self.clippedData["ISigma"].values, self.nbins, self.IEmin) for n in ("Q", "I", "ISigma")})
McData1D.reBin = rebin
def wanted(raw, lo, hi, omitted):
    x = raw[(raw.Q >= lo) & (raw.Q < hi)].dropna()
    for a, b in omitted:
        x = x[~((x.Q >= a) & (x.Q < b))]
    return x
def claims(d, raw, lo, hi, omitted):
    w = wanted(raw, lo, hi, omitted)
    for n in ("Q", "I", "ISigma"):
        SA_EQ("the datapoints that remain", d.clippedData[n].values, w[n].values)
CLAIMS
'''
LIMITED = '''    for n in ("Q", "I", "ISigma"):
        SA_EQ("without rebinning, the datapoints that remain", d.binnedData[n].values, w[n].values)
'''
BINNED = '''    for n in ("Q", "I", "ISigma"):
        SA_EQ("rebinning uses the datapoints that remain", d.binnedData[n].values, SA_FUN("binned" + n, w["Q"].values, w["I"].values, w["ISigma"].values, d.nbins, d.IEmin))
'''


def head(nb):
    return HEAD.replace("CLAIMS\n", BINNED if int(nb) else LIMITED) + f"NB = {nb}\n"


WAYS = {
    "table": 'd = McData1D(df=df, nbins=NB, {})\nraw = df\n',
    "csv file": 'd = McData1D(filename=Path("x.csv"), csvargs=dict(sep=";", names=["Q", "I", "ISigma"]), nbins=NB, {})\nraw = df\n',
    "pdh file": 'd = McData1D(filename=Path("x.pdh"), nbins=NB, {})\nraw = df\n',
    "NeXus file": 'd = McData1D(filename=Path("x.nxs"), pathDict=dict(Q="/e/q", I="/e/i", ISigma="/e/s"), nbins=NB, {})\nraw = df\n',
    "NeXus file by its attributes": 'd = McData1D(filename=X, nbins=NB, {})\nraw = df\n',
    "table loaded later": 'd = McData1D(nbins=NB, {})\nd.from_pandas(df)\nraw = df\n',
    "file loaded later": 'd = McData1D(nbins=NB, {})\nd.from_file(Path("x.dat"))\nraw = df\n',
}
RESTORED = '''
f = SA_PATH("f.nxs")
SA_FRESH(f)
McData1D(df=df, nbins=NB, {}).store(f)
d = McData1D(loadFromFile=f)
raw = df
'''
# the caller changes the settings of a data set and has it prepared again
AGAIN = '''
d = McData1D(df=df, nbins=NB, dataRange=[SA_SYM("lo0", "float"), SA_SYM("hi0", "float")], omitQRanges=[[SA_SYM("olo0", "float"), SA_SYM("ohi0", "float")]])
d.dataRange = [LO, HI]
d.omitQRanges = {omit}
d.prepare()
raw = df
'''
OMITS = {"None": "[]", "[[OLO, OHI]]": "[(OLO, OHI)]", "[[OLO, OHI], [OLO2, OHI2]]": "[(OLO, OHI), (OLO2, OHI2)]"}
REFUSED = '''
empty = SA_SYM("A", "array")
d = McData1D(df=df, nbins={nb}, dataRange=[LO, HI])
SA_TRUE("a range without datapoints is refused", len(wanted(df, LO, HI, [])) > 0)
'''


def check(cx):
    ways = dict(WAYS) | {"restored": RESTORED}
    for name, way in ways.items():
        for omit, spec in OMITS.items():
            if cx.tier == "quick" and name not in ("table", "NeXus file", "restored") and omit == "[[OLO, OHI]]":
                continue
            for nb in ("0", "5"):
                src = head(nb) + way.format(f"dataRange=[LO, HI], omitQRanges={omit}") + f"claims(d, raw, LO, HI, {spec})\n"
                cx.drive(f"{name}, omitting {omit}, {nb} bins", src, STUBS, completes=True)
    for omit, spec in OMITS.items():
        for nb in ("0", "5"):
            cx.drive(f"prepared again, omitting {omit}, {nb} bins", head(nb) + AGAIN.format(omit=omit) + f"claims(d, raw, LO, HI, {spec})\n", STUBS, completes=True)
    for name in ("table", "csv file"):
        cx.drive(f"{name}, no settings", head(5) + WAYS[name].format("") + "claims(d, raw, -np.inf, np.inf, [])\n", STUBS, completes=True)
    for nb in ("0", "5"):
        cx.drive(f"empty range, {nb} bins", HEAD.split('def claims')[0] + REFUSED.format(nb=nb), STUBS)
