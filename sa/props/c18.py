"""C18: Q, intensity and uncertainty to fit come from the selected stage, the Q offset is added once."""
from .common import *  # noqa: F403
from .c17 import HEAD as HEAD2D

HEAD = '''
from pathlib import Path
import numpy as np, pandas
from mcsas3.mc_data_1d import McData1D
A, B, C = SA_SYM("A", "array"), SA_SYM("B", "array"), SA_SYM("C", "array")
df = pandas.DataFrame({"Q": A, "I": B, "ISigma": C})
A2, B2, C2 = SA_SYM("A2", "array"), SA_SYM("B2", "array"), SA_SYM("C2", "array")
df2 = pandas.DataFrame({"Q": A2, "I": B2, "ISigma": C2})
LO, HI, N, N0 = [SA_SYM(n, "float") for n in ("lo", "hi", "nudge", "oldnudge")]
F = SA_PATH("f.nxs")
SA_FRESH(F)
SA_TABLE(SA_PATH("x.csv"), lambda **k: df)
def rebin(self, *a, **k):
    self.binnedData = pandas.DataFrame({n: SA_FUN("binned" + n, *[self.clippedData[c].values for c in ("Q", "I", "ISigma")]) for n in ("Q", "I", "ISigma")})
McData1D.reBin = rebin
def stages(t, nb):
    raw = {n: t[n].values for n in ("Q", "I", "ISigma")}
    x = t[(t.Q >= LO) & (t.Q < HI)].dropna()
    lim = {n: x[n].values for n in ("Q", "I", "ISigma")}
    if nb == 0:
        return raw, lim, lim
    return raw, lim, {n: SA_FUN("binned" + n, *[lim[c] for c in ("Q", "I", "ISigma")]) for n in ("Q", "I", "ISigma")}
def claims(d, which, n, t=df):
    raw, lim, binned = stages(t, NB)
    want = raw if which == "rawData" else lim if which == "clippedData" else binned
    SA_EQ("Q of the selected stage, with the offset", d.measData["Q"][0], want["Q"] + n)
    SA_EQ("one dimension of Q", len(d.measData["Q"]), 1)
    SA_EQ("intensity of the selected stage", d.measData["I"], want["I"])
    SA_EQ("uncertainty of the selected stage", d.measData["ISigma"], want["ISigma"])
    for name, stage, w in (("raw", d.rawData, raw), ("limited", d.clippedData, lim), ("rebinned", d.binnedData, binned)):
        for c in ("Q", "I", "ISigma"):
            SA_EQ("the offset is not added to the " + name + " data", stage[c].values, w[c])
'''
WAYS = {
    "given at construction": "d = McData1D(df=df, nbins=NB, dataRange=[LO, HI], qNudge=N, measDataLink=LINK)\nclaims(d, LINK, N)\n",
    "given with a file": "d = McData1D(filename=Path('x.csv'), nbins=NB, dataRange=[LO, HI], qNudge=N, measDataLink=LINK)\nclaims(d, LINK, N)\n",
    "no offset": "d = McData1D(df=df, nbins=NB, dataRange=[LO, HI], measDataLink=LINK)\nclaims(d, LINK, 0)\n",
    "selected afterwards": "d = McData1D(df=df, nbins=NB, dataRange=[LO, HI], qNudge=N)\nd.measDataLink = LINK\nd.linkMeasData()\nclaims(d, LINK, N)\n",
    "selected in the call": "d = McData1D(df=df, nbins=NB, dataRange=[LO, HI], qNudge=N, measDataLink=OTHER)\nd.linkMeasData(LINK)\nclaims(d, LINK, N)\n",
    "offset changed": "d = McData1D(df=df, nbins=NB, dataRange=[LO, HI], qNudge=N0, measDataLink=LINK)\nd.qNudge = N\nd.linkMeasData()\nclaims(d, LINK, N)\n",
    "prepared again": "d = McData1D(df=df, nbins=NB, dataRange=[LO, HI], qNudge=N, measDataLink=OTHER)\nd.measDataLink = LINK\nd.prepare()\nd.prepare()\nclaims(d, LINK, N)\n",
    "other data": "d = McData1D(df=df2, nbins=NB, dataRange=[LO, HI], qNudge=N, measDataLink=LINK)\nd.from_pandas(df)\nclaims(d, LINK, N)\n",
    "restored": "McData1D(df=df, nbins=NB, dataRange=[LO, HI], qNudge=N, measDataLink=LINK).store(F)\nd = McData1D(loadFromFile=F)\nclaims(d, LINK, N)\n",
    "restored, another selected": "McData1D(df=df, nbins=NB, dataRange=[LO, HI], qNudge=N, measDataLink=OTHER).store(F)\nd = McData1D(loadFromFile=F)\nd.linkMeasData(LINK)\nclaims(d, LINK, N)\n",
}
NAMES = ["rawData", "clippedData", "binnedData"]
DEFAULT = "d = McData1D(df=df, nbins=NB, dataRange=[LO, HI])\nclaims(d, 'binnedData', 0)\n"
REFUSED = "d = McData1D(df=df, nbins=NB, dataRange=[LO, HI])\nd.linkMeasData(SA_SYM('link', 'str'))\nSA_TRUE('an unknown stage is refused', SA_SYM('link', 'str') in ('rawData', 'clippedData', 'binnedData'))\n"

IMAGE = '''
N0, N1 = SA_SYM("n0", "float"), SA_SYM("n1", "float")
def fit(d, n):
    v = inside(LIMITS) & ~M.astype(bool) & np.isfinite(I) & (S != 0)
    SA_EQ("image: first component of Q, with its offset", d.measData["Q"][0], QY[v] + n[0])
    SA_EQ("image: second component of Q, with its offset", d.measData["Q"][1], QX[v] + n[1])
    SA_EQ("image: two components", len(d.measData["Q"]), 2)
    SA_EQ("image: intensity", d.measData["I"], I[v])
    SA_EQ("image: uncertainty", d.measData["ISigma"], S[v])
    SA_EQ("image: the offset is not added to the limited data", d.clippedData["Q"][0], QY[v])
    SA_EQ("image: the offset is not added to the limited data", d.clippedData["Q"][1], QX[v])
    SA_EQ("image: the offset is not added to the raw data", d.rawData2D["Qx"], QX)
    SA_EQ("image: the offset is not added to the raw data", d.rawData2D["Qy"], QY)
'''
LIMITED = "d.orthoQ1Range, d.orthoQ0Range = [XLO, XHI], [YLO, YHI]\nd.rawData2D = dict(I=I, ISigma=S, Qx=QX, Qy=QY, mask=M)\nd.prepare()\n"
WAYS2D = {
    "given at construction": "d = McData2D(dataRange=[LO, HI], nbins=NB, qNudge=[N0, N1], measDataLink=LINK)\n" + LIMITED + "fit(d, (N0, N1))\n",
    "no offset": "d = McData2D(dataRange=[LO, HI], nbins=NB, measDataLink=LINK)\n" + LIMITED + "fit(d, (0, 0))\n",
    "offset changed": "d = McData2D(dataRange=[LO, HI], nbins=NB, qNudge=[SA_SYM('o0', 'float'), SA_SYM('o1', 'float')], measDataLink=LINK)\n"
    + LIMITED + "d.qNudge = [N0, N1]\nd.linkMeasData()\nfit(d, (N0, N1))\n",
    "prepared again": "d = McData2D(dataRange=[LO, HI], nbins=NB, qNudge=(N0, N1), measDataLink=LINK)\n" + LIMITED + "d.prepare()\nd.linkMeasData()\nfit(d, (N0, N1))\n",
    "selected in the call": "d = McData2D(dataRange=[LO, HI], nbins=NB, qNudge=(N0, N1))\n" + LIMITED + "d.linkMeasData(LINK)\nfit(d, (N0, N1))\n",
}


def check(cx):
    for nb in (0, 5):
        for i, link in enumerate(NAMES):
            const = f"NB, LINK, OTHER = {nb}, {link!r}, {NAMES[i - 1]!r}\n"
            for name, way in WAYS.items():
                cx.drive(f"{name}, {link}, {nb} bins", HEAD + const + way, STUBS, completes=True)
            if link != "rawData":
                for name, way in WAYS2D.items():
                    cx.drive(f"image, {name}, {link}, {nb} bins", HEAD2D.split("def putback")[0] + IMAGE + const + way, STUBS, completes=True)
        cx.drive(f"nothing selected, {nb} bins", HEAD + f"NB = {nb}\n" + DEFAULT, STUBS, completes=True)
        cx.drive(f"unknown stage, {nb} bins", HEAD.split("def stages")[0] + f"NB = {nb}\n" + REFUSED, STUBS)


HOW = "data sets are prepared with unknown data, limits and offset for each choice of stage; the data to fit is compared with its specification"
