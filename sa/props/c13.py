"""C13: restored 1D data equals the stored data."""
from .common import STUBS

HEAD = '''
from pathlib import Path
import numpy as np, pandas
from mcsas3.mc_data_1d import McData1D
f = SA_PATH("f.nxs")
SA_FRESH(f)
df = pandas.DataFrame({"Q": SA_SYM("A", "array"), "I": SA_SYM("B", "array"), "ISigma": SA_SYM("C", "array")})
def rebin(self, *a, **k):
    v = [self.clippedData[n].values for n in ("Q", "I", "ISigma")] + [self.nbins, self.IEmin]
    self.binnedData = pandas.DataFrame({n: SA_FUN("binned" + n, *v) for n in ("Q", "I", "ISigma")})
McData1D.reBin = rebin
LO, HI, OLO, OHI, OLO2, OHI2 = [SA_SYM(n, "float") for n in ("lo", "hi", "olo", "ohi", "olo2", "ohi2")]
'''
CHECK = '''
d.store(f)
r = McData1D(loadFromFile=f, resultIndex=IDX)
for k in ("Q", "I", "ISigma"):
    SA_EQ("the raw data", r.rawData[k].values, df[k].values)
SA_EQ("the number of bins", r.nbins, NB)
SA_EQ("the minimum uncertainty", r.IEmin, IE)
SA_EQ("the Q offset", r.qNudge, QN)
SA_EQ("the choice of data to fit", r.measDataLink, LINK)
SA_EQ("the range", r.dataRange[0], R0)
SA_EQ("the range", r.dataRange[1], R1)
SA_EQ("the data to fit", r.measData["Q"][0], d.measData["Q"][0])
SA_EQ("the data to fit", r.measData["I"], d.measData["I"])
SA_EQ("the data to fit", r.measData["ISigma"], d.measData["ISigma"])
'''
OMIT = '''
SA_EQ("the omitted ranges", len(r.omitQRanges), 2)
SA_EQ("the omitted ranges", r.omitQRanges[0][0], OLO)
SA_EQ("the omitted ranges", r.omitQRanges[0][1], OHI)
SA_EQ("the omitted ranges", r.omitQRanges[1][0], OLO2)
SA_EQ("the omitted ranges", r.omitQRanges[1][1], OHI2)
'''
FULL = '''
IDX, NB, IE, QN, LINK, R0, R1 = SA_SYM("idx", "int"), {nb}, SA_SYM("ie", "float"), {qn}, "{link}", LO, HI
d = McData1D(df=df, nbins=NB, IEmin=IE, qNudge=QN, measDataLink=LINK, dataRange=[LO, HI], omitQRanges=[[OLO, OHI], [OLO2, OHI2]], resultIndex=IDX)
'''
PLAIN = '''
IDX, NB, IE, QN, LINK, R0, R1 = 1, 100, 0.01, 0, "binnedData", -np.inf, np.inf
d = McData1D(df=df)
'''
REPLACED = '''
IDX, NB, IE, QN, LINK, R0, R1 = SA_SYM("idx", "int"), 0, SA_SYM("ie", "float"), SA_SYM("qn", "float"), "clippedData", LO, HI
other = McData1D(df=df, nbins=7, IEmin=SA_SYM("ie0", "float"), qNudge=SA_SYM("qn0", "float"), measDataLink="rawData", dataRange=[SA_SYM("lo0", "float"), SA_SYM("hi0", "float")], resultIndex=IDX)
other.store(f)
d = McData1D(df=df, nbins=NB, IEmin=IE, qNudge=QN, measDataLink=LINK, dataRange=[LO, HI], omitQRanges=[[OLO, OHI], [OLO2, OHI2]], resultIndex=IDX)
'''
# settings given by the caller win over the stored ones
GIVEN = '''
d = McData1D(df=df, nbins=0, IEmin=SA_SYM("ie0", "float"), qNudge=SA_SYM("qn0", "float"), measDataLink="clippedData", dataRange=[LO, HI], omitQRanges=[[OLO, OHI]])
d.store(f)
a = McData1D(loadFromFile=f)
a.store(f)
r = McData1D(loadFromFile=f)
for k in ("Q", "I", "ISigma"):
    SA_EQ("stored, restored and stored again", r.rawData[k].values, df[k].values)
SA_EQ("stored, restored and stored again", r.dataRange[0], LO)
SA_EQ("stored, restored and stored again", r.dataRange[1], HI)
SA_EQ("stored, restored and stored again", r.nbins, 0)
SA_EQ("stored, restored and stored again", r.qNudge, SA_SYM("qn0", "float"))
SA_EQ("stored, restored and stored again", r.IEmin, SA_SYM("ie0", "float"))
SA_EQ("stored, restored and stored again", r.omitQRanges[0][0], OLO)
SA_EQ("stored, restored and stored again", r.omitQRanges[0][1], OHI)
SA_EQ("stored, restored and stored again", r.measData["Q"][0], d.measData["Q"][0])
SA_EQ("stored, restored and stored again", r.measData["I"], d.measData["I"])
'''


def check(cx):
    for link in ("clippedData", "rawData", "binnedData"):
        for nb in ("0", "2") if link == "binnedData" or cx.tier != "quick" else ("0",):
            for qn in ('SA_SYM("qn", "float")',):
                cx.drive(f"{link}, {nb} bins", HEAD + FULL.format(link=link, nb=nb, qn=qn) + CHECK + OMIT, STUBS, completes=True)
    cx.drive("no settings", HEAD + PLAIN + CHECK + 'SA_EQ("the omitted ranges", r.omitQRanges is None, True)\n', STUBS, completes=True)
    cx.drive("stored over other data", HEAD + REPLACED + CHECK + OMIT, STUBS, completes=True)
    cx.drive("stored again", HEAD + GIVEN, STUBS, completes=True)
