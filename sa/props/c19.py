"""C19: treatment and optimisation do not modify what they were given."""
from . import c17, c27
from .common import *  # noqa: F403
from .common import HAT, HATARGS

IMAGES = c17.HEAD.split("def selected")[0]
DATA = '''
import numpy as np, pandas, h5py
from pathlib import Path
from mcsas3.mc_data_1d import McData1D
A, B, C, M = [SA_SYM(n, "array") for n in "ABCM"]
df = pandas.DataFrame({"Q": A, "I": B, "ISigma": C, "mask": M})
LO, HI, OLO, OHI, IE, NUDGE = [SA_SYM(n, "float") for n in ("lo", "hi", "olo", "ohi", "iemin", "nudge")]
DR, OM = [LO, HI], [[OLO, OHI], [SA_SYM("olo2", "float"), SA_SYM("ohi2", "float")]]
CSV, PD = {"sep": ";", "header": None, "names": ["Q", "I", "ISigma"]}, {"Q": "/q", "I": "/i", "ISigma": "/s"}
def table(what, t):
    SA_EQ(what + ": columns", list(t.columns), ["Q", "I", "ISigma", "mask"])
    SA_EQ(what + ": Q", t["Q"].values, A)
    SA_EQ(what + ": intensity", t["I"].values, B)
    SA_EQ(what + ": uncertainty", t["ISigma"].values, C)
    SA_EQ(what + ": further column", t["mask"].values, M)
def settings():
    SA_EQ("the range given", DR, [LO, HI])
    SA_EQ("the omitted ranges given", OM, [[OLO, OHI], [SA_SYM("olo2", "float"), SA_SYM("ohi2", "float")]])
    SA_EQ("the reading arguments given", list(CSV), ["sep", "header", "names"])
    SA_EQ("the reading arguments given", list(CSV.values()), [";", None, ["Q", "I", "ISigma"]])
    SA_EQ("the loading paths given", list(PD.values()), ["/q", "/i", "/s"])
    SA_EQ("the loading paths given", list(PD), ["Q", "I", "ISigma"])
'''
ALL = "dataRange=DR, omitQRanges=OM, IEmin=IE, qNudge=NUDGE, csvargs=CSV"
WAYS = {
    "no bins": f"d = McData1D(df=df, nbins=0, {ALL})\n",
    "bins": f"d = McData1D(df=df, nbins=2, {ALL})\n",
    "loaded later": f"d = McData1D(nbins=0, {ALL})\nd.from_pandas(df)\n",
    "clipped data": f"d = McData1D(df=df, nbins=0, measDataLink='clippedData', {ALL})\n",
    "raw data": f"d = McData1D(df=df, nbins=0, measDataLink='rawData', {ALL})\n",
    "prepared again": f"d = McData1D(df=df, nbins=0, {ALL})\nd.nbins = 2\nd.prepare()\nd.dataRange = [0, HI]\nd.prepare()\n",
    "rebinned again": f"d = McData1D(df=df, nbins=2, {ALL})\nd.reBin(nbins=1, IEmin=0.1)\nd.linkMeasData()\n",
    "two objects": f"d = McData1D(df=df, nbins=2, {ALL})\nd2 = McData1D(df=df, nbins=0)\n",
    "stored": f"d = McData1D(df=df, nbins=0, {ALL})\nX = SA_PATH('r.nxs')\nSA_FRESH(X)\nd.store(X)\n",
}
FILES = {
    "csv": "X = SA_PATH('x.csv')\nSA_THERE(X)\nSA_TABLE(X, lambda **k: df)\n"
    f"d = McData1D(filename=X, nbins=0, {ALL})\nEXTRA = {{'skiprows': 3}}\nd.from_csv(X, EXTRA)\nd.from_csv(X, EXTRA)\nSA_EQ('the reading arguments given', EXTRA, {{'skiprows': 3}})\n",
    "pdh": "X = SA_PATH('x.pdh')\nSA_THERE(X)\nSA_TABLE(X, lambda **k: df)\n" + f"d = McData1D(filename=X, nbins=0, {ALL})\nd.from_file(X)\n",
    "paths": '''
X = SA_PATH("x.nxs")
SA_FRESH(X)
with h5py.File(X, "w") as h:
    h["/q"] = A
    h["/i"] = B
    h["/s"] = C
d = McData1D(filename=X, nbins=0, pathDict=PD, dataRange=DR, omitQRanges=OM)
d.from_file(X)
''',
}
# the data and settings of a fit, before and afterwards
FITDATA = '''
def data(md, n=1):
    SA_EQ("the data to fit: entries", list(md), ["Q", "I", "ISigma"])
    SA_EQ("the data to fit: components of Q", len(md["Q"]), n)
    SA_EQ("the data to fit: Q", md["Q"][0], SA_SYM("Q", "array"))
    SA_EQ("the data to fit: intensity", md["I"], SA_SYM("I", "array"))
    SA_EQ("the data to fit: uncertainty", md["ISigma"], SA_SYM("s", "array"))
'''
FIT = '''
import pandas, numpy as np
from mcsas3.mc_core import McCore
from mcsas3.mc_model import McModel
from mcsas3.mc_opt import McOpt
from mcsas3.mc_hat import McHat
from mcsas3.mc_hdf import loadKV
from pathlib import Path
''' + FITDATA + '''
md = {"Q": [SA_SYM("Q", "array")], "I": SA_SYM("I", "array"), "ISigma": SA_SYM("s", "array")}
LO, HI = SA_SYM("lo", "float"), SA_SYM("hi", "float")
LIM, STAT = {"radius": [LO, HI]}, {"sld": SA_SYM("sld", "float"), "sld_solvent": SA_SYM("solvent", "float")}
X = SA_PATH("r.nxs")
SA_FRESH(X)
def settings(radius):
    SA_EQ("the limits given", list(LIM), ["radius"])
    SA_EQ("the limits given", LIM["radius"], radius)
    SA_EQ("the static parameters given", list(STAT), ["sld", "sld_solvent"])
    SA_EQ("the static parameters given", list(STAT.values()), [SA_SYM("sld", "float"), SA_SYM("solvent", "float")])
'''
SET = 'nContrib=2, fitParameterLimits=LIM, staticParameters=STAT, seed=SA_SYM("seed", "int")'
OPTS = 'maxIter=SA_SYM("maxIter", "int"), convCrit=SA_SYM("convCrit", "float"), maxAccept=SA_SYM("maxAccept", "int")'
SIM = '''
def sim():
    return dict(simDataQ0=SA_SYM("q1", "array"), simDataI=SA_SYM("i1", "array"), simDataISigma=SA_SYM("is1", "array"),
                extrapY0=SA_SYM("b1", "float"), extrapScaling=SA_SYM("s1", "float"))
S, LIM = sim(), {"factor": [LO, HI]}
m = McModel(modelName="sim", nContrib=2, fitParameterLimits=LIM, staticParameters=S, seed=1)
m.kernel = m.func.make_kernel([SA_SYM("Q", "array")])
m.calcModelIV({"factor": SA_SYM("factor", "float")})
SA_EQ("the limits given", LIM, {"factor": [LO, HI]})
SA_EQ("the static parameters given", list(S), ["simDataQ0", "simDataI", "simDataISigma", "extrapY0", "extrapScaling"])
for k in ("simDataQ0", "simDataI", "simDataISigma", "extrapY0", "extrapScaling"):
    SA_EQ("the simulated data given: " + k, S[k], sim()[k])
'''


def check(cx):
    for name, way in WAYS.items():
        cx.drive(f"1D, {name}", DATA + way + 'table("the table given", df)\ntable("the raw data", d.rawData)\nsettings()\n', STUBS, completes=True)
    for om in ("[[0.5, 0.6], [0.1, 0.2]]", "[[0.1, 0.2], [0.15, 0.3]]", "[[0.1, 0.2], [0.1, 0.2]]"):
        src = DATA + f"OM = {om}\nd = McData1D(df=df, nbins=0, dataRange=[0.01, 2], omitQRanges=OM)\n"
        cx.drive(f"1D, omitting {om}", src.replace("[[OLO, OHI], [SA_SYM(\"olo2\", \"float\"), SA_SYM(\"ohi2\", \"float\")]]", om).replace("[LO, HI]", "[0.01, 2]") + "settings()\n", STUBS)
    for name, way in FILES.items():
        raw = 'table("the raw data", d.rawData)\n' if name != "paths" else 'SA_EQ("the raw data", d.rawData["I"].values, B)\nSA_EQ("the raw data", d.rawData["ISigma"].values, C)\nSA_EQ("the raw data", d.rawData["Q"].values, A)\n'
        cx.drive(f"1D from a {name} file", DATA + way + raw + "settings()\n", STUBS, completes=True)
    for nb in (0, 100):
        for again in ("", "d.prepare()\n", "d.dataRange = [0, HI]\nd.prepare()\nd.reconstruct2D(MODEL)\n"):
            src = IMAGES + f'''
DR, Y, X = [LO, HI], [YLO, YHI], [XLO, XHI]
d = McData2D(dataRange=DR, nbins={nb})
d.orthoQ0Range, d.orthoQ1Range = Y, X
raw = dict(I=I, ISigma=S, Qx=QX, Qy=QY, mask=M)
d.rawData2D = raw
d.prepare()
{again}SA_EQ("the image: entries", list(raw), ["I", "ISigma", "Qx", "Qy", "mask"])
for k, v in (("I", I), ("ISigma", S), ("Qx", QX), ("Qy", QY), ("mask", M)):
    SA_EQ("the image: " + k, raw[k], v)
    SA_EQ("the raw image: " + k, d.rawData2D[k], v)
SA_EQ("the range given", DR, [LO, HI])
SA_EQ("the range given", Y, [YLO, YHI])
SA_EQ("the range given", X, [XLO, XHI])
'''
            cx.drive(f"2D, {nb} bins {again.count('prepare')}", src, STUBS, completes=True)
    src = IMAGES + c17.FILE.replace("STACK", "np.array([QY, QX])").replace("MASKATTR", 'h["/e"].attrs["mask"] = "m"') + '''
d = McData2D(filename=X, nbins=0, dataRange=[LO, HI])
d.orthoQ0Range = [YLO, YHI]
d.prepare()
for k, v in (("I", I), ("ISigma", S), ("Qx", QX), ("Qy", QY)):
    SA_EQ("the raw image: " + k, d.rawData2D[k], v)
'''
    cx.drive("2D from a file", src, STUBS, completes=True)
    for model in ("sphere", "mcsas_sphere"):
        src = FIT + f'c = McCore(md, model=McModel(modelName="{model}", {SET}), opt=McOpt({OPTS}))\n'
        cx.drive(f"{model}: set up", src + "data(md)\nsettings([LO, HI])\n", STUBS, completes=True)
        cx.drive(f"{model}: one step", src + "c.contribIndex = lambda: 0\nc.iterate()\ndata(md)\nsettings([LO, HI])\n", STUBS, completes=True)
        cx.drive(f"{model}: optimised", src + "c.optimize()\ndata(md)\nsettings([LO, HI])\n", STUBS, completes=True)
        cx.drive(f"{model}: stored", src + "c.store(X)\ndata(md)\nsettings([LO, HI])\n", STUBS, completes=True)
        cx.drive(f"{model}: restored", src + "c.store(X)\nn = McCore(md, loadFromFile=X, loadFromRepetition=0)\ndata(md)\nsettings([LO, HI])\n", STUBS, completes=True)
    cx.drive("simulated data", FIT.replace(FITDATA, "") + SIM, {}, completes=True)
    for n in (1, 2):
        for lim, radius in (("[LO, HI]", "[LO, HI]"), ('"auto"', '"auto"')):
            src = FIT + "McCore.optimize = lambda self, *a, **k: None\nif not np.min(md['Q']) > 0:\n    raise SystemExit\n"
            src += f'LIM["radius"] = {lim}\nh = McHat(nRep={n}, nCores=1, modelName="mcsas_sphere", {SET}, {OPTS})\nh.run(md, X)\nh.run(md, X)\ndata(md)\nsettings({radius})\n'
            cx.drive(f"{n} repetitions, limits {lim}", src, STUBS, completes=True)
    src = c27.RUN.split("def after")[0].replace("REPS", "[0, 2]").replace("INDEX", "1") + FITDATA + 'data(md)\n'
    cx.drive("analysed", src, STUBS, completes="driver")
    cx.drive("analysed and stored", src.replace("store=False", "store=True"), STUBS, completes="driver")


HOW = "the inputs of each treatment, optimisation and analysis are compared after it with what they were before, through every alias"
