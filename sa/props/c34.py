"""C34: invalid input is refused instead of being fitted."""
from .common import *  # noqa: F403

DATA = '''
import numpy as np, pandas, h5py
from pathlib import Path
from mcsas3.mc_data_1d import McData1D
from mcsas3.mc_data_2d import McData2D
A, B, C = SA_SYM("A", "array"), SA_SYM("B", "array"), SA_SYM("C", "array")
'''
MODEL34 = '''
import numpy as np, pandas, h5py
from pathlib import Path
from mcsas3.mc_core import McCore
from mcsas3.mc_model import McModel
from mcsas3.mc_opt import McOpt
from mcsas3.mc_hat import McHat
from mcsas3.mc_analysis import McAnalysis
from mcsas3.mc_model_histogrammer import McModelHistogrammer
McCore.store = McHat.store = lambda self, *a, **k: None
McCore.optimize = lambda self, *a, **k: None
McAnalysis.getNRep = McAnalysis.histAndLoadReps = lambda self, *a, **k: None
McAnalysis.averageModes = McAnalysis.averageHistograms = McAnalysis.averageOpts = McAnalysis.averageI = McAnalysis.store = lambda self, *a, **k: None
LO, HI = SA_SYM("lo", "float"), SA_SYM("hi", "float")
LIMITS, STATIC = {"radius": [LO, HI]}, {"sld": SA_SYM("sld", "float")}
SET = dict(modelName="sphere", nContrib=2, fitParameterLimits=LIMITS, staticParameters=STATIC, seed=SA_SYM("seed", "int"))
OPT = dict(maxIter=SA_SYM("maxIter", "int"), convCrit=SA_SYM("convCrit", "float"), maxAccept=SA_SYM("maxAccept", "int"))
Q, I, S = SA_SYM("Q", "array"), SA_SYM("I", "array"), SA_SYM("s", "array")
md = {"Q": [Q], "I": I, "ISigma": S}
def fit(data):
    return McCore(data, model=McModel(**SET), opt=McOpt(repetition=2, **OPT))
'''
TOOLS = '''
from pathlib import Path
from mcsas3.mc_data_1d import McData1D
from mcsas3.mc_hat import McHat
from mcsas3.mc_analysis import McAnalysis
from mcsas3.mc_plot import McPlot
from mcsas3.cli_tools import McSAS3_cli_optimize, McSAS3_cli_histogram
def data(self, *a, **k):
    self.measData = {"Q": [SA_SYM("Q", "array")], "I": SA_SYM("I", "array"), "ISigma": SA_SYM("s", "array")}
McData1D.__init__ = data
McData1D.store = lambda self, *a, **k: None
McHat.__init__ = lambda self, *a, **k: None
McHat.run = lambda self, *a, **k: None
McAnalysis.__init__ = lambda self, *a, **k: None
McPlot.__init__ = lambda self, *a, **k: None
McPlot.resultCard = lambda self, *a, **k: None
D, R = Path("data.csv"), Path("result.nxs")
SA_THERE(R)
RC, OC, HC = Path("read.yaml"), Path("run.yaml"), Path("hist.yaml")
NONE, TXT = Path("gone.yaml"), Path("config.txt")
SA_MISSING(NONE)
SA_MISSING(NONE.absolute())
for c in (D, RC, OC, HC, TXT):
    SA_THERE(c)
for c in (RC, NONE, TXT):
    SA_YAML(c, lambda: {"nbins": 3})
for c in (OC,):
    SA_YAML(c, lambda: {"nRep": 2})
for c in (HC, NONE, TXT):
    SA_YAML(c, lambda: [{"parameter": "radius"}])
INDEX = SA_SYM("index", "int")
'''
COLS = ("Q", "I", "ISigma")


def table(**over):
    full = {**dict(zip(COLS, "ABC")), **over}
    return "pandas.DataFrame({" + ", ".join(f'"{k}": {v}' for k, v in full.items() if v) + "})"


def inputs():
    for suffix in ("csv", "dat", "txt", "pdh", "nxs", "h5", "hdf5", "nx"):
        pre = f'X = SA_PATH("x.{suffix}")\nSA_MISSING(X)\n'
        yield f"a missing .{suffix} file", DATA + pre, "McData1D(filename=X)"
    pre = 'X = SA_PATH("x.csv")\nSA_MISSING(X)\n'
    yield "a missing file, read later", DATA + pre, "McData1D().from_file(X)"
    yield "a missing file, set earlier", DATA + pre + "d = McData1D()\nd.filename = X\n", "d.from_file()"
    yield "a missing file, loader given", DATA + 'X = SA_PATH("x.data")\nSA_MISSING(X)\n', 'McData1D(filename=X, loader="from_csv")'
    yield "a missing file for images", DATA + 'X = SA_PATH("x.nxs")\nSA_MISSING(X)\n', "McData2D(filename=X)"
    yield "no file", DATA, "McData1D().from_file()"
    for suffix in ("xyz", "docx", "csvx", "hdf"):
        pre = f'X = SA_PATH("x.{suffix}")\nSA_THERE(X)\nSA_TABLE(X, lambda **k: {table()})\n'
        yield f"unknown file type .{suffix}", DATA + pre, "McData1D(filename=X)"
        yield f"unknown file type .{suffix} and loader", DATA + pre, 'McData1D(filename=X, loader="from_xyz")'


def tables():
    for k in COLS:
        for how, v in (("without", None), ("with integer values for", ".astype(int)"), ("with texts for", ".astype(str)"), ("with complex values for", ".astype(complex)")):
            t = table(**{k: v and dict(zip(COLS, "ABC"))[k] + v})
            yield f"a table {how} {k}", DATA, f"McData1D(df={t}, nbins=0)"
            yield f"a table {how} {k}, loaded later", DATA, f"McData1D(nbins=0).from_pandas({t})"
            yield f"a file {how} {k}", DATA + f'X = SA_PATH("x.csv")\nSA_THERE(X)\nSA_TABLE(X, lambda **k: {t})\n', "McData1D(filename=X, nbins=0)"
            if not v:
                yield f"a loading path {how} {k}", DATA + NX, "McData1D(filename=X, pathDict={" + ", ".join(f'"{c}": "/{c}"' for c in COLS if c != k) + "})"
    yield "a dictionary instead of a table", DATA, 'McData1D().from_pandas({"Q": A, "I": B, "ISigma": C})'
    yield "an array instead of a table", DATA, "McData1D().from_pandas(A)"


NX = '''
X = SA_PATH("x.nxs")
SA_FRESH(X)
with h5py.File(X, "w") as h:
    h["/Q"] = A
    h["/I"] = B
    h["/ISigma"] = C
'''


def ranges():
    t = table()
    for what, r in (("a tuple", "([0.1, 0.2],)"), ("an array", "np.array([[0.1, 0.2]])"), ("a dictionary", "{0.1: 0.2}"), ("a number", "0.3")):
        yield f"omitted ranges given as {what}", DATA, f"McData1D(df={t}, nbins=0, omitQRanges={r})"
    for what, r in (("one limit", "[[0.1]]"), ("three limits", "[[0.1, 0.2, 0.3]]"), ("three limits in the second", "[[0.1, 0.2], [0.3, 0.4, 0.5]]"), ("no limits", "[[]]"), ("numbers", "[0.1, 0.2]")):
        yield f"omitted ranges with {what}", DATA, f"McData1D(df={t}, nbins=0, omitQRanges={r})"
    yield "a data range with one limit", DATA, f"McData1D(df={t}, nbins=0, dataRange=[0.1])"
    yield "a data range that is a number", DATA, f"McData1D(df={t}, nbins=0, dataRange=0.1)"
    pre = DATA + "df = " + t + '\nLO, HI = SA_SYM("lo", "float"), SA_SYM("hi", "float")\n'
    for n, b in ((0, ""), (0, "d = McData1D()\n"), (3, "d = McData1D()\n")):
        run = "d.from_pandas(df)" if b else f"d = McData1D(df=df, nbins={n}, dataRange=[LO, HI])"
        yield f"a data range without datapoints, {n} bins{', set later' if b else ''}", pre + (b + f"d.nbins = {n}\nd.dataRange = [LO, HI]\n" if b else ""), run, "len(df[(df.Q >= LO) & (df.Q < HI)].dropna()) > 0"
    yield "unknown measurement data", DATA, f'McData1D(df={t}, nbins=0, measDataLink="otherData")'
    yield "unknown measurement data, chosen later", DATA + f"d = McData1D(df={t}, nbins=0)\n", 'd.linkMeasData("otherData")'


def fits():
    for k in ("I", "ISigma"):
        for bad in ("np.nan", "np.inf", "-np.inf"):
            for i in range(3):
                v = ["1.0", "2.0", "3.0"]
                v[i] = bad
                o = {"Q": "[np.array([0.1, 0.2, 0.3])]", "I": "np.array([4.0, 3.0, 2.0])", "ISigma": "np.array([0.4, 0.3, 0.2])", k: f"np.array([{', '.join(v)}])"}
                o = "{" + ", ".join(f'"{a}": {b}' for a, b in o.items()) + "}"
                yield f"{bad} at {i} in {k}", MODEL34, f"fit({o})"
    yield "no data", MODEL34, "fit(None)"
    yield "data without datapoints", MODEL34, 'fit({"Q": [np.array([])], "I": np.array([]), "ISigma": np.array([])})'
    yield "fewer uncertainties than intensities", MODEL34, 'fit({"Q": [np.array([0.1, 0.2])], "I": np.array([4.0, 3.0]), "ISigma": np.array([0.4])})'
    yield "a list of data", MODEL34, "fit([Q, I, S])"
    for n in ("0", "-1", "-5"):
        yield f"{n} repetitions", MODEL34, f"McHat(nRep={n}, **SET, **OPT)"
    yield "limits that are another word", MODEL34, 'McHat(nRep=1, nCores=1, **{**SET, "fitParameterLimits": {"radius": "automatic"}}, **OPT).run(md, Path("r.nxs"))'
    yield "limits that are another word, second", MODEL34, 'McHat(nRep=1, nCores=1, **{**SET, "fitParameterLimits": {"radius": "auto", "length": "none"}}, **OPT).run(md, Path("r.nxs"))'
    for k in ("fitParameterLimits", "staticParameters"):
        yield f"a model without {k}", MODEL34, "McModel(**{k: v for k, v in SET.items() if k != '" + k + "'})"
    sim = {"simDataQ0": "Q", "simDataQ1": "None", "simDataI": "I", "simDataISigma": "S"}
    for k in sim:
        if k != "simDataQ1":
            d = ", ".join(f"{a}={b}" for a, b in sim.items() if a != k)
            yield f"simulated data without {k}", MODEL34, f'McModel(modelName="sim", nContrib=2, fitParameterLimits={{"factor": [LO, HI]}}, staticParameters=dict({d}))'


def indices():
    for what, v in (("negative", "-1"), ("fractional", "1.5"), ("a whole float", "2.0"), ("text", '"1"'), ("none", "None")):
        for cls, make in (
            ("data", "McData1D(resultIndex=V)"),
            ("image data", "McData2D(resultIndex=V)"),
            ("model", "McModel(resultIndex=V, **SET)"),
            ("options", "McOpt(resultIndex=V, **OPT)"),
            ("core", "McCore(md, model=McModel(**SET), opt=McOpt(**OPT), resultIndex=V)"),
            ("repetitions", "McHat(resultIndex=V, **SET, **OPT)"),
            ("run", "McHat(nRep=1, nCores=1, **SET, **OPT).run(md, Path('r.nxs'), resultIndex=V)"),
            ("histograms", "McModelHistogrammer(core, hists, resultIndex=V)"),
            ("analysis", "McAnalysis(X, md, hists, resultIndex=V)"),
        ):
            if cls == "run" and v == "None":
                continue  # that is "the one given before"
            pre = MODEL34 + (DATA if "data" in cls else "")
            if cls in ("histograms", "analysis"):
                pre += HISTS
            yield f"a result index that is {what}, {cls}", pre, make.replace("V)", v + ")").replace("V,", v + ",")
    yield "an index below zero", MODEL34 + 'V = SA_SYM("index", "int")\n', "McOpt(resultIndex=V, **OPT)", "V >= 0"


HISTS = '''
X = SA_PATH("r.nxs")
SA_THERE(X)
core = fit(md)
hists = pandas.DataFrame([dict(parameter="radius", nBin=3, binScale="log", presetRangeMin=LO, presetRangeMax=HI, binWeighting="vol", autoRange=True)])
'''


def histograms():
    good = {"parameter": '"radius"', "nBin": "3", "binScale": '"log"', "presetRangeMin": "LO", "presetRangeMax": "HI", "binWeighting": '"vol"', "autoRange": "True"}
    row = lambda d: "dict(" + ", ".join(f"{k}={v}" for k, v in d.items()) + ")"
    for what, over in (
        ("of a static parameter", {"parameter": '"sld"'}),
        ("of an unknown parameter", {"parameter": '"height"'}),
        ("with unknown bins", {"binScale": '"sqrt"'}),
        ("weighted by number", {"binWeighting": '"num"'}),
        ("with no bins", {"nBin": "0"}),
        ("with fewer than no bins", {"nBin": "-2"}),
        ("with bins that are not a number", {"nBin": '"many"'}),
        ("with a fractional number of bins", {"nBin": "2.5"}),
        ("with a range chosen by a word", {"autoRange": '"yes"'}),
    ):
        bad = row({**good, **over})
        yield f"a histogram {what}", MODEL34 + HISTS, f"McModelHistogrammer(core, pandas.DataFrame([{bad}]))"
        if "nBin" not in over and "autoRange" not in over:
            yield f"a second histogram {what}", MODEL34 + HISTS, f"McModelHistogrammer(core, pandas.DataFrame([{row(good)}, {bad}]))"
    yield "histograms of no core", MODEL34 + HISTS, "McModelHistogrammer(None, hists)"
    yield "histograms of a model only", MODEL34 + HISTS, "McModelHistogrammer(core._model, hists)"
    yield "histogram ranges in a dictionary", MODEL34 + HISTS, 'McModelHistogrammer(core, {"parameter": ["radius"]})'
    yield "histogram ranges in a list", MODEL34 + HISTS, f"McModelHistogrammer(core, [{row(good)}])"
    yield "analysis of a missing file", MODEL34 + HISTS + 'Y = SA_PATH("y.nxs")\nSA_MISSING(Y)\n', "McAnalysis(Y, md, hists)"
    yield "analysis with ranges in a list", MODEL34 + HISTS, f"McAnalysis(X, md, [{row(good)}])"
    yield "analysis without ranges", MODEL34 + HISTS, "McAnalysis(X, md, None)"
    yield "analysis without data", MODEL34 + HISTS, "McAnalysis(X, None, hists)"


def restoring():
    pre = MODEL34 + '''
X = SA_PATH("r.nxs")
SA_FRESH(X)
core = fit(md)
core._model.store(X, 2)
core._opt.store(X)
'''
    yield "restoring a model without repetition", pre, "McModel(loadFromFile=X)"
    yield "restoring a fit without repetition", pre, "McCore(md, loadFromFile=X)"
    yield "restoring options without repetition", pre, "McOpt(loadFromFile=X)"
    for what, make in (("a model", "McModel(loadFromFile=Y, loadFromRepetition=2)"), ("a fit", "McCore(md, loadFromFile=Y, loadFromRepetition=2)"), ("options", "McOpt(loadFromFile=Y, loadFromRepetition=2)"), ("data", "McData1D(loadFromFile=Y)"), ("settings", "McHat(loadFromFile=Y)")):
        yield f"restoring {what} from a missing file", MODEL34 + DATA + 'Y = SA_PATH("y.nxs")\nSA_MISSING(Y)\n', make


def tools():
    good = {"dataFile": "D", "resultFile": "R", "readConfigFile": "RC", "runConfigFile": "OC", "resultIndex": "INDEX", "deleteIfExists": "False", "nThreads": "1"}
    call = lambda d, f: f"{f}(" + ", ".join(f"{k}={v}" for k, v in d.items()) + ")"
    for what, k, v in (
        ("missing data", "dataFile", 'Path("gone.csv")'), ("missing reading configuration", "readConfigFile", "NONE"), ("missing run configuration", "runConfigFile", "NONE"),
        ("reading configuration of another type", "readConfigFile", "TXT"), ("run configuration of another type", "runConfigFile", "TXT"),
    ):
        pre = TOOLS + 'SA_MISSING(Path("gone.csv"))\nSA_MISSING(Path("gone.csv").absolute())\n' + ("SA_YAML(NONE, lambda: {'nRep': 2})\nSA_YAML(TXT, lambda: {'nRep': 2})\n" if "run" in k else "SA_YAML(NONE, lambda: {'nbins': 3})\nSA_YAML(TXT, lambda: {'nbins': 3})\n")
        yield f"the command line tool, {what}", pre, call({**good, k: v}, "McSAS3_cli_optimize")
    for what, v in (("missing histogram configuration", "NONE"), ("histogram configuration of another type", "TXT")):
        yield f"the command line tool, {what}", TOOLS, call({"resultFile": "R", "histConfigFile": v, "resultIndex": "INDEX"}, "McSAS3_cli_histogram")


def check(cx):
    for group in (inputs, tables, ranges, fits, indices, histograms, restoring, tools):
        for name, pre, code, *cond in group():
            c = f" or ({cond[0]})" if cond else ""
            src = pre + f'ok = True\ntry:\n    {code}\nexcept Exception:\n    ok = False\nSA_TRUE("refused: {name}", (not ok){c})\n'
            cx.drive(name, src, STUBS)


HOW = "each way of giving invalid input is analysed on its own: no path may come back without an error"
