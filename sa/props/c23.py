"""C23: every command line option and configuration entry reaches the run."""
from ..norm import norm
from ..terms import *  # noqa: F403
from .c22 import DATA, RESULT, isplot, pathof
from .common import *  # noqa: F403

# everything behind the command line, replaced by stand-ins that note what they are given
STAND = '''
from pathlib import Path
from mcsas3.mc_data_1d import McData1D
from mcsas3.mc_hat import McHat
from mcsas3.mc_analysis import McAnalysis
from mcsas3.mc_plot import McPlot
import pandas as pd
D, R, RC, OC, HC = SA_SYM("data", "str"), SA_SYM("result", "str"), Path("read.yaml"), Path("run.yaml"), Path("hist.yaml")
INDEX, THREADS = SA_SYM("index", "int"), SA_SYM("threads", "int")
for c in (RC, OC, HC, Path(D)):
    SA_THERE(c)
GOT = {"order": []}
MD = {"Q": [SA_SYM("Q", "array")], "I": SA_SYM("I", "array"), "ISigma": SA_SYM("s", "array")}
RAW = {"Q": [SA_SYM("Q0", "array")], "I": SA_SYM("I0", "array"), "ISigma": SA_SYM("s0", "array")}
def data(self, df=None, loadFromFile=None, resultIndex=1, **k):
    self.measData = MD
    self.rawData = RAW
    if loadFromFile is None:
        GOT["order"].append("data")
        GOT["data"] = (resultIndex, k)
        SA_OBS("data file", k.get("filename"))
    else:
        GOT["order"].append("restored")
        SA_OBS("restored from", loadFromFile)
        GOT["restored"] = resultIndex
def store(self, filename, path=None):
    GOT["order"].append("store")
    SA_OBS("data stored in", filename)
def hat(self, loadFromFile=None, resultIndex=1, **k):
    GOT["order"].append("hat")
    GOT["hat"] = (resultIndex, k)
    GOT["own"] = loadFromFile is None
def run(self, measData, filename, resultIndex=None):
    GOT["order"].append("run")
    SA_OBS("results stored in", filename)
    GOT["run"] = (measData, resultIndex)
def analysis(self, inputFile, measData, histRanges, store=False, resultIndex=1):
    GOT["order"].append("analysis")
    GOT["analysis"] = self
    SA_OBS("results analysed", inputFile)
    GOT["args"] = (measData, histRanges, store, resultIndex)
def card(self, mcres, saveHistFile=None):
    GOT["order"].append("plot")
    GOT["plotted"] = mcres
    SA_OBS("plot", saveHistFile)
McData1D.__init__ = data
McData1D.store = store
McHat.__init__ = hat
McHat.run = run
McAnalysis.__init__ = analysis
McPlot.__init__ = lambda self, *a, **k: None
McPlot.resultCard = card
def config(p, f):
    SA_YAML(p, f)
    SA_YAML(p.absolute(), f)
    SA_YAML(p.resolve(), f)
def readconfig():
    return {"nbins": SA_SYM("nbins", "int"), "csvargs": {"sep": SA_SYM("sep", "str"), "skiprows": SA_SYM("skip", "int")}, "dataRange": [SA_SYM("lo", "float"), SA_SYM("hi", "float")],
        "omitQRanges": [[SA_SYM("o1", "float"), SA_SYM("o2", "float")]], "IEmin": SA_SYM("iemin", "float"), "furtherEntry": SA_SYM("further", "str")}
config(RC, readconfig)
def runconfig():
    r = {"modelName": SA_SYM("model", "str"), "nContrib": SA_SYM("ncontrib", "int"), "modelDType": SA_SYM("dtype", "str"), "fitParameterLimits": {"radius": "auto", "length": [SA_SYM("min", "float"), SA_SYM("max", "float")]},
        "staticParameters": {"sld": SA_SYM("sld", "float")}, "maxIter": SA_SYM("maxiter", "int"), "convCrit": SA_SYM("crit", "float"), "nRep": SA_SYM("nrep", "int"), "furtherEntry": SA_SYM("further2", "str")}
    r.update(MORE)
    return r
config(OC, runconfig)
def histconfig():
    return [{"parameter": {"a": "radius", "b": "radius", "c": "length"}[i], "nBin": SA_SYM("n" + i, "int"), "binScale": SA_SYM("s" + i, "str"), "presetRangeMin": SA_SYM("lo" + i, "float"),
        "presetRangeMax": SA_SYM("hi" + i, "float"), "binWeighting": SA_SYM("w" + i, "str"), "autoRange": SA_SYM("a" + i, "bool")} for i in DOCS]
config(HC, histconfig)
WANT = {"hist": histconfig()}
'''
AFTER_RUN = '''
measData, i = GOT["run"]
SA_EQ("the data to fit", measData["I"], MD["I"])
SA_EQ("the data to fit", measData["Q"][0], MD["Q"][0])
SA_EQ("the data to fit", measData["ISigma"], MD["ISigma"])
SA_TRUE("the result index of the run", i is None or i == WANT["index"])
SA_TRUE("a run of its own", GOT["own"])
i, k = GOT["data"]
SA_EQ("the result index of the data", i, WANT["index"])
want = readconfig()
for n in want:
    SA_TRUE("entries of the read configuration", n in k)
    SA_EQ("entries of the read configuration", k[n], want[n])
for n in k:
    SA_TRUE("the data get nothing else", n in want or n == "filename")
i, k = GOT["hat"]
SA_EQ("the result index of the run", i, WANT["index"])
want = runconfig()
for n in want:
    if n != "nCores":
        SA_TRUE("entries of the run configuration", n in k)
        SA_EQ("entries of the run configuration", k[n], want[n])
for n in k:
    SA_TRUE("the run gets nothing else", n in want or n in ("seed", "nCores"))
t = WANT["threads"]
SA_EQ("the number of cores", k.get("nCores", 0), t if t > 0 else want.get("nCores", 0))
SA_TRUE("seed", "seed" in want or ("seed" in k and k["seed"] is None))
'''
AFTER_HIST = '''
measData, histRanges, store, i = GOT["args"]
SA_EQ("the result index to restore the data from", GOT["restored"], WANT["index"])
SA_EQ("the data to analyse", measData["I"], MD["I"])
SA_EQ("the data to analyse", measData["Q"][0], MD["Q"][0])
SA_EQ("the data to analyse", measData["ISigma"], MD["ISigma"])
SA_EQ("the ranges of the histograms", len(histRanges), len(WANT["hist"]))
for n in WANT["hist"][0]:
    SA_EQ("the ranges of the histograms", list(histRanges[n]), [h[n] for h in WANT["hist"]])
SA_TRUE("the histograms are stored", store)
SA_EQ("the result index to analyse", i, WANT["index"])
SA_SAME("the result to plot", GOT["plotted"], GOT["analysis"])
'''
OPT = '"{0}dataFile": D, "{0}resultFile": R, "{0}readConfigFile": "read.yaml", "{0}runConfigFile": "run.yaml"'
LONG = '"--dataFile": D, "--resultFile": R, "--readConfigFile": "read.yaml", "--runConfigFile": "run.yaml"'
SHORT = '"-f": D, "-r": R, "-F": "read.yaml", "-R": "run.yaml"'
RUNNER = "from mcsas3.mcsas3_cli_runner import main\nmain()\n"
HIST = "from mcsas3.mcsas3_cli_histogrammer import main\nmain()\n"
BOTH = "import mcsas3.__main__\n"
PAIR = '"--resultIndex": INDEX, "--nThreads": THREADS'
SPAIR = '"-i": INDEX, "-t": THREADS'
SET = 'WANT["index"], WANT["threads"] = {}, {}\n'
RUN, ANA = '["data", "store", "hat", "run"]', '["restored", "analysis", "plot"]'
FILES = {"data file": DATA, "data stored in": RESULT, "results stored in": RESULT, "restored from": RESULT, "results analysed": RESULT, "plot": None}
OBJ = 'from mcsas3.cli_tools import McSAS3_cli_optimize\nMcSAS3_cli_optimize(dataFile=Path(D), resultFile=Path(R), readConfigFile=RC, runConfigFile=OC, resultIndex=INDEX, nThreads=THREADS, deleteIfExists={})\n'
HOBJ = "from mcsas3.cli_tools import McSAS3_cli_histogram\nMcSAS3_cli_histogram(resultFile=Path(R), histConfigFile=HC, resultIndex=INDEX)\n"


def argv(*o):
    return "SA_ARGV({" + ", ".join(o) + "})\n"


ALL, NEITHER = SET.format("INDEX", "THREADS"), SET.format("1", "0")
# name: (settings, how it is called, the calls expected)
WAYS = {
    "optimize": (ALL + argv(LONG, PAIR) + RUNNER, "run"),
    "optimize, short options": (ALL + argv(SHORT, SPAIR) + RUNNER, "run"),
    "optimize, replacing": (ALL + argv(LONG, PAIR, '"--deleteIfExists": True') + RUNNER, "run"),
    "optimize, defaults": (NEITHER + argv(LONG) + RUNNER, "run"),
    "optimize from Python": (ALL + OBJ.format("False"), "run"),
    "optimize from Python, replacing": (ALL + OBJ.format("True"), "run"),
    "histogram": (ALL + argv('"--resultFile": R, "--histConfigFile": "hist.yaml", "--resultIndex": INDEX') + HIST, "hist"),
    "histogram, short options": (ALL + argv('"-r": R, "-H": "hist.yaml", "-i": INDEX') + HIST, "hist"),
    "histogram, defaults": (NEITHER + argv('"-r": R, "-H": "hist.yaml"') + HIST, "hist"),
    "histogram from Python": (ALL + HOBJ, "hist"),
    "both": (ALL + argv(LONG, '"--histConfigFile": "hist.yaml"', PAIR) + BOTH, "both"),
    "both, short options": (ALL + argv(SHORT, '"-H": "hist.yaml"', SPAIR) + BOTH, "both"),
    "both, defaults": (NEITHER + argv(LONG, '"--histConfigFile": "hist.yaml"') + BOTH, "both"),
}
CONFIGS = {
    "no seed, no cores": "{}",
    "seed": '{"seed": SA_SYM("seed", "int")}',
    "seed and cores": '{"seed": SA_SYM("seed", "int"), "nCores": SA_SYM("cores", "int")}',
    "cores": '{"nCores": SA_SYM("cores", "int")}',
    "no seed on purpose": '{"seed": None, "nCores": SA_SYM("cores", "int")}',
}
DOCS = {"one document": '"a"', "two documents": '"ab"', "three documents": '"abc"'}


def check(cx):
    todo = []
    for way, (src, kind_) in WAYS.items():
        for c in CONFIGS if kind_ != "hist" else ["cores"]:
            for d in DOCS if kind_ == "hist" else ["two documents"]:
                todo.append((", ".join([way] + ([c] if kind_ != "hist" else []) + ([d] if kind_ == "hist" else [])), kind_, CONFIGS[c], DOCS[d], src))
    for name, kind_, more, docs, src in todo:
        head = f"MORE = {more}\nDOCS = {docs}\n" + STAND
        steps = {"run": RUN, "hist": ANA, "both": RUN[:-1] + ", " + ANA[1:]}[kind_]
        tail = "".join(f"SA_EQ('each step once', GOT['order'].count('{n}'), 1)\n" for n in eval(steps))
        tail += f"SA_EQ('no other step', len(GOT['order']), {len(eval(steps))})\n"
        if kind_ != "hist":
            tail += "SA_TRUE('the model is set up before it is run', GOT['order'].index('hat') < GOT['order'].index('run'))\n" + AFTER_RUN
        if kind_ == "both":
            tail += "SA_TRUE('the results are analysed once they are there', GOT['order'].index('run') < GOT['order'].index('analysis'))\n"
            tail += "SA_TRUE('the data are restored once they are there', GOT['order'].index('store') < GOT['order'].index('restored'))\n"
        if kind_ != "run":
            tail += "SA_TRUE('analysed before it is plotted', GOT['order'].index('analysis') < GOT['order'].index('plot'))\n" + AFTER_HIST
        e = cx.drive(name, head + src + tail, completes=True)
        if e is None:
            continue
        for x in e.events:
            if x.kind == "obs" and x.name in FILES and live(x):
                p = pathof(x.value)
                ok = isplot(p) if x.name == "plot" else p is FILES[x.name]
                if not ok and (has_op(p, "unk", "loopval", "mu", "gamma") or x.name == "plot" and any(s.op == "call" and s.a[0] not in ("with_suffix", "absolute", "resolve", "parent") for s in walk(p))):
                    ok = None
                cx.require("the files given: " + x.name, ok, f"{name}: {x.name}: {show(p, 5)[:120]}", x.pos)


HOW = "the command line tools are analysed for unknown options and configuration entries; what reaches the data, the run, the analysis and the plot is compared with them"
