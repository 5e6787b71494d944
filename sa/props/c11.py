"""C11: results with different result indices never mix."""
from ..decide import compare, guardpaths
from .c27 import RUN
from .common import *  # noqa: F403

IDX = sym("idx", "int")
HEAD = ANYOUTCOME + '''
from pathlib import Path, PurePosixPath
import numpy as np, pandas
IDX, REP = SA_SYM("idx", "int"), SA_SYM("rep", "int")
R, D = SA_PATH("/x/r.nxs"), SA_PATH("d.csv")
LO, HI = SA_SYM("lo", "float"), SA_SYM("hi", "float")
md = {"Q": [SA_SYM("Q", "array")], "I": SA_SYM("I", "array"), "ISigma": SA_SYM("s", "array")}
args = dict(modelName="sphere", nContrib=2, fitParameterLimits={"radius": [LO, HI]}, staticParameters={"sld": SA_SYM("sld", "float")}, seed=SA_SYM("seed", "int"))
def table():
    return pandas.DataFrame({"Q": SA_SYM("A", "array"), "I": SA_SYM("B", "array"), "ISigma": SA_SYM("C", "array")})
'''
YAML = '''
SA_YAML(SA_PATH("read.yaml"), lambda: {"nbins": 100, "csvargs": {"sep": ";", "header": None, "names": ["Q", "I", "ISigma"]}, "dataRange": [0.0, 1.0]})
SA_YAML(SA_PATH("run.yaml"), lambda: {"modelName": "sphere", "nContrib": 2, "modelDType": "fast", "fitParameterLimits": {"radius": [LO, HI]}, "staticParameters": {"sld": 1., "sld_solvent": 2.}, "maxIter": 100, "convCrit": 1, "nRep": 2, "nCores": NCORES})
SA_YAML(SA_PATH("hist.yaml"), lambda: [dict(parameter="radius", nBin=3, binScale="log", presetRangeMin=LO, presetRangeMax=HI, binWeighting="vol", autoRange=False)])
from mcsas3 import mc_plot
class NoPlot:
    def resultCard(self, *a, **k):
        pass
mc_plot.McPlot = NoPlot
'''
CLIRUN = HEAD + YAML + '''
from mcsas3 import mcsas3_cli_runner
SA_ARGV({"-f": "d.csv", "-F": "read.yaml", "-R": "run.yaml", "-r": "/x/r.nxs", OPT: IDX})
SA_MARK("access")
mcsas3_cli_runner.main()
SA_MARK("end")
'''
CLIHIST = 'IDX = SA_SYM("idx", "int")\n' + RUN.split("a = McAn")[0].replace("REPS", "[0, 1]").replace("INDEX", "IDX").replace('"f.nxs"', '"/x/r.nxs"') + '''
from mcsas3.mc_data_1d import McData1D
R = f
import pandas
d = McData1D(df=pandas.DataFrame({"Q": SA_SYM("A", "array"), "I": SA_SYM("B", "array"), "ISigma": SA_SYM("C", "array")}), nbins=0, resultIndex=IDX)
d.store(f)
''' + YAML + '''
from mcsas3 import mcsas3_cli_histogrammer
SA_ARGV({"-r": "/x/r.nxs", "-H": "hist.yaml", OPT: IDX})
SA_MARK("access")
mcsas3_cli_histogrammer.main()
SA_MARK("end")
'''
USES = {
    "storing a model": '''
from mcsas3.mc_model import McModel
m = McModel(resultIndex=IDX, **args)
SA_MARK("access")
m.store(R, REP)
''',
    "loading a model": '''
from mcsas3.mc_model import McModel
SA_MARK("access")
m = McModel(loadFromFile=R, loadFromRepetition=REP, resultIndex=IDX)
''',
    "storing the optimisation state": '''
from mcsas3.mc_opt import McOpt
o = McOpt(maxIter=3, resultIndex=IDX)
SA_MARK("access")
o.store(R)
''',
    "loading the optimisation state": '''
from mcsas3.mc_opt import McOpt
SA_MARK("access")
o = McOpt(loadFromFile=R, loadFromRepetition=REP, resultIndex=IDX)
''',
    "storing a repetition": '''
from mcsas3.mc_model import McModel
from mcsas3.mc_opt import McOpt
from mcsas3.mc_core import McCore
m = McModel(resultIndex=IDX, **args)
o = McOpt(maxIter=3, resultIndex=IDX)
o.repetition = REP
c = McCore(md, model=m, opt=o, resultIndex=IDX)
SA_MARK("access")
c.store(R)
''',
    "loading a repetition": '''
from mcsas3.mc_core import McCore
SA_MARK("access")
c = McCore(md, loadFromFile=R, loadFromRepetition=REP, resultIndex=IDX)
''',
    "storing 1D data": '''
from mcsas3.mc_data_1d import McData1D
d = McData1D(df=table(), resultIndex=IDX)
SA_MARK("access")
d.store(R)
''',
    "loading 1D data": '''
from mcsas3.mc_data_1d import McData1D
SA_MARK("access")
d = McData1D(loadFromFile=R, resultIndex=IDX)
''',
    "storing 2D data": '''
from mcsas3.mc_data_2d import McData2D
d = McData2D(resultIndex=IDX)
SA_MARK("access")
d.store(R)
''',
    "storing the run settings": '''
from mcsas3.mc_hat import McHat
h = McHat(resultIndex=IDX, **args)
SA_MARK("access")
h.store(R)
''',
    "loading the run settings": '''
from mcsas3.mc_hat import McHat
SA_MARK("access")
h = McHat(loadFromFile=R, resultIndex=IDX)
''',
    "a run": '''
from mcsas3.mc_hat import McHat
h = McHat(resultIndex=IDX, nRep=2, nCores=1, **args)
SA_MARK("access")
h.run(md, R)
''',
    "a run with an index of its own": '''
from mcsas3.mc_hat import McHat
h = McHat(resultIndex=SA_SYM("other", "int"), nRep=2, nCores=1, **args)
SA_MARK("access")
h.run(md, R, resultIndex=IDX)
''',
    "a run in worker processes": '''
from mcsas3.mc_hat import McHat
h = McHat(resultIndex=IDX, nRep=3, nCores=2, **args)
SA_MARK("access")
h.run(md, R)
''',
    "a run in worker processes with an index of its own": '''
from mcsas3.mc_hat import McHat
h = McHat(resultIndex=SA_SYM("other", "int"), nRep=3, nCores=2, **args)
SA_MARK("access")
h.run(md, R, resultIndex=IDX)
''',
    "one repetition": '''
from mcsas3.mc_hat import McHat
h = McHat(resultIndex=IDX, nRep=2, nCores=1, **args)
SA_MARK("access")
h.runOnce(md, R, REP, resultIndex=IDX)
''',
    "two runs in turn": '''
from mcsas3.mc_hat import McHat
h = McHat(resultIndex=SA_SYM("other", "int"), nRep=1, nCores=1, **args)
h.run(md, R)
SA_MARK("access")
h.run(md, R, resultIndex=IDX)
''',
}
ACCESS = {"h5absent", "h5missing", "h5read", "h5write", "h5delete", "h5attrwrite", "h5attr"}


def related(g, t):
    """does this condition say anything of what the term is made of?"""
    return any(has(g, s) for s in syms(t))


def branch(cx, e, rule, file="/x/r.nxs"):
    """every access to the result file lies in the branch of the index"""
    n = b = 0
    want = strcat(const("MCResult"), mk("call", "str", IDX))
    for x in section(e, "access", "end"):
        if x.kind in ACCESS and any(x.file is t or x.file is mk("call", "absolute", t) or x.file is mk("call", "resolve", t) for t in (mk("P", const(file)),)):
            n += 1
            cs = components(x.path)
            if len(cs) == 1 and cstr(cs[0]) and cval(cs[0]) == "analyses" and x.kind in ("h5absent", "h5missing", "h5attr", "h5attrwrite"):
                continue
            text = f"{e.name}: {x.kind[2:]} of {show(x.path, 5)[:150]}"
            if not cs or not cstr(cs[0]):
                cx.und(rule, text, x.pos)
            elif cval(cs[0]) != "analyses" or len(cs) < 2:
                cx.bad(rule, text + " is not in the branch of a result", x.pos)
            else:
                r = compare(cs[1], want, x.guard)
                if r.status == "undecided":
                    r2 = compare(cs[1], want, [g for g in x.guard if related(g, cs[1])])
                    r = r2 if r2.status == "bad" and live(x) else r
                if r.status == "ok":
                    cx.ok(rule, pos=x.pos)
                elif r.status == "bad":
                    b = cx.bad(rule, text + " is in the branch of another index", x.pos) or 1
                else:
                    cx.und(rule, text + ": " + r.why, x.pos)
    if b:
        return
    if not n or e.unmodelled & {"name IDX"} or not driven(e, "end") and "pool" not in e.src:
        cx.und(rule, f"{e.name}: no access to the result file was seen")


def check(cx):
    for n, src in USES.items():
        e = cx.drive(n, HEAD + src + 'SA_MARK("end")\n', STUBS)
        if e is not None:
            branch(cx, e, "everything lies in the branch of the result index")
    for nc in (1, 2):
        for opt in ('"-i"',) if nc == 1 else ('"--resultIndex"',):
            e = cx.drive(f"the command line, {nc} threads", CLIRUN.replace("OPT", opt).replace("NCORES", str(nc)), STUBS)
            if e is not None:
                branch(cx, e, "the index of the command line reaches every part")
    for opt in ('"-i"', '"--resultIndex"'):
        e = cx.drive("the histogrammer's command line " + opt, CLIHIST.replace("OPT", opt), STUBS)
        if e is not None:
            branch(cx, e, "the index of the command line reaches every part")
    e = cx.drive("an analysis", RUN.split("def after")[0].replace("REPS", "[0, 1]").replace("INDEX", 'SA_SYM("idx", "int")').replace("a = McAn", 'SA_MARK("access")\na = McAn').replace("store=False", "store=True") + 'SA_MARK("end")\n', STUBS)
    if e is not None:
        branch(cx, e, "everything lies in the branch of the result index", "f.nxs")
