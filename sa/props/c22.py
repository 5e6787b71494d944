"""C22: the command line tools never delete data the user did not give up."""
from ..decide import compare
from ..norm import norm
from ..terms import *  # noqa: F403
from .common import *  # noqa: F403
from .common import mk

# everything behind the command line, replaced by stand-ins that only mark that they were used
STAND = '''
from pathlib import Path
from mcsas3.mc_data_1d import McData1D
from mcsas3.mc_hat import McHat
from mcsas3.mc_analysis import McAnalysis
from mcsas3.mc_plot import McPlot
D, R, RC, OC, HC = SA_SYM("data", "str"), SA_SYM("result", "str"), Path("read.yaml"), Path("run.yaml"), Path("hist.yaml")
for c in (RC, OC, HC, Path(D)):
    SA_THERE(c)
def data(self, *a, **k):
    self.measData = {"Q": [SA_SYM("Q", "array")], "I": SA_SYM("I", "array"), "ISigma": SA_SYM("s", "array")}
McData1D.__init__ = data
McData1D.store = lambda self, *a, **k: SA_MARK("store")
McHat.__init__ = lambda self, *a, **k: None
McHat.run = lambda self, *a, **k: SA_MARK("run")
McAnalysis.__init__ = lambda self, *a, **k: SA_MARK("analysis")
McPlot.__init__ = lambda self, *a, **k: None
McPlot.resultCard = lambda self, *a, **k: SA_MARK("plot")
for c in (RC, RC.absolute()):
    SA_YAML(c, lambda: {"nbins": 3})
for c in (OC, OC.absolute()):
    SA_YAML(c, lambda: {"nRep": 2})
for c in (HC, HC.absolute()):
    SA_YAML(c, lambda: [{"parameter": "radius"}])
'''
DEL = 'SA_SYM("delete", "bool")'
OPTIONS = '"--dataFile": D, "--resultFile": R, "--readConfigFile": "read.yaml", "--runConfigFile": "run.yaml"'
OBJECT = "dataFile=Path(D), resultFile=Path(R), readConfigFile=RC, runConfigFile=OC, resultIndex=SA_SYM('index', 'int'), nThreads=SA_SYM('threads', 'int')"
RUNS = {  # name: (source, deletion requested, histograms)
    "optimize, deletion requested": ('SA_ARGV({' + OPTIONS + ', "--deleteIfExists": True})\nfrom mcsas3.mcsas3_cli_runner import main\nmain()\n', TRUE, False),
    "optimize, short options": ('SA_ARGV({"-f": D, "-r": R, "-F": "read.yaml", "-R": "run.yaml", "-d": True})\nfrom mcsas3.mcsas3_cli_runner import main\nmain()\n', TRUE, False),
    "optimize, no deletion requested": ('SA_ARGV({' + OPTIONS + '})\nfrom mcsas3.mcsas3_cli_runner import main\nmain()\n', FALSE, False),
    "optimize from Python": (f"from mcsas3.cli_tools import McSAS3_cli_optimize\nMcSAS3_cli_optimize(deleteIfExists={DEL}, {OBJECT})\n", sym("delete", "bool"), False),
    "optimize from Python, the same path": (f"from mcsas3.cli_tools import McSAS3_cli_optimize\nMcSAS3_cli_optimize(deleteIfExists={DEL}, {OBJECT.replace('Path(R)', 'Path(D)')})\n", sym("delete", "bool"), False),
    "optimize from Python, with threads": (f"from mcsas3.cli_tools import McSAS3_cli_optimize\nMcSAS3_cli_optimize(deleteIfExists=True, {OBJECT})\n", TRUE, False),
    "histogram": ('SA_ARGV({"--resultFile": R, "--histConfigFile": "hist.yaml"})\nfrom mcsas3.mcsas3_cli_histogrammer import main\nmain()\n', FALSE, True),
    "histogram from Python": ("from mcsas3.cli_tools import McSAS3_cli_histogram\nMcSAS3_cli_histogram(resultFile=Path(R), histConfigFile=HC, resultIndex=SA_SYM('index', 'int'))\n", FALSE, True),
    "both, deletion requested": ('SA_ARGV({' + OPTIONS + ', "--histConfigFile": "hist.yaml", "--deleteIfExists": True})\nimport mcsas3.__main__\n', TRUE, True),
    "both, no deletion requested": ('SA_ARGV({' + OPTIONS + ', "--histConfigFile": "hist.yaml"})\nimport mcsas3.__main__\n', FALSE, True),
}
ALIKE = ("absolute", "resolve", "expanduser", "os.path.abspath", "os.path.realpath", "deref")


def plainpath(t):
    """the path as it was given"""
    while t.op == "call" and t.a[0] in ALIKE and len(t.a) == 2:
        t = t.a[1]
    return t


def samefiles(t):
    """comparing paths with all links followed is comparing files"""
    def one(x):
        if x.op == "cmp" and x.a[0] == "==" and all(y.op == "call" and y.a[0] in ("resolve", "os.path.realpath") for y in x.a[1:]):
            return SAME
        if x.op == "call" and x.a[0] == "samefile":
            return SAME if {plainpath(norm(y)) for y in x.a[1:]} == {RESULT, DATA} else TRUE if len({plainpath(norm(y)) for y in x.a[1:]}) == 1 else x
        if x.op == "cmp" and x.a[0] == "==" and {pathof(y) for y in x.a[1:]} == {RESULT, DATA}:
            return FALSE  # the same file, its path written in another way
        if x.op == "call" and x.a[0] in ("isfile", "exists"):
            return TRUE  # all the files are there
        if x.op == "call" and x.a[0] == "isdir":
            return FALSE
        return x

    return transform(t, one)


SAME = sym("the result file is the data file", "bool")
RESULT, DATA = mk("P", sym("result", "str")), mk("P", sym("data", "str"))


def pathof(t):
    t = plainpath(norm(t))
    return t


def check(cx):
    for name, (src, wanted, hist) in RUNS.items():
        e = cx.drive(name, STAND + src)
        if e is None:
            continue
        same = "same path" in name
        n = 0
        last = {}
        for x in e.events:
            last.setdefault(x.name if x.kind == "mark" else x.kind, x)
            if x.kind == "h5open" and x.mode.op == "const" and cval(x.mode) == "r":
                continue
            if x.kind not in ("unlink", "h5open", "os", "open") or not live(x):
                continue
            if x.kind == "open" and not set(str(cval(x.mode)) if x.mode.op == "const" else "w") & set("wx"):
                continue
            if x.kind == "h5open" and x.mode.op == "const" and cval(x.mode) in ("a", "r+", "x", "w-"):
                continue
            if x.kind == "os":
                if x.fn.split(".")[-1] not in ("replace", "rename", "move", "truncate", "removedirs", "rmdir", "renames", "system", "run", "call", "Popen", "check_call"):
                    continue
                cx.und("nothing else is deleted", f"{name}: {x.fn}")
                continue
            n += 1
            p = plainpath(x.path if x.kind in ("unlink", "open") else x.file)
            q = pathof(p)
            what = f"{name}: {show(p, 4)[:100]} is deleted"
            if x.kind != "unlink":
                what = f"{name}: {show(p, 4)[:100]} is opened for writing anew"
            if q is RESULT or same and q is DATA:
                g = [samefiles(c) for c in x.guard]
                rule = "the result file is deleted on request only"
                verdict(cx, compare(wanted, TRUE, g), rule, what + " without the request", x.pos)
                rule = "the data file is not deleted"
                verdict(cx, compare(neg(TRUE if same else SAME), TRUE, g), rule, what + " though it may be the data file", x.pos)
                rule = "nothing is deleted after it was written"
                done = [y for y in e.events if y.kind == "mark" and y.name in ("store", "run", "analysis") and y.t < x.t] if hasattr(x, "t") else [y for y in e.events[: e.events.index(x)] if y.kind == "mark" and y.name in ("store", "run", "analysis") and live(y)]
                cx.require(rule, not done, what + " after the " + (done[0].name if done else ""), x.pos)
            elif hist and isplot(p):
                cx.ok("nothing else is deleted", pos=x.pos)
            elif has_op(p, "unk", "loopval", "mu", "elem") or any(s.op == "call" and s.a[0] in ("glob", "rglob", "iterdir", "os.listdir", "glob.glob") for s in walk(p)):
                cx.bad("nothing else is deleted", what, x.pos)
            elif any(s.op == "sym" for s in walk(p)):
                cx.bad("nothing else is deleted", what, x.pos)
            else:
                cx.und("nothing else is deleted", what, x.pos)
        if not any(x.kind == "mark" and x.name in ("run", "plot") for x in e.events):
            why = e.uncaught[-1] if e.uncaught else None
            cx.und("the run", f"{name}: did not get to the end ({why[1] if why else 'no path'})")
        elif not n:
            cx.ok("nothing else is deleted")


def isplot(p):
    """the result file with the suffix of the plot"""
    if p.op == "call" and p.a[0] == "with_suffix":
        return pathof(p.a[1]) is RESULT and p.a[2] is const(".pdf")
    if p.op == "P" and p.a[0].op == "strcat" and len(p.a[0].a) == 4:
        d, sep, stem, suf = p.a[0].a
        where = d.op == "call" and d.a[0] == "parent" and pathof(d.a[1]) is RESULT
        name = stem.op == "call" and stem.a[0] == "str" and stem.a[1].op == "attr" and stem.a[1].a[1] == "stem" and pathof(stem.a[1].a[0]) is RESULT
        return where and sep is const("/") and name and suf is const(".pdf")
    return False


def verdict(cx, r, rule, text, pos):
    cx.require(rule, {"ok": True, "bad": False}.get(r.status), text + (f": {r.why}" if r.status == "undecided" else ""), pos)


HOW = "the command line tools are analysed for unknown paths and options; the condition of every deletion is compared with the request and with the identity of the files"
