"""C10: storing never damages other content, reading never writes."""
import ast

from ..check import fmtpath
from ..decide import compare, feasible, guardpaths
from .c06 import dotted
from .c09 import HEAD, VALUES
from .c27 import RUN
from .common import *  # noqa: F403

# content of the file that has nothing to do with what is stored
FOREIGN = ["/a/b/foreign", "/a/foreign", "/a/b/kk", "/a/b/k2/foreign", "/foreign", "/k"]


def put(names):
    """driver code that places these entries in the file f"""
    return "import h5py\nwith h5py.File(f, 'a') as h5:\n" + "".join(f"    h5.create_dataset({n!r}, data=SA_SYM({'foreign' + n!r}, 'num'))\n" for n in names)


KV = HEAD + '''
SA_FRESH(f)
''' + put(FOREIGN) + '''
{before}
SA_MARK("store")
storeKV(f, P / "k", {value})
SA_MARK("stored")
'''
ANYFILE = HEAD + '''
SA_MARK("store")
storeKV(f, P / "k", {value})
SA_MARK("stored")
'''
PAIRS = HEAD + '''
SA_FRESH(f)
''' + put(FOREIGN + ["/a/b/k/foreign"]) + '''
SA_MARK("store")
storeKVPairs(f, P / "k", [("one", X), ("two", A), ("three", None), ("four", S), ("five", {"lo": X})])
SA_MARK("stored")
'''

ENTRY = "/analyses/MCResult1"
# a file with the original data, two results of three repetitions each, and somebody else's notes
OTHERS = ["/entry/data/I", "/foreign", "/analyses/foreign"] + [
    f"/analyses/MCResult{i}/{n}"
    for i in (1, 2, 11)
    for n in ("foreign", "mcdata/rawData/Q", "mcdata/nbins", "mcdata/foreign", "model/foreign", "model/modelName", "model/fitParameterLimits/radius", "optimization/foreign", "optimization/nRep", "histograms/foreign")
    + tuple(f"{a}/repetition{r}/{b}" for r in (0, 1, 10) for a, b in (("model", "parameterSet/data"), ("model", "volumes"), ("model", "seed"), ("optimization", "gof"), ("optimization", "acceptedSteps"), ("histograms/histRange0", "hist"), ("histograms/histRange1", "mean")))
    + ("histograms/histRange0/average/xMean", "histograms/histRange0/parameter", "optimization/average/gof/valMean")
]
BASE = '''
import numpy as np, pandas
from pathlib import Path, PurePosixPath
f = SA_PATH("f.nxs")
g = SA_PATH("g.nxs")
SA_FRESH(f)
LO, HI = SA_SYM("lo", "float"), SA_SYM("hi", "float")
X, I, A = SA_SYM("x", "float"), SA_SYM("i", "int"), SA_SYM("A", "array")
''' + put(OTHERS)
MODELSRC = '''
from mcsas3.mc_model import McModel
m = McModel(modelName="sphere", nContrib=2, fitParameterLimits={"radius": [LO, HI]}, staticParameters={"sld": X}, seed=I, resultIndex=1)
'''
OPTSRC = '''
from mcsas3.mc_opt import McOpt
o = McOpt(maxIter=I, resultIndex=1)
o.repetition = 1
'''
COREMD = 'md = {"Q": [SA_SYM("Q", "array")], "I": SA_SYM("I", "array"), "ISigma": SA_SYM("s", "array")}\n'
# name: (source, what it may replace)
OBJECTS = {
    "the optimisation state": (OPTSRC + 'SA_MARK("store")\no.store(f, PurePosixPath("/analyses/MCResult1/optimization/repetition1"))\n', ["optimization/repetition1"]),
    "the model": (MODELSRC + 'SA_MARK("store")\nm.store(f, 1)\n', ["model/repetition1", "model/modelName", "model/fitParameterLimits", "model/staticParameters"]),
    "1D data": ('''
from mcsas3.mc_data_1d import McData1D
d = McData1D(df=pandas.DataFrame({"Q": A, "I": SA_SYM("B", "array"), "ISigma": SA_SYM("C", "array")}), nbins=I, resultIndex=1)
SA_MARK("store")
d.store(f)
''', ["mcdata/"]),
    "a repetition": (COREMD + MODELSRC + OPTSRC + '''
from mcsas3.mc_core import McCore
c = McCore(md, model=m, opt=o, resultIndex=1)
SA_MARK("store")
c.store(f)
''', ["model/repetition1", "model/modelName", "model/fitParameterLimits", "model/staticParameters", "optimization/repetition1"]),
    "the run settings": (COREMD + '''
from mcsas3.mc_hat import McHat
h = McHat(modelName="sphere", nContrib=2, fitParameterLimits={"radius": [LO, HI]}, staticParameters={"sld": X}, nRep=2, resultIndex=1)
SA_MARK("store")
h.store(f)
''', ["optimization/nRep", "optimization/nCores", "optimization/modelArgs", "optimization/optArgs"]),
    "a run": (ANYOUTCOME + COREMD + '''
from mcsas3.mc_hat import McHat
h = McHat(modelName="sphere", nContrib=2, fitParameterLimits={"radius": [LO, HI]}, staticParameters={"sld": X}, nRep=2, nCores=1, resultIndex=1)
SA_MARK("store")
h.run(md, f)
''', ["model/repetition0", "model/repetition1", "model/modelName", "model/fitParameterLimits", "model/staticParameters", "optimization/repetition0", "optimization/repetition1", "optimization/nRep", "optimization/nCores", "optimization/modelArgs", "optimization/optArgs"]),
}
STORED = ANYOUTCOME + COREMD + '''
from mcsas3.mc_hat import McHat
from mcsas3.mc_core import McCore
from mcsas3.mc_opt import McOpt
from mcsas3.mc_model import McModel
f = SA_PATH("f.nxs")
SA_FRESH(f)
LO, HI = SA_SYM("lo", "float"), SA_SYM("hi", "float")
h = McHat(modelName="sphere", nContrib=2, fitParameterLimits={"radius": [LO, HI]}, staticParameters={"sld": SA_SYM("sld", "float")}, nRep=2, nCores=1, resultIndex=1)
h.run(md, f)
SA_MARK("read")
{read}
SA_MARK("end")
'''
DATA1D = '''
from pathlib import Path, PurePosixPath
import pandas
from mcsas3.mc_data_1d import McData1D
f = SA_PATH("f.nxs")
{before}
SA_MARK("read")
{read}
SA_MARK("end")
'''
ANALYSIS = RUN.split("def after")[0].replace("REPS", "[0, 1]").replace("INDEX", "1").replace("a = McAn", 'NAMES\nSA_MARK("store")\na = McAn')
NOTRESULT = [n for n in OTHERS if not n.startswith("/analyses/MCResult1/") or n.endswith("foreign")]
READERS = {
    "a model": STORED.replace("{read}", "McModel(loadFromFile=f, loadFromRepetition=1, resultIndex=1)"),
    "a stored optimisation state": STORED.replace("{read}", "McOpt(loadFromFile=f, loadFromRepetition=1, resultIndex=1)"),
    "a repetition": STORED.replace("{read}", "McCore(md, loadFromFile=f, loadFromRepetition=1, resultIndex=1)"),
    "a repetition as text": STORED.replace("{read}", "McCore(md, loadFromFile=str(f), loadFromRepetition=0)"),
    "the run settings": STORED.replace("{read}", "McHat(loadFromFile=f)"),
    "1D data of a result": DATA1D.format(before='''SA_FRESH(f)
d = McData1D(df=pandas.DataFrame({"Q": SA_SYM("A", "array"), "I": SA_SYM("B", "array"), "ISigma": SA_SYM("C", "array")}), nbins=0, resultIndex=1)
d.store(f)''', read="McData1D(loadFromFile=f)"),
    "1D data from a NeXus file": DATA1D.format(before="", read='McData1D(filename=Path("d.nxs"), nbins=0)'),
    "entries": HEAD + '''
SA_MARK("read")
loadKV(f, P / "k")
loadKV(f, P / "k", datatype="str", default=S)
loadKV(f, P / "k", datatype="dict", default=None)
loadKV(f, P / "k", datatype="dictToPandas", default=None)
loadKV(f, P / "k", datatype=float)
a = list(loadKVPairs(f, P, ["one", "two"]))
SA_MARK("end")
''',
    "the optimisation state": '''
from mcsas3.mc_opt import McOpt
f = SA_PATH("f.nxs")
SA_MARK("read")
o = McOpt(loadFromFile=f, loadFromRepetition=2, resultIndex=3)
SA_MARK("end")
''',
}


def openmode(cx, e, x):
    rule = "an existing file is opened for update, never truncated"
    for m, g in leaves(x.mode, tuple(x.guard)):
        ps = [p for p in guardpaths(g)[0] if feasible(p)]
        if not ps:
            continue
        new = any(c.op == "call" and "exists" in str(c.a[0]) or "exists" in show(c, 2) or "isfile" in show(c, 2) for p in ps for c, v in p)
        if m.op != "const":
            cx.und(rule, f"{e.name}: mode {show(m, 3)[:80]}", x.pos)
        elif cval(m) in ("r", "r+", "a", "w-", "x"):
            cx.ok(rule, pos=x.pos)
        elif new:
            cx.und(rule, f"{e.name}: mode {cval(m)!r}, perhaps only for a new file", x.pos)
        else:
            cx.bad(rule, f"{e.name}: {show(x.file, 3)[:60]} is opened with mode {cval(m)!r} where {fmtpath(ps[0])}", x.pos)


def leaves(t, g=()):
    if t.op == "gamma":
        return leaves(t.a[1], g + (t.a[0],)) + leaves(t.a[2], g + (neg(t.a[0]),))
    return [(t, g)]


def untouched(cx, e, rule, own, start="store", end="stored"):
    """only entries below `own` were written or removed"""
    if start not in e.marks:
        cx.und(rule, f"{e.name}: the store was not reached")
        return
    before, after = e.marks[start], e.marks.get(end)
    own = [tuple(p.strip("/").split("/")) for p in own]

    def mine(p):
        cs = components(p)
        n = next((i for i, c in enumerate(cs) if not cstr(c)), len(cs))
        cs = tuple(cval(c) for c in cs[:n])
        if any(len(o) <= n and cs[: len(o)] == o for o in own):
            return True
        if n < len(components(p)) and any(o[:n] == cs for o in own):
            return None
        return False

    n = 0
    for x in section(e, start, end):
        if x.kind == "h5open" and live(x):
            n += 1
            openmode(cx, e, x)
        elif x.kind == "unlink" and live(x):
            cx.bad(rule, f"{e.name}: {show(x.path, 4)[:100]} is deleted", x.pos)
        elif x.kind in WRITING and live(x):
            r = mine(x.path)
            if r:
                cx.ok(rule, pos=x.pos)
            elif r is None:
                cx.und(rule, f"{e.name}: {x.kind[2:]} of {show(x.path, 4)[:120]}", x.pos)
            elif x.kind == "h5delete" and not any(k[1] is x.file and under(k[2], x.path) and v is not ABSENT for k, v in before.items()):
                cx.ok(rule, pos=x.pos)
            else:
                cx.bad(rule, f"{e.name}: {x.kind[2:]} of {show(x.path, 4)[:120]}, which is not what is stored", x.pos)
    if not n:
        cx.und(rule, f"{e.name}: no access to a file was seen")
    if not before and "foreign" in e.src:
        cx.und(rule, f"{e.name}: the file has no other content")
    if after is None:
        cx.und(rule, f"{e.name}: the end of the store was not reached")
        return
    for k, v in before.items():
        if mine(k[2]) is False:
            w = after.get(k)
            same = w is v or w is not None and compare(w, v).status == "ok"
            if same:
                cx.ok("other content is the same afterwards")
            else:
                r = compare(w, v).status if w is not None else "bad"
                if r == "bad":
                    cx.bad("other content is the same afterwards", f"{e.name}: {show(k[2], 3)} is {show(w, 4)[:100] if w is not None else 'gone'} afterwards", e.curpos)
                else:
                    cx.und("other content is the same afterwards", f"{e.name}: {show(k[2], 3)}")


def under(p, q):
    a, b = components(p), components(q)
    return a[: len(b)] == b


def modes(cx):
    """every place that opens an HDF5 file"""
    n = 0
    for path, mod, tree in modules(cx):
        names = imports(tree)
        for c in ast.walk(tree):
            if isinstance(c, ast.Call) and dotted(c.func, names) == "h5py.File":
                n += 1
                m = c.args[1] if len(c.args) > 1 else next((k.value for k in c.keywords if k.arg == "mode"), None)
                pos = (path, c.lineno)
                if m is None or isinstance(m, ast.Constant) and m.value in ("r", "r+", "a"):
                    cx.ok("every HDF5 file is opened for reading or update", pos=pos)
                elif isinstance(m, ast.Constant) and m.value == "w":
                    cx.bad("every HDF5 file is opened for reading or update", "mode 'w' truncates an existing file", pos)
                else:
                    cx.und("every HDF5 file is opened for reading or update", "this mode is not known here", pos)
    cx.scanned.append(f"{n} places that open an HDF5 file")


def check(cx):
    rule = "storing an entry changes only this entry"
    for n, (v, want, how) in VALUES.items():
        for m, b in (("as a new entry", ""), ("over a number", 'storeKV(f, P / "k", Y)'), ("over an array", 'storeKV(f, P / "k", C)')):
            e = cx.drive(f"{n} {m}", KV.format(before=b, value=v))
            if e is not None:
                untouched(cx, e, rule, ["/a/b/k"])
        e = cx.drive(f"{n} in any file", ANYFILE.format(value=v))
        if e is not None:
            untouched(cx, e, rule, ["/a/b/k"])
    for n, v in (("a dict", "{'one': X, 'two': A}"), ("a table", "pandas.DataFrame({'one': A, 'two': C})")):
        for m, b in (("as a new entry", ""), ("over a dict", 'storeKV(f, P / "k", {"one": X, "three": Y})')):
            e = cx.drive(f"{n} {m}", KV.format(before=b, value=v))
            if e is not None:
                untouched(cx, e, rule, ["/a/b/k"])
    for n, p in (("a file of any name", 'SA_SYM("filename", "path")'), ("a file name as text", 'SA_SYM("filename", "str")')):
        e = cx.drive(n, ANYFILE.format(value="X").replace('SA_PATH("f.nxs")', p))
        if e is not None:
            untouched(cx, e, rule, ["/a/b/k"])
    e = cx.drive("nothing", KV.format(before='storeKV(f, P / "k", Y)', value="None"))
    if e is not None:
        untouched(cx, e, rule, ["/a/b/k"])
    e = cx.drive("pairs", PAIRS)
    if e is not None:
        untouched(cx, e, rule, ["/a/b/k/" + k for k in ("one", "two", "three", "four", "five/lo")])
    for n, (src, own) in OBJECTS.items():
        e = cx.drive("storing " + n, BASE + src + 'SA_MARK("stored")\n', STUBS)
        if e is not None:
            untouched(cx, e, "storing a result changes only this result", [f"{ENTRY}/{o}" for o in own])
    for n, src in READERS.items():
        e = cx.drive("reading " + n, src, STUBS)
        if e is not None:
            if driven(e, "end"):
                readonly(cx, e, "what only reads opens the file read-only", "read", "end")
            else:
                cx.und("what only reads opens the file read-only", f"{n}: the end was not reached")
    src = ANALYSIS.replace("NAMES", put(NOTRESULT))
    e = cx.drive("an analysis that stores", src.replace("store=False", "store=True") + 'SA_MARK("stored")\n', STUBS)
    if e is not None:
        untouched(cx, e, "storing a result changes only this result", [f"{ENTRY}/histograms/histRange0", f"{ENTRY}/histograms/histRange1", f"{ENTRY}/optimization/average"])
    e = cx.drive("an analysis that does not store", src + 'SA_MARK("stored")\n', STUBS)
    if e is not None:
        untouched(cx, e, "storing a result changes only this result", [])
        readonly(cx, e, "what only reads opens the file read-only", "store", "stored")
    modes(cx)
