"""C24: automatic limits span the sizes that the data can resolve."""
from .common import *  # noqa: F403

HEAD = '''
import numpy as np
from mcsas3.mc_core import McCore
from mcsas3.mc_hat import McHat
f = SA_PATH("f.nxs")
SA_FRESH(f)
def data(n):
    return {"Q": [SA_SYM("Q" + n, "array")], "I": SA_SYM("I" + n, "array"), "ISigma": SA_SYM("s" + n, "array")}
M1, M2 = data("1"), data("2")
M3 = {"Q": [SA_SYM("Q3a", "array"), SA_SYM("Q3b", "array")], "I": SA_SYM("I3", "array"), "ISigma": SA_SYM("s3", "array")}
LO, HI = SA_SYM("lo", "float"), SA_SYM("hi", "float")
if not np.min(M1["Q"][0]) > 0:
    raise SystemExit
if not np.min(M2["Q"][0]) > 0:
    raise SystemExit
if not min(np.min(M3["Q"][0]), np.min(M3["Q"][1])) > 0:
    raise SystemExit
if not len(M1["I"]) > 0:
    raise SystemExit
if not len(M2["I"]) > 0:
    raise SystemExit
if not len(M3["I"]) > 0:
    raise SystemExit
NOW = {}
def optimize(self):
    L = self._model.fitParameterLimits
    Q = NOW["md"]["Q"]
    big, small = max([np.max(q) for q in Q]), min([np.min(q) for q in Q])
    for p in L:
        lo, hi = NOW["limits"][p] if p in NOW["limits"] else (np.pi / big, np.pi / small)
        SA_EQ("lower limit", L[p][0], lo)
        SA_EQ("upper limit", L[p][1], hi)
        SA_EQ("two limits", len(L[p]), 2)
    SA_EQ("the limits are those of the given parameters", list(L), NOW["names"])
McCore.optimize = optimize
McCore.store = McHat.store = lambda self, *a, **k: None
def hat(limits, **k):
    NOW["names"] = list(limits)
    return McHat(modelName="sphere", nContrib=2, fitParameterLimits=limits, staticParameters={"sld": SA_SYM("sld", "float")}, seed=SA_SYM("seed", "int"), maxIter=SA_SYM("maxIter", "int"), **k)
def run(h, md, limits, *a):
    NOW["md"] = md
    NOW["limits"] = limits
    h.run(md, f, *a)
'''
GIVEN = {
    "one automatic": ('{"radius": "auto"}', "{}"),
    "two automatic": ('{"radius": "auto", "length": "auto"}', "{}"),
    "an explicit and an automatic one": ('{"radius": [LO, HI], "length": "auto"}', '{"radius": (LO, HI)}'),
    "an automatic and an explicit one": ('{"radius": "auto", "length": (LO, HI)}', '{"length": (LO, HI)}'),
    "two explicit": ('{"radius": [LO, HI], "length": [2 * LO, 3 * HI]}', '{"radius": (LO, HI), "length": (2 * LO, 3 * HI)}'),
    "an automatic between explicit ones": ('{"radius": [LO, HI], "length": "auto", "size": [2 * LO, 3 * HI]}', '{"radius": (LO, HI), "size": (2 * LO, 3 * HI)}'),
}
RUNS = {
    "two-dimensional data": "h = hat(G, nRep={n}, nCores={c})\nrun(h, M3, W)\nrun(h, M1, W)\n",
    "one run": "run(hat(G, nRep={n}, nCores={c}), M1, W)\n",
    "two runs": "h = hat(G, nRep={n}, nCores={c})\nrun(h, M1, W)\nrun(h, M2, W)\n",
    "a run for another result index": "h = hat(G, nRep={n}, nCores={c})\nrun(h, M1, W)\nrun(h, M2, W, 2)\nrun(h, M1, W, 1)\n",
    "two objects from the same limits": "h = hat(G, nRep={n}, nCores={c})\ng = hat(G, nRep={n}, nCores={c})\nrun(h, M1, W)\nrun(g, M2, W)\nrun(h, M2, W)\n",
    "an object for each data, from the same limits": "run(hat(G, nRep={n}, nCores={c}), M1, W)\nrun(hat(G, nRep={n}, nCores={c}), M2, W)\n",
}
REFUSED = '''
import numpy as np
from mcsas3.mc_core import McCore
from mcsas3.mc_hat import McHat
f = SA_PATH("f.nxs")
SA_FRESH(f)
md = {{"Q": [SA_SYM("Q", "array")], "I": SA_SYM("I", "array"), "ISigma": SA_SYM("s", "array")}}
LO, HI = SA_SYM("lo", "float"), SA_SYM("hi", "float")
if not len(md["Q"][0]) > 0:
    raise SystemExit
{given}
McCore.optimize = lambda self: None
McCore.store = McHat.store = lambda self, *a, **k: None
h = McHat(modelName="sphere", nContrib=2, fitParameterLimits={limits}, staticParameters={{"sld": SA_SYM("sld", "float")}}, seed=SA_SYM("seed", "int"), nRep={n}, nCores={c})
try:
    h.run(md, f)
    ok = True
except Exception:
    ok = False
SA_TRUE("{rule}", (not ok) or {when})
'''
POS = 'if not np.min(md["Q"][0]) > 0:\n    raise SystemExit\n'
ZERO = "data reaching zero Q is refused"
WORD = "any other word is refused"
REFUSALS = {
    "zero Q": (ZERO, "", 'np.min(md["Q"][0]) > 0', '{"radius": "auto"}'),
    "zero Q, a second parameter": (ZERO, "", 'np.min(md["Q"][0]) > 0', '{"length": [LO, HI], "radius": "auto"}'),
    "a word": (WORD, POS, 'SA_SYM("word", "str") == "auto"', '{"radius": SA_SYM("word", "str")}'),
    "a word, a second parameter": (WORD, POS, 'SA_SYM("word", "str") == "auto"', '{"length": [LO, HI], "radius": SA_SYM("word", "str")}'),
    "a word after auto": (WORD, POS, 'SA_SYM("word", "str") == "auto"', '{"length": "auto", "radius": SA_SYM("word", "str")}'),
}
for w in ("automatic", "Auto", "", "min", "auto, 50", "1, 50"):
    REFUSALS[f"the word {w!r}"] = (WORD, POS, "False", f'{{"length": "auto", "radius": {w!r}}}')


def check(cx):
    modes = [(1, 0), (2, 1), (2, 4)] if cx.tier == "quick" else [(1, 1), (2, 1), (3, 1), (1, 0), (2, 0), (2, 4), (4, 3)]
    for n, c in modes:
        t = f", {n} repetitions in {c} processes" if c else f", {n} repetitions, automatic number of processes"
        for gname, (g, w) in GIVEN.items():
            for rname, r in RUNS.items():
                cx.drive(gname + ", " + rname + t, HEAD + f"G, W = {g}, {w}\n" + r.format(n=n, c=c), STUBS, completes=True)
        for name, (rule, given, when, limits) in REFUSALS.items():
            cx.drive(name + t, REFUSED.format(given=given, rule=rule, when=when, limits=limits, n=n, c=c), STUBS)


HOW = "runs with unknown data are analysed up to the optimisation, where the limits of the model are compared with those of this data"
