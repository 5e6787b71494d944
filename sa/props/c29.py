"""C29: the supplied example configurations are accepted and take effect as written."""
import math
import os

import yaml

from ..decide import compare
from .c21 import RUN
from .c34 import DATA, MODEL34
from .common import *  # noqa: F403

REBIN = '''
def rebin(self, *a, **k):
    v = [self.clippedData[n].values for n in ("Q", "I", "ISigma")] + [self.nbins, self.IEmin]
    self.binnedData = pandas.DataFrame({n: SA_FUN("binned" + n, *v) for n in ("Q", "I", "ISigma")})
McData1D.reBin = rebin
df = pandas.DataFrame({"Q": A, "I": B, "ISigma": C})
'''
HISTS = MODEL34 + '''
MODEL = McModel(modelName="sphere", nContrib=2, fitParameterLimits={"radius": [LO, HI], "other": [SA_SYM("lo2", "float"), SA_SYM("hi2", "float")]}, staticParameters=STATIC, seed=1)
core = McCore(md, model=MODEL, opt=McOpt(repetition=2, **OPT))
core._opt.x0 = [SA_SYM("scaling", "float"), SA_SYM("background", "float")]
'''
LOOK = '''
h = McModelHistogrammer(core, pandas.DataFrame(DOCS))
for i in range(len(h._histDict)):
    SA_OBS("bin edges " + str(i), h._binEdges[i])
    SA_OBS("histogram " + str(i), h._histDict[i])
    for m in ("totalValue", "mean", "variance"):
        SA_OBS("population " + str(i) + m, h._modes.loc[i, m])
'''


def examples(repo):
    d = os.path.join(repo, "example_configurations")
    for f in sorted(os.listdir(d) if os.path.isdir(d) else []):
        if f.endswith((".yaml", ".yml")):
            with open(os.path.join(d, f)) as fh:
                yield f, [x for x in yaml.safe_load_all(fh) if x is not None]


def lit(v):
    """the text of a value in a driver"""
    if isinstance(v, dict):
        return "{" + ", ".join(f"{lit(k)}: {lit(x)}" for k, x in v.items()) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(lit(x) for x in v) + "]"
    if isinstance(v, float) and not math.isfinite(v):
        return "np.nan" if v != v else "np.inf" if v > 0 else "-np.inf"
    return repr(v)


def kind(docs):
    """what a configuration is for, from what it says"""
    keys = {k for d in docs if isinstance(d, dict) for k in d}
    if len(docs) > 1 or keys & {"parameter", "binScale", "binWeighting", "autoRange"}:
        return "histogram"
    if keys & {"modelName", "fitParameterLimits", "nContrib", "staticParameters", "nRep", "maxIter"}:
        return "run"
    return "read"


def reading(cx, name, cfg):
    nexus = "pathDict" in cfg or "nxs" in name or "nexus" in name
    if nexus:
        paths = cfg.get("pathDict") or {"Q": "/entry/result/Q", "I": "/entry/result/I", "ISigma": "/entry/result/ISigma"}
        src = DATA + REBIN + 'X = SA_PATH("x.nxs")\nSA_FRESH(X)\nwith h5py.File(X, "w") as h5:\n'
        for k, v in zip(COLS, "ABC"):
            src += f"    h5[{lit(paths.get(k, '/missing'))}] = {v}\n"
        src += f"d = McData1D(filename=X, **{lit({**cfg, 'pathDict': paths})})\n"
    else:
        src = DATA + REBIN + 'X, READ = SA_PATH("x.csv"), []\nSA_THERE(X)\nSA_TABLE(X, lambda **k: (READ.append(k), df)[1])\n'
        src += f"d = McData1D(filename=X, **{lit(cfg)})\n"
        for k, v in (cfg.get("csvargs") or {}).items():
            src += f'SA_EQ("{name}: {k} of csvargs is used for reading", READ[-1].get("{k}"), {lit(v)})\n'
    for k, v in cfg.items():
        if k in ("dataRange",):
            src += f'SA_EQ("{name}: {k} is taken as written", [d.{k}[0], d.{k}[1]], {lit(v)})\n'
        elif k == "omitQRanges":
            src += f'SA_EQ("{name}: {k} is taken as written", [list(r) for r in d.{k}], {lit(v)})\n'
        elif isinstance(v, dict):
            for n, x in v.items():
                src += f'SA_EQ("{name}: {k} is taken as written", d.{k}["{n}"], {lit(x)})\n'
        else:
            src += f'SA_EQ("{name}: {k} is taken as written", d.{k}, {lit(v)})\n'
    lo, hi = cfg.get("dataRange", [-math.inf, math.inf])
    src += f"keep = (df.Q >= {lit(lo)}) & (df.Q < {lit(hi)})\n" if hi != math.inf or 1 else ""
    for a, b in cfg.get("omitQRanges") or ():
        src += f"keep = keep & ~((df.Q >= {lit(a)}) & (df.Q < {lit(b)}))\n"
    src += "w = df[keep].dropna()\n"
    for k in COLS:
        src += f'SA_EQ("{name}: the data in the file is read", d.rawData["{k}"].values, df["{k}"].values)\n'
        src += f'SA_EQ("{name}: the data is limited as written", d.clippedData["{k}"].values, w["{k}"].values)\n'
    cx.drive(name, src, STUBS, completes=True)


def running(cx, name, cfg):
    src = RUN + "if not np.min(Q) > 0:\n    raise SystemExit\n"
    src += f"h = McHat(seed=None, resultIndex=1, **{lit(cfg)})\n"
    for k in cfg:
        if k in ("nRep", "nCores"):
            src += f'SA_EQ("{name}: {k} is taken as written", h.{k}, {lit(cfg[k])})\n'
    # one after another: what is run does not depend on the number of threads
    src += f"h.nCores = 1\nh.run(md, Path('r.nxs'))\n"
    src += f'SA_EQ("{name}: each repetition is run", len(GOT), {lit(cfg.get("nRep", 10))})\nfor model, opt in (GOT[0], GOT[-1]):\n'
    for k, v in cfg.items():
        if k in ("nRep", "nCores"):
            continue
        if k == "fitParameterLimits":
            for p, lim in v.items():
                want = lit(lim) if lim != "auto" else "[np.pi / np.max(Q), np.pi / np.min(Q)]"
                src += f'    SA_EQ("{name}: {k} is used as written", [model.{k}["{p}"][0], model.{k}["{p}"][1]], {want})\n'
            src += f'    SA_EQ("{name}: {k} is used as written", sorted(model.{k}), {lit(sorted(v))})\n'
        elif k == "staticParameters":
            for p, x in v.items():
                src += f'    SA_EQ("{name}: {k} is used as written", model.{k}["{p}"], {lit(x)})\n'
        else:
            src += f'    SA_EQ("{name}: {k} is used as written", model.{k} if hasattr(model, "{k}") else opt.{k}, {lit(v)})\n'
    cx.drive(name, src, STUBS, completes=True)


def other(k, v):
    """another valid value, to see whether a setting has an effect"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return v + 1
    return {"linear": "log", "log": "linear", "radius": "other"}.get(v, f"not {v}")


def histograms(cx, name, docs):
    e = cx.drive(name, HISTS + f"DOCS = {lit(docs)}\n" + LOOK + f'SA_EQ("{name}: each histogram is made", len(h._histDict), {len(docs)})\n', STUBS, completes=True)
    if e is None or e.st is None:
        return
    want = {k: v[0] for k, v in e.obs.items()}
    for k in dict.fromkeys(k for d in docs for k in d):
        changed = [{**d, k: other(k, d[k])} if k in d else d for d in docs]
        x = cx.drive(f"{name}, other {k}", HISTS + f"DOCS = {lit(changed)}\n" + LOOK, STUBS)
        if x is None:
            continue
        rule = f"{name}: {k} is used"
        if x.st is None and not x.unmodelled:
            cx.ok(rule, "another value is refused")
        elif x.st is None:
            cx.und(rule, f"what another value does is not known: {x.unmodelled}"[:200])
        else:
            same = [n in x.obs and compare(x.obs[n][0], v, tuple(x.st.guard)).status == "ok" for n, v in want.items()]
            cx.require(rule, not all(same) or len(x.obs) != len(want), f"nothing of the histograms changes when {k} does", key=f"{name}:{k}")


def check(cx):
    found = 0
    for name, docs in examples(cx.repo):
        found += 1
        what = kind(docs)
        if what == "histogram":
            histograms(cx, name, docs)
        elif what == "run":
            running(cx, name, docs[0])
        else:
            reading(cx, name, docs[0])
    if not found:
        cx.und("example configurations", "there are none")


COLS = ("Q", "I", "ISigma")
HOW = "the example configuration files are read, and drivers hand their contents to the data, a run and the histogrammer: each setting has to be taken with the value written, those of histograms have to have an effect"
