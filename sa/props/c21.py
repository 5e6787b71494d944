"""C21: known settings are applied, unknown settings are refused."""
from .c34 import DATA, MODEL34
from .common import *  # noqa: F403

# settings of each object: the value given (symbolic where the code does not have to look at it)
MODELSET = {
    "modelName": '"mcsas_sphere"',
    "nContrib": "2",
    "fitParameterLimits": '{"radius": [SA_SYM("newlo", "float"), SA_SYM("newhi", "float")]}',
    "staticParameters": '{"sld": SA_SYM("newsld", "float"), "sld_solvent": SA_SYM("solvent", "float")}',
    "modelDType": 'SA_SYM("dtype", "str")',
    "seed": 'SA_SYM("newseed", "int")',
    "logRandom": 'SA_SYM("logs", "bool")',
}
OPTSET = {
    "convCrit": 'SA_SYM("newCrit", "float")',
    "maxIter": 'SA_SYM("newIter", "int")',
    "maxAccept": 'SA_SYM("newAccept", "int")',
    "repetition": 'SA_SYM("newRep", "int")',
    "weighting": 'SA_SYM("weight", "float")',
}
HATSET = {"nCores": 'SA_SYM("cores", "int")', "nRep": "7"}
DATASET = {
    "nbins": "3",
    "dataRange": '[SA_SYM("dlo", "float"), SA_SYM("dhi", "float")]',
    "omitQRanges": '[[SA_SYM("olo", "float"), SA_SYM("ohi", "float")]]',
    "IEmin": 'SA_SYM("iemin", "float")',
    "qNudge": 'SA_SYM("nudge", "float")',
    "measDataLink": '"clippedData"',
    "csvargs": '{"sep": ";", "skiprows": SA_SYM("skip", "int")}',
    "pathDict": '{"Q": "/q", "I": "/i", "ISigma": "/s"}',
    "binning": '"logarithmic"',
    "loader": '"from_csv"',
    "filename": 'Path("other.csv")',
}
IMAGESET = {**DATASET, "qNudge": '[SA_SYM("nx", "float"), SA_SYM("ny", "float")]', "csvargs": '{"sep": ";"}', "orthoQ0Range": None, "orthoQ1Range": None}
UNKNOWN = {
    "McModel": ("ncontrib", "limits", "radius", "maxIter", "kernel", "NContrib", "static"),
    "McOpt": ("maxiter", "nContrib", "nRep", "convcrit", "conv", "testX0"),
    "McHat": ("nrep", "ncores", "repetitions", "sld", "nbins", "convergence", "threads"),
    "McData1D": ("nBins", "bins", "dataranges", "nContrib", "omitQRange", "IEMin", "sep"),
    "McData2D": ("nBins", "ranges", "orthoQRange", "IEMin", "mask"),
}
RESTORED = MODEL34 + '''
from mcsas3.mc_data_1d import McData1D
X = SA_PATH("r.nxs")
SA_FRESH(X)
'''
STOREDMODEL = RESTORED + 'McModel(**SET).store(X, 2)\n'
STOREDOPT = RESTORED + '''
old = McOpt(repetition=2, weighting=0.5, **OPT)
old.accepted, old.gof, old.step, old.x0, old.modelI = 1, SA_SYM("gof", "float"), 5, SA_SYM("x0", "array"), SA_SYM("modelI", "array")
old.acceptedSteps, old.acceptedGofs = [0, 4], [SA_SYM("g0", "float"), SA_SYM("g1", "float")]
from pathlib import PurePosixPath
old.store(X, PurePosixPath("/analyses/MCResult1/optimization/repetition2"))
'''
STOREDDATA = RESTORED + '''
A, B, C = SA_SYM("A", "array"), SA_SYM("B", "array"), SA_SYM("C", "array")
df = pandas.DataFrame({"Q": A, "I": B, "ISigma": C})
McData1D(df=df, nbins=0, dataRange=[SA_SYM("lo0", "float"), SA_SYM("hi0", "float")]).store(X)
'''
# what a run makes of its settings: the model and the options that the core gets
RUN = MODEL34 + '''
GOT = []
def core(self, measData=None, model=None, opt=None, **k):
    GOT.append((model, opt))
    self._model, self._opt = model, opt
McCore.__init__ = core
'''


def claims(obj, settings, what):
    out = ""
    for k, v in settings.items():
        if k == "fitParameterLimits":
            out += f'SA_EQ("{what}: {k}", list({obj}.{k}["radius"]), [SA_SYM("newlo", "float"), SA_SYM("newhi", "float")])\nSA_EQ("{what}: {k}", list({obj}.{k}), ["radius"])\n'
        elif k == "staticParameters":
            for n in ("sld", "sld_solvent"):
                out += f'SA_EQ("{what}: {k}", {obj}.{k}["{n}"], {v}["{n}"])\n'
            out += f'SA_EQ("{what}: {k}", len({obj}.{k}), 2)\n'
        elif k in ("dataRange",):
            out += f'SA_EQ("{what}: {k}", [{obj}.{k}[0], {obj}.{k}[1]], {v})\n'
        elif k == "omitQRanges":
            out += f'SA_EQ("{what}: {k}", [list(r) for r in {obj}.{k}], {v})\n'
        elif k == "filename":
            out += f'SA_EQ("{what}: {k}", str({obj}.{k}), "other.csv")\n'
        elif k == "qNudge" and v.startswith("["):
            out += f'SA_EQ("{what}: {k}", [{obj}.{k}[0], {obj}.{k}[1]], {v})\n'
        else:
            out += f'SA_EQ("{what}: {k}", {obj}.{k}, {v})\n'
    return out


def given(settings):
    return ", ".join(f"{k}={v}" for k, v in settings.items())


def subsets(settings):
    for k in settings:
        yield k, {k: settings[k]}
    yield "all", settings


def check(cx):
    ranged = {k: v for k, v in IMAGESET.items() if v and k not in ("filename", "pathDict", "loader")}
    for k in ("orthoQ0Range", "orthoQ1Range"):
        pass
    for name, s in subsets(MODELSET):
        base = {"modelName": '"sphere"', "nContrib": "3", "fitParameterLimits": "LIMITS", "staticParameters": "STATIC"}
        cx.drive(f"model, {name}", MODEL34 + f"o = McModel({given({**base, **s})})\n" + claims("o", s, "given to a model"), STUBS, completes=True)
        cx.drive(f"restored model, {name}", STOREDMODEL + f"o = McModel(loadFromFile=X, loadFromRepetition=2, {given(s)})\n" + claims("o", s, "given to a restored model"), STUBS, completes=True)
    for name, s in subsets(OPTSET):
        cx.drive(f"options, {name}", MODEL34 + f"o = McOpt({given(s)})\n" + claims("o", s, "given to the options"), STUBS, completes=True)
        cx.drive(f"restored options, {name}", STOREDOPT + f"o = McOpt(loadFromFile=X, loadFromRepetition=2, {given(s)})\n" + claims("o", s, "given to restored options"), STUBS, completes=True)
    for name, s in subsets(DATASET):
        cx.drive(f"data, {name}", DATA + f"o = McData1D({given({k: v for k, v in s.items() if k != 'filename'})})\n" + claims("o", {k: v for k, v in s.items() if k != "filename"}, "given to data"), STUBS, completes=True)
        s = {k: v for k, v in s.items() if k not in ("filename", "loader", "pathDict", "binning")}
        if s:
            cx.drive(f"restored data, {name}", STOREDDATA + f"o = McData1D(loadFromFile=X, {given(s)})\n" + claims("o", s, "given to restored data"), STUBS, completes=True)
    # settings given while restoring take part in the treatment
    for name, s, want in (
        ("dataRange", {"dataRange": DATASET["dataRange"]}, "df.Q >= R[0]) & (df.Q < R[1]"),
        ("omitQRanges", {"dataRange": DATASET["dataRange"], "omitQRanges": DATASET["omitQRanges"]}, "df.Q >= R[0]) & (df.Q < R[1]) & ~((df.Q >= O[0]) & (df.Q < O[1])"),
    ):
        src = STOREDDATA + f"o = McData1D(loadFromFile=X, {given(s)})\nR, O = {DATASET['dataRange']}, {DATASET['omitQRanges']}[0]\nw = df[({want})].dropna()\n"
        for k in COLS:
            src += f'SA_EQ("used by restored data: {name}", o.measData["{k}"]{"[0]" if k == "Q" else ""}, w["{k}"].values)\n'
        cx.drive(f"used by restored data, {name}", src, STUBS, completes=True)
    src = STOREDDATA + 'N = SA_SYM("nudge", "float")\no = McData1D(loadFromFile=X, qNudge=N)\np = McData1D(loadFromFile=X)\nSA_EQ("used by restored data: qNudge", o.measData["Q"][0], p.measData["Q"][0] + N)\n'
    cx.drive("used by restored data, qNudge", src, STUBS, completes=True)
    for name, s in subsets(ranged):
        cx.drive(f"images, {name}", DATA + f"o = McData2D({given(s)})\n" + claims("o", s, "given to images"), STUBS, completes=True)
    for name, s in subsets(HATSET):
        cx.drive(f"run, {name}", MODEL34 + f"o = McHat({given(s)})\n" + claims("o", s, "given to a run"), STUBS, completes=True)
        src = RESTORED + "import importlib\nfrom mcsas3 import mc_hat\n"
        cx.drive(f"restored run, {name}", STOREDHAT + f"o = McHat(loadFromFile=X, {given(s)})\n" + claims("o", s, "given to a restored run"), STUBS, completes=True)
    hat = {k: v for k, v in MODELSET.items() if k != "seed"}
    hatopt = {k: v for k, v in OPTSET.items() if k != "repetition"}
    for name, s in (*subsets(hat), *subsets(hatopt), ("everything", {**hat, **hatopt})):
        base = {"modelName": '"sphere"', "nContrib": "3", "fitParameterLimits": "LIMITS", "staticParameters": "STATIC"}
        a, b = {k: v for k, v in s.items() if k in hat}, {k: v for k, v in s.items() if k in hatopt}
        src = RUN + f"h = McHat(nRep=2, nCores=1, {given({**base, **s})})\nh.run(md, Path('r.nxs'))\n"
        src += 'SA_EQ("each repetition is run", len(GOT), 2)\n'
        for i in range(2):
            src += f"model, opt = GOT[{i}]\n" + claims("model", a, "used by the model of a run") + claims("opt", b, "used by the options of a run")
        cx.drive(f"settings of a run, {name}", src, STUBS, completes=True)
    for n in (1, 6, 12):
        cx.drive(f"run of {n} repetitions", RUN + f"McHat(nRep={n}, nCores=1, **SET, **OPT).run(md, Path('r.nxs'))\n" + f'SA_EQ("as many repetitions as asked for", len(GOT), {n})\n', STUBS, completes=True)
    base = {"McModel": "**SET, ", "McOpt": "**OPT, ", "McHat": "**SET, **OPT, ", "McData1D": "", "McData2D": ""}
    pre = {"McModel": STOREDMODEL + "L = dict(loadFromFile=X, loadFromRepetition=2)\n", "McOpt": STOREDOPT + "L = dict(loadFromFile=X, loadFromRepetition=2)\n", "McHat": STOREDHAT + "L = dict(loadFromFile=X)\n", "McData1D": STOREDDATA + "L = dict(loadFromFile=X)\n"}
    for cls, names in UNKNOWN.items():
        for n in names:
            v = f'SA_SYM("value", "float")'
            head = DATA if "Data" in cls else MODEL34
            cx.drive(f"unknown {n} for {cls}", head + refuse(f"{cls}({base[cls]}{n}={v})", f"{n} for {cls}"), STUBS)
            if cls in pre:
                cx.drive(f"unknown {n} for a restored {cls}", pre[cls] + refuse(f"{cls}(**L, {n}={v})", f"{n} for a restored {cls}"), STUBS)
    for n in ("length", "simDataQ2", "background0", "sldSolvent"):
        cx.drive(f"unknown static parameter {n}", MODEL34 + refuse(f'McModel(**{{**SET, "modelName": "mcsas_sphere", "staticParameters": {{"{n}": SA_SYM("value", "float")}}}})', f"static parameter {n} of the built-in sphere"), STUBS)


def refuse(code, what):
    return f'ok = True\ntry:\n    {code}\nexcept Exception:\n    ok = False\nSA_TRUE("refused: {what}", not ok)\n'


COLS = ("Q", "I", "ISigma")
STOREDHAT = MODEL34.replace("McCore.store = McHat.store", "McCore.store") + '''
X = SA_PATH("r.nxs")
SA_FRESH(X)
McHat(nRep=4, nCores=2, **SET, **OPT).store(X)
'''
HOW = "objects are built with each setting, alone and together, new and restored, and their values are compared with those given; unknown names must end with an error on every path"
