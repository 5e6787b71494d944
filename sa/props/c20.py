"""C20: objects do not share state: an object behaves in company as it does alone."""
from ..decide import compare
from ..terms import *  # noqa: F403
from ..terms import T, mk, show
from .common import CALC, HAT, STUBS

# the outcome of an optimisation depends on the seed, to tell the results of one object from those of another
HAT = HAT.replace('"num")', '"num") * self._model.seed').replace('"array")\n', '"array") * self._model.seed\n', 2)
# one object ("x" stands for "a" or "b"): how it is made, used and looked at
FRAME = '''
import numpy as np, pandas, h5py
from pathlib import Path, PurePosixPath
from mcsas3.mc_data_1d import McData1D
from mcsas3.mc_data_2d import McData2D
from mcsas3.mc_core import McCore
from mcsas3.mc_hat import McHat
from mcsas3.mc_hdf import loadKV
from mcsas3.mc_opt import McOpt
from mcsas3.mc_model import McModel
from mcsas3.osb import optimizeScalingAndBackground
from mcsas3.mc_analysis import McAnalysis
from mcsas3.mc_model_histogrammer import McModelHistogrammer
'''
TABLE = '''
Qx, Ix, Sx = SA_SYM("Qx", "array"), SA_SYM("Ix", "array"), SA_SYM("Sx", "array")
fx = pandas.DataFrame({"Q": Qx, "I": Ix, "ISigma": Sx})
'''
LOOK1D = '''
SA_OBS("raw intensity", x.rawData["I"].values)
SA_OBS("limited intensity", x.clippedData["I"].values)
SA_OBS("rebinned intensity", x.binnedData["I"].values)
SA_OBS("data to fit: Q", x.measData["Q"])
SA_OBS("data to fit: intensity", x.measData["I"])
SA_OBS("data to fit: uncertainty", x.measData["ISigma"])
for k in ("dataRange", "omitQRanges", "nbins", "IEmin", "qNudge", "csvargs", "pathDict", "loader", "measDataLink", "binning", "filename"):
    SA_OBS(k, getattr(x, k))
SA_OBS("entry of the file", str(x.resultIndex.nxsEntryPoint))
SA_OBS("entries stored", list(x.storeKeys))
'''
FULL1D = ('dataRange=[SA_SYM("lox", "float"), SA_SYM("hix", "float")], omitQRanges=[[SA_SYM("olox", "float"), SA_SYM("ohix", "float")]], '
          'IEmin=SA_SYM("iex", "float"), qNudge=SA_SYM("nudgex", "float"), csvargs={"sep": "x", "header": None}, pathDict={"Q": "/x"}')
CSV = '''
Fx = SA_PATH("x.csv")
SA_THERE(Fx)
SA_TABLE(Fx, lambda **k: (READ.append(k), fx)[1])
x = McData1D(filename=Fx, nbins=0, dataRange=[SA_SYM("lox", "float"), SA_SYM("hix", "float")], ARGS)
'''
TABLES = "READ = []\n"
OPTS = '''
for k in ("maxIter", "convCrit", "maxAccept", "repetition", "weighting", "accepted", "gof", "step", "x0", "modelI", "acceptedSteps", "acceptedGofs"):
    SA_OBS(k, getattr(x, k))
SA_OBS("entry of the file", str(x.resultIndex.nxsEntryPoint))
SA_OBS("entries stored", list(x.storeKeys))
SA_OBS("entries loaded", list(x.loadKeys))
'''
LOOKMODEL = '''
for k in ("fitParameterLimits", "staticParameters", "nContrib", "modelName", "modelDType", "seed", "volumes", "parameterSet"):
    SA_OBS(k, getattr(x, k))
SA_OBS("trial parameters", x.pickParameters)
SA_OBS("settings taken", list(x.settables))
SA_OBS("parameters of the model", dict(x.showModelParameters()))
SA_OBS("intensity of a contribution", x.calcModelIV(PAR)[0])
'''
MADE = '''
x = McModel(modelName="NAME", nContrib=2, fitParameterLimits=LIM, STATIC seed=SA_SYM("seedx", "int"))
'''
DATA = '{"Q": [SA_SYM("Qx", "array")], "I": SA_SYM("Ix", "array"), "ISigma": SA_SYM("Sx", "array")}'
RADIUS = '{"radius": [SA_SYM("lox", "float"), SA_SYM("hix", "float")]}'
FACTOR = '{"factor": [SA_SYM("lox", "float"), SA_SYM("hix", "float")]}'
SIM = ('staticParameters=dict(simDataQ0=SA_SYM("q1x", "array"), simDataQ1=None, simDataI=SA_SYM("i1x", "array"), simDataISigma=SA_SYM("is1x", "array"), '
       'extrapY0=SA_SYM("b1x", "float"), extrapScaling=SA_SYM("s1x", "float")),')
CORE = '''
Mx = McModel(modelName="mcsas_sphere", nContrib=2, fitParameterLimits={"radius": [SA_SYM("lox", "float"), SA_SYM("hix", "float")]}, STATIC seed=SA_SYM("seedx", "int"))
x = McCore(DATA, model=Mx, opt=McOpt(OPTS))
'''.replace("DATA", DATA)
USECORE = '''
x._opt.step = 0
x.iterate()
'''
LOOKCORE = '''
for k in ("maxIter", "convCrit", "maxAccept", "accepted", "gof", "x0", "modelI", "acceptedSteps", "acceptedGofs"):
    SA_OBS(k, getattr(x._opt, k))
for k in ("parameterSet", "volumes", "pickParameters", "fitParameterLimits", "staticParameters", "seed"):
    SA_OBS(k, getattr(x._model, k))
SA_OBS("parameters of the model", dict(x._model.showModelParameters()))
'''
SETOPT = 'maxIter=SA_SYM("maxIterx", "int"), convCrit=SA_SYM("convCritx", "float"), maxAccept=SA_SYM("maxAcceptx", "int")'
STATIC = 'staticParameters={"sld": SA_SYM("sldx", "float"), "sld_solvent": SA_SYM("solventx", "float")},'
MAKEHAT = '''
Xx = SA_PATH("rx.nxs")
SA_FRESH(Xx)
x = McHat(modelName="sphere", nContrib=2, fitParameterLimits=LIM, STATIC seed=SA_SYM("seedx", "int"), nRep=NREP, nCores=1, OPTS)
'''
USEHAT = "x.run(%s, Xx)\n" % DATA
LOOKHAT = '''
P = "/analyses/MCResult1/"
SA_OBS("stored model", loadKV(Xx, P + "model/modelName", datatype="str"))
SA_OBS("stored limits", loadKV(Xx, P + "model/fitParameterLimits/radius"))
SA_OBS("stored number of repetitions", loadKV(Xx, P + "optimization/nRep"))
for i in range(NREP):
    SA_OBS("stored parameters " + str(i), loadKV(Xx, P + "model/repetition" + str(i) + "/parameterSet/radius"))
    SA_OBS("stored seed " + str(i), loadKV(Xx, P + "model/repetition" + str(i) + "/seed"))
    SA_OBS("stored convergence criterion " + str(i), loadKV(Xx, P + "optimization/repetition" + str(i) + "/convCrit"))
    SA_OBS("stored limit of iterations " + str(i), loadKV(Xx, P + "optimization/repetition" + str(i) + "/maxIter"))
    SA_OBS("stored repetition " + str(i), loadKV(Xx, P + "optimization/repetition" + str(i) + "/repetition"))
SA_OBS("settings taken", list(x.storeKeys))
'''
ANALYSED = MAKEHAT + '''
x.fillFitParameterLimits(DATA)
for i in REPSx:
    x.runOnce(DATA, Xx, i)
Hx = pandas.DataFrame([dict(parameter="radius", nBin=2, binScale="linear", presetRangeMin=SA_SYM("p0x", "float"), presetRangeMax=SA_SYM("p1x", "float"), binWeighting="vol", autoRange=False)EXTRAx])
'''.replace("DATA", DATA)
MAKEANA = "x = McAnalysis(Xx, %s, Hx, store=STORE)\n" % DATA
LOOKANA = '''
SA_OBS("fit results", x.optParAvg)
SA_OBS("mean intensity", x.modelIAvg["modelIMean"].values)
SA_OBS("deviation of the intensity", x.modelIAvg["modelIStd"].values)
SA_OBS("number of histograms", len(x._averagedHistograms))
for i in range(len(x._averagedHistograms)):
    for k in ("xMean", "xWidth", "yMean", "yStd"):
        SA_OBS("histogram " + str(i) + " " + k, x._averagedHistograms[i][k].values)
for j in range(1):
    for m in ("totalValue", "mean", "variance"):
        SA_OBS("population " + m, x._averagedModes.loc[j, (m, "valMean")])
SA_OBS("number of populations", len(x._averagedModes))
'''
MAKEHIST = "x = McModelHistogrammer(McCore(%s, loadFromFile=Xx, loadFromRepetition=REPSx[0]), Hx)\n" % DATA
LOOKHIST = '''
SA_OBS("number of histograms", len(x._histDict))
for i in range(len(x._histDict)):
    SA_OBS("histogram " + str(i), x._histDict[i])
    SA_OBS("bin edges " + str(i), x._binEdges[i])
SA_OBS("number of populations", len(x._modes))
for m in ("totalValue", "mean", "variance"):
    SA_OBS("population " + m, x._modes.loc[0, m])
'''


def scenarios():
    """name: (code before, making, using, looking, what replaces words for "a" and for "b")"""
    out = {}
    for nb in (0, 2):
        for sb in ("full", "default"):
            out[f"1D data, {nb} bins, {sb}"] = ("", TABLE + f"x = McData1D(df=fx, nbins={nb}, ARGS)\n", "", LOOK1D,
                                               {"ARGS": (FULL1D, FULL1D if sb == "full" else "")})
    out["1D data, used"] = ("", TABLE + f"x = McData1D(nbins=0, {FULL1D})\n", 'x.from_pandas(fx)\nx.dataRange = [0, SA_SYM("hi2x", "float")]\nx.prepare()\n', LOOK1D, {})
    out["1D data, settings changed in place"] = (
        "", TABLE + "x = McData1D(df=fx, nbins=0ARGS)\n", "MORE", LOOK1D,
        {"ARGS": (", omitQRanges=[]", ""), "MORE": ("x.csvargs['sep'] = 'x'\nx.dataRange[0] = SA_SYM('lox', 'float')\nx.omitQRanges.append([SA_SYM('olox', 'float'), 5])\nx.prepare()\n", "x.prepare()\n")})
    out["1D data, other result"] = ("", TABLE + "x = McData1D(df=fx, nbins=0, ARGS)\n", "", LOOK1D, {"ARGS": ("resultIndex=3", "")})
    for extra in ("", ", EXTRA"):
        out["1D data from csv" + extra] = (
            TABLES, TABLE + CSV, 'x.from_csv(FxEXTRA)\nRx = READ[-1]\n',
            LOOK1D + 'SA_OBS("arguments of reading", Rx)\n',
            {"EXTRA": (", {'skiprows': 3}" if extra else "", ""), "ARGS": ("csvargs={'sep': 'x'}", "csvargs={'header': None}" if extra else "")})
    out["settings of an optimisation"] = ("", "x = McOpt(ARGS)\n", 'x.acceptedSteps += [3]\nx.acceptedGofs += [SA_SYM("gx", "num")]\nx.accepted += 1\n' if 0 else
                                          "MORE", OPTS, {"ARGS": (SETOPT + ", repetition=4", ""), "MORE": (
                                              'x.acceptedSteps += [3]\nx.acceptedGofs.append(SA_SYM("gx", "num"))\nx.x0 = [1, 2]\nx.gof = 3\nx.accepted = 4\nx.step = 5\n', "")})
    out["settings of an optimisation, both used"] = ("", "x = McOpt(ARGS)\n", 'x.acceptedSteps += [3]\nx.acceptedGofs += [SA_SYM("gx", "num")]\n', OPTS,
                                                     {"ARGS": (SETOPT + ", repetition=4", SETOPT)})
    out["restored settings of an optimisation"] = (
        "", 'Xx = SA_PATH("rx.nxs")\nSA_FRESH(Xx)\nWx = McOpt(' + SETOPT + ', repetition=0)\nWx.acceptedSteps, Wx.acceptedGofs = [0, SA_SYM("stepx", "int")], [1.0, SA_SYM("gx", "num")]\nWx.accepted, Wx.gof, Wx.step, Wx.x0, Wx.modelI = 1, SA_SYM("gx", "num"), 2, [1.0, 2.0], SA_SYM("Ix", "array")\nWx.store(Xx, PurePosixPath("/analyses/MCResult1/optimization/repetition0"))\n'
        "x = McOpt(loadFromFile=Xx, loadFromRepetition=0)\n", "", OPTS, {})
    out["models of spheres"] = ("PAR = {'radius': SA_SYM('r', 'num')}\n", MADE, 'x.resetParameterSet()\nx.pick()\nx.kernel = x.func.make_kernel([SA_SYM("Qx", "array")])\n', LOOKMODEL,
                                {"NAME": ("mcsas_sphere",) * 2, "LIM": (RADIUS,) * 2, "STATIC": (STATIC, STATIC)})
    out["models of spheres, defaults"] = ("PAR = {'radius': SA_SYM('r', 'num')}\n", MADE, 'x.resetParameterSet()\nx.pick()\nx.kernel = x.func.make_kernel([SA_SYM("Qx", "array")])\n', LOOKMODEL,
                                          {"NAME": ("mcsas_sphere",) * 2, "LIM": (RADIUS,) * 2, "STATIC": (STATIC, 'staticParameters={"sld": SA_SYM("sldx", "float")},')})
    out["models of simulated data"] = ("PAR = {'factor': SA_SYM('r', 'num')}\n", MADE, 'x.resetParameterSet()\nx.pick()\nx.kernel = x.func.make_kernel([SA_SYM("Qx", "array")])\n', LOOKMODEL,
                                       {"NAME": ("sim",) * 2, "LIM": (FACTOR,) * 2, "STATIC": (SIM, SIM)})
    out["one model after another"] = ("PAR = {'radius': SA_SYM('r', 'num')}\n", MADE, 'x.resetParameterSet()\nx.pick()\nx.kernel = x.func.make_kernel([SA_SYM("Qx", "array")])\n', LOOKMODEL,
                                      {"NAME": ("sim", "mcsas_sphere"), "LIM": (FACTOR, RADIUS), "STATIC": (SIM, STATIC)})
    out["optimisations"] = ("", CORE, USECORE, LOOKCORE, {"STATIC": (STATIC, STATIC), "OPTS": (SETOPT, SETOPT)})
    out["optimisations, defaults"] = ("", CORE, USECORE, LOOKCORE, {"STATIC": (STATIC, 'staticParameters={"sld": SA_SYM("sldx", "float")},'), "OPTS": (SETOPT, "")})
    for sim in (SIM, SIM.replace('extrapScaling=SA_SYM("s1x", "float")', "extrapScaling=2")):
        out["optimisations of simulated data" + ", other" * (sim != SIM)] = (
            "", CORE.replace("mcsas_sphere", "sim").replace('"radius"', '"factor"'), USECORE, LOOKCORE, {"STATIC": (SIM, sim), "OPTS": (SETOPT, SETOPT)})
    for model in ("sphere", "mcsas_sphere"):
        out[f"kernels, {model}"] = ("PAR = {'radius': SA_SYM('r', 'num')}\n", CORE.replace("mcsas_sphere", model), USECORE, 'SA_OBS("intensity of a contribution", x._model.calcModelIV(PAR)[0])\nSA_OBS("intensity", x._opt.modelI)\nSA_OBS("volume of a contribution", x._model.calcModelIV(PAR)[1])\n',
                                    {"STATIC": (STATIC, STATIC), "OPTS": (SETOPT, SETOPT)})
    for nrep in (1, 2):
        for kind_ in ("full", "default"):
            full = kind_ == "full"
            out[f"runs, {nrep} repetitions, {kind_}"] = (HAT, MAKEHAT, USEHAT, LOOKHAT, {
                "LIM": (RADIUS, RADIUS), "STATIC": (STATIC, STATIC if full else "staticParameters={},"), "OPTS": (SETOPT, SETOPT if full else ""), "NREP": (str(nrep),) * 2})
    out["runs, automatic limits"] = (HAT + "if not np.min(SA_SYM('Qa', 'array')) > 0:\n    raise SystemExit\nif not np.min(SA_SYM('Qb', 'array')) > 0:\n    raise SystemExit\n", MAKEHAT, USEHAT, LOOKHAT,
                                     {"LIM": ("{'radius': 'auto'}",) * 2, "STATIC": (STATIC, STATIC), "OPTS": (SETOPT, SETOPT), "NREP": ("1", "1")})
    more = ',\n    dict(parameter="radius", nBin=1, binScale="linear", presetRangeMin=0.1, presetRangeMax=SA_SYM("p3", "float"), binWeighting="vol", autoRange=False)'
    for n, (make, look) in (("analyses", (MAKEANA, LOOKANA)), ("histograms", (MAKEHIST, LOOKHIST))):
        for store in ("False", "True") if n == "analyses" else ("False",):
            out[f"{n}, stored {store}"] = (HAT, ANALYSED + make, "", look, {
                "LIM": (RADIUS, RADIUS), "STATIC": (STATIC, STATIC), "OPTS": (SETOPT, SETOPT), "NREP": ("2", "1"), "REPSx": ("[0, 3]", "[1]"), "STORE": (store, store), "EXTRAx": (more, "")})
    out["limits of a match, none given"] = ("", 'x = optimizeScalingAndBackground(SA_SYM("Ix", "array"), SA_SYM("Sx", "array"))\n', "", 'SA_OBS("limits", x.xBounds)\nSA_OBS("intensity", x.measDataI)\n', {})
    out["settings of runs"] = ("", "x = McHat(ARGS)\n", "", 'for k in x.storeKeys:\n    SA_OBS(k, getattr(x, k))\nSA_OBS("settings taken", list(x.storeKeys))\nSA_OBS("entry of the file", str(x.resultIndex.nxsEntryPoint))\n',
                               {"ARGS": ("nRep=3, nCores=2, resultIndex=4, maxIter=4", "")})
    out["limits of a match"] = ("", 'x = optimizeScalingAndBackground(SA_SYM("Ix", "array"), SA_SYM("Sx", "array"), ARGS)\n', "MORE", 'SA_OBS("limits", x.xBounds)\nSA_OBS("intensity", x.measDataI)\n',
                                {"ARGS": ("xBounds=[[0, 1], [2, 3]]", ""), "MORE": ("x.xBounds[0] = [5, 6]\nx.xBounds[1][0] = 3\n", "")})
    return out


def source(code, words, x):
    for w in sorted(words, key=len, reverse=True):
        code = code.replace(w, words[w][0 if x == "a" else 1])
    import re

    # names of this object: "x" on its own or at the end of a word of these
    code = re.sub(r"\bx\b", "obj" + x, code)
    return re.sub(r"\b(Q|I|S|f|F|M|X|W|H|R|q1|i1|is1|b1|s1|lo|hi|hi2|olo|ohi|ie|nudge|seed|p0|p1|g|step|maxIter|convCrit|maxAccept|sld|solvent|r|obj)x\b", r"\g<1>" + x, code)


def canonical(e):
    """random numbers named by the seed of their generator and their turn, instead of the turn in the whole program"""
    turn, names = {}, {}
    for x in e.events:
        if x.kind == "draw" and isinstance(x.term, T):
            n = turn[x.rng] = turn.get(x.rng, -1) + 1
            names.setdefault(x.term, mk("sym", f"draw {n} of {show(x.seed, 6) if isinstance(x.seed, T) else x.seed}", "num"))
    return names


def observed(e):
    names = canonical(e)
    return {k: (subst(v, names) if names else v, raw, st) for k, (v, raw, st) in e.obs.items() if not k.startswith("start of")}


def check(cx):
    for name, (before, make, use, look, words) in scenarios().items():
        code = {(p, x): source(c, words, x) for p, c in (("make", make), ("use", use), ("look", look)) for x in "ab"}
        head = FRAME + source(before, {}, "b")
        a, b = code["make", "a"] + code["use", "a"], code["make", "b"] + code["use", "b"]
        orders = {
            "alone": b,
            "after another one": a + b,
            "made before another one": code["make", "b"] + a + code["use", "b"],
            "used before another one": b + a,
            "in turn with another one": code["make", "a"] + code["make", "b"] + code["use", "a"] + code["use", "b"],
        }
        if not use:
            del orders["made before another one"], orders["in turn with another one"]
        stubs = {} if "models" in name or "one model" in name else {q: f for q, f in STUBS.items() if q != CALC} if "kernels" in name else STUBS
        alone = cx.drive(f"{name}: alone", head + orders.pop("alone") + code["look", "b"], stubs)
        if alone is None:
            continue
        want = observed(alone)
        if not want or alone.st is None:
            cx.und("the same as alone", f"{name}: the driver does not get to its end: {alone.uncaught[-1][1:3] if alone.uncaught else ''}")
            continue
        for how, src in orders.items():
            e = cx.drive(f"{name}: {how}", head + src + code["look", "b"], stubs)
            if e is None:
                continue
            got = observed(e)
            for k, (v, raw, st) in want.items():
                rule = f"{name.split(',')[0]}: {k} is the same in company as alone"
                if k not in got:
                    cx.und(rule, f"{name}, {how}: not seen")
                    continue
                w = got[k][0]
                r = compare(w, v, tuple(got[k][2].guard if got[k][2] else ()) + tuple(st.guard if st else ()))
                text = f"{name}, {how}: is {show(r.got, 4)[:140]}, alone it is {show(r.want, 4)[:140]}" if r.status != "ok" else ""
                cx.add(rule, r.status, text, cx.position(e, w, None, got[k][1]), key=f"{name.split(',')[0]}:{k}")


HOW = "each kind of object is made and used alone and together with another one, in several orders; what is seen of it has to be the same"
