"""C33: NeXus data is read from where the file or the user says."""
from .common import *  # noqa: F403

HEAD = '''
import numpy as np, pandas, h5py
from mcsas3.mc_data_1d import McData1D
from mcsas3.mc_data_2d import McData2D
X = SA_PATH("x.nxs")
SA_FRESH(X)
def values(n):
    return {k: SA_SYM(k + n, "array") for k in ("Q", "I", "ISigma", "mask")}
W = values("")
'''
# decoys: data in the same and in other groups that nothing points at
DECOY = '''
def decoys(h, at):
    o = values("o")
    for n in ("Q2", "I2", "ISigma2", "I_errors", "Idev", "data", "signal", "uncertainty", "errors", "uncertainties"):
        h[at + n] = o["I"]
    for g in ("/", "/entry/", "/entry/data/", "/other/", "/entry/other/"):
        p = values("o" + g)
        for n in ("Q", "q", "I", "i", "ISigma", "s", "mask", "m"):
            if g + n not in h:
                h[g + n] = p[n] if n in p else p["I"]
    h["/other"].attrs["signal"] = "I"
    h["/other"].attrs["I_uncertainty"] = "ISigma"
    h["/other"].attrs["mask"] = "mask"
    h["/other"].attrs["axes"] = "Q"
    h["/entry/other"].attrs["signal"] = "i"
    h["/entry/other"].attrs["i_uncertainty"] = "s"
    h["/entry/other"].attrs["axes"] = "q"
'''
DEFAULTS = {  # name: (the group, how it is declared)
    "no default": ("/", ""),
    "one default": ("/entry/", 'h["/"].attrs["default"] = "entry"\n'),
    "two defaults": ("/entry/data/", 'h["/"].attrs["default"] = "entry"\nh["/entry"].attrs["default"] = "data"\n'),
    "three defaults": ("/a/b/c/", 'h["/"].attrs["default"] = "a"\nh["/a"].attrs["default"] = "b"\nh["/a/b"].attrs["default"] = "c"\n'),
    "four defaults": ("/a/b/c/d/", 'h["/"].attrs["default"] = "a"\nh["/a"].attrs["default"] = "b"\nh["/a/b"].attrs["default"] = "c"\nh["/a/b/c"].attrs["default"] = "d"\n'),
    "a default of two steps": ("/entry/data/", 'h["/"].attrs["default"] = "entry/data"\n'),
    "defaults in bytes": ("/entry/data/", 'h["/"].attrs["default"] = b"entry"\nh["/entry"].attrs["default"] = b"data"\n'),
}
SIGNALS = {"signal I": ("I", '"I"'), "signal i": ("i", '"i"'), "signal frame": ("frame", '"frame"'), "signal in bytes": ("frame", 'b"frame"')}
UNC = {
    "uncertainty of the group": ("ISigma", 'h[G].attrs[N + "_uncertainty"] = "ISigma"\n'),
    "uncertainty of another name": ("dI", 'h[G].attrs[N + "_uncertainty"] = "dI"\n'),
    "uncertainties of the dataset": ("ISigma", 'h[G + N].attrs["uncertainties"] = "ISigma"\n'),
    "uncertainties of the dataset, another name": ("dI", 'h[G + N].attrs["uncertainties"] = "dI"\n'),
    "uncertainty in bytes": ("dI", 'h[G].attrs[N + "_uncertainty"] = b"dI"\n'),
    "uncertainty of another signal too": ("dI", 'h[G].attrs["I2_uncertainty"] = "ISigma2"\nh[G].attrs[N + "_uncertainty"] = "dI"\n'),
    "no uncertainty": (None, ""),
    "no uncertainty but one of another signal": (None, 'h[G].attrs["I2_uncertainty"] = "ISigma2"\nh[G + "I2"].attrs["uncertainties"] = "ISigma2"\n'),
}
MASKS = {"mask": ("mask", 'h[G].attrs["mask"] = "mask"\n'), "mask of another name": ("bad", 'h[G].attrs["mask"] = "bad"\n'), "no mask": (None, "")}
AXES = {
    "axes Q": ("Q", 'h[G].attrs["axes"] = "Q"\n'), "axes q": ("q", 'h[G].attrs["axes"] = "q"\n'), "axes in bytes": ("q", 'h[G].attrs["axes"] = b"q"\n'),
    "a list of axes": ("Q", 'h[G].attrs["axes"] = ["time", "Q"]\n'), "a list of axes, q": ("q", 'h[G].attrs["axes"] = ["q", "frame"]\n'),
    "I_axes Q": ("Q", 'h[G].attrs["I_axes"] = "Q"\n'), "I_axes q": ("q", 'h[G].attrs["I_axes"] = "q"\n'), "a list in I_axes": ("q", 'h[G].attrs["I_axes"] = ["time", "q"]\n'),
}
READ = {
    "1D": "d = McData1D(filename=X, nbins=0)\n",
    "1D, read afterwards": "d = McData1D(nbins=0)\nd.from_nexus(X)\n",
    "1D, by its loader": 'd = McData1D(filename=X, nbins=0, loader="from_nexus")\n',
}
CLAIMS = '''
r = d.rawData
SA_EQ("intensity", r["I"].values, W["I"])
SA_EQ("Q", r["Q"].values, W["Q"])
'''
UNCCLAIM = 'SA_EQ("uncertainty", r["ISigma"].values, W["ISigma"])\n'
MASKCLAIM = ('SA_TRUE("no mask but the declared one", "mask" not in r)\n', 'SA_EQ("mask", r["mask"].values, W["mask"])\n')
# without uncertainties: a fraction of the intensity that does not depend on the data
FRACTION = '''
Y = SA_PATH("y.nxs")
SA_FRESH(Y)
V = values("2")
with h5py.File(Y, "w") as h:
    h["/e/I"] = V["I"]
    h["/e/Q"] = V["Q"]
    h["/"].attrs["default"] = "e"
    h["/e"].attrs["signal"] = "I"
    h["/e"].attrs["axes"] = "Q"
d2 = McData1D(filename=Y, nbins=0)
SA_EQ("the uncertainty is a fixed fraction of the intensity", d.rawData["ISigma"].values / W["I"], d.rawData["ISigma"].values[0] / W["I"][0] + W["I"] * 0)
SA_EQ("the fraction is the same for all data", d.rawData["ISigma"].values[0] / W["I"][0], d2.rawData["ISigma"].values[0] / V["I"][0])
'''
REFUSED = {
    "without a signal": ('h["/e"].attrs["axes"] = "Q"\n', ""),
    "without axes": ('h["/e"].attrs["signal"] = "I"\n', ""),
    "without Q among the axes": ('h["/e"].attrs["signal"] = "I"\nh["/e"].attrs["axes"] = ["time", "x"]\n', ""),
    "with an absent signal": ('h["/e"].attrs["signal"] = "J"\nh["/e"].attrs["axes"] = "Q"\n', ""),
    "without Q data": ('h["/e"].attrs["signal"] = "I"\nh["/e"].attrs["axes"] = "q"\n', ""),
    "with absent uncertainties": ('h["/e"].attrs["signal"] = "I"\nh["/e"].attrs["I_uncertainty"] = "u"\nh["/e"].attrs["axes"] = "Q"\n', ""),
    "with an absent default": ('h["/e"].attrs["default"] = "x"\nh["/e"].attrs["signal"] = "I"\nh["/e"].attrs["axes"] = "Q"\n', ""),
    "by paths without Q": ("", "{'I': '/e/I', 'ISigma': '/e/ISigma'}"),
    "by paths without uncertainties": ("", "{'I': '/e/I', 'Q': '/e/Q'}"),
    "by paths without intensity": ("", "{'ISigma': '/e/ISigma', 'Q': '/e/Q'}"),
    "by a path to nothing": ("", "{'I': '/e/J', 'ISigma': '/e/ISigma', 'Q': '/e/Q'}"),
}


def build(g, default, n, sig, unc, mask, axes):
    s = "with h5py.File(X, 'w') as h:\n"
    b = f"G, N = {g!r}, {n!r}\nh[G + N] = W['I']\nh[G + {axes[0]!r}] = W['Q']\n"
    if unc[0]:
        b += f"h[G + {unc[0]!r}] = W['ISigma']\n"
    if mask[0]:
        b += f"h[G + {mask[0]!r}] = W['mask']\n"
    b += "decoys(h, G)\n" + default + f"h[G].attrs['signal'] = {sig}\n" + unc[1] + mask[1] + axes[1]
    return s + "".join("    " + x + "\n" for x in b.splitlines())


def check(cx):
    todo = []
    base = ("two defaults", "signal frame", "uncertainty of the group", "mask", "axes Q", "1D")
    for i, options in enumerate((DEFAULTS, SIGNALS, UNC, MASKS, AXES, READ)):
        for o in options:
            for other in (base, ("no default", "signal I", "no uncertainty", "no mask", "a list in I_axes", "1D, read afterwards")):
                c = list(other)
                c[i] = o
                if c not in todo:
                    todo.append(c)
    if cx.tier == "thorough":
        import itertools

        # every pair of options
        opts = [list(o) for o in (DEFAULTS, SIGNALS, UNC, MASKS, AXES, READ)]
        for i, j in itertools.combinations(range(6), 2):
            for x, y in itertools.product(opts[i], opts[j]):
                c = list(base)
                c[i], c[j] = x, y
                if c not in todo:
                    todo.append(c)
    for d, s, u, m, a, r in todo:
        (g, default), (n, sig), unc, mask, axes = DEFAULTS[d], SIGNALS[s], UNC[u], MASKS[m], AXES[a]
        src = HEAD + DECOY + build(g, default, n, sig, unc, mask, axes) + READ[r] + CLAIMS + MASKCLAIM[bool(mask[0])] + (UNCCLAIM if unc[0] else FRACTION)
        cx.drive(", ".join((d, s, u, m, a, r)), src, STUBS, completes=True)
    # paths given by the user
    for m in (False, True):
        for lead in ("/", ""):
            names = [("Q", "a/x"), ("I", "b/y"), ("ISigma", "b/z")] + ([("mask", "c/w")] if m else [])
            for k in range(len(names)):
                order = names[k:] + names[:k]
                paths = "{" + ", ".join(f"{q!r}: {lead + p!r}" for q, p in order) + "}"
                src = HEAD + DECOY + "with h5py.File(X, 'w') as h:\n" + "".join(f"    h['/{p}'] = W[{q!r}]\n" for q, p in names) + "    decoys(h, '/b/')\n"
                src += f"d = McData1D(filename=X, nbins=0, pathDict={paths})\n" + CLAIMS + UNCCLAIM + MASKCLAIM[m]
                cx.drive(f"paths in the order of {order[0][0]}, {'mask' if m else 'no mask'}, {'absolute' if lead else 'relative'}", src, STUBS, completes=True)
    # the file says otherwise
    src = HEAD + DECOY + build("/entry/", DEFAULTS["one default"][1], "frame", '"frame"', UNC["uncertainty of the group"], MASKS["mask"], AXES["axes Q"]).replace("W[", "D[").replace("with", "D = values('declared')\nwith", 1)
    src += "    for n in W:\n        h['/x/' + n] = W[n]\nd = McData1D(filename=X, nbins=0, pathDict={'Q': '/x/Q', 'I': '/x/I', 'ISigma': '/x/ISigma'})\n" + CLAIMS + UNCCLAIM + MASKCLAIM[False]
    cx.drive("paths given although the file has others", src, STUBS, completes=True)
    # images
    for how in ("attributes", "paths"):
        for m in ("mask", "no mask"):
            src = IMAGE.replace("MASKATTR", 'h["/e/d"].attrs["mask"] = "bad"' if m == "mask" else "pass").replace("PATHS", "" if how == "attributes" else "pathDict=dict(Q='/e/d/Q', I='/e/d/frame', ISigma='/e/d/dI'" + (", mask='/e/d/bad'" if m == "mask" else "") + "), ")
            src += 'SA_EQ("mask", d.rawData2D["mask"], M)\n' if m == "mask" else 'SA_TRUE("no mask but the declared one", "mask" not in d.rawData2D)\n'
            cx.drive(f"2D, {how}, {m}", src, STUBS, completes=True)
    for what, (attrs, paths) in REFUSED.items():
        src = HEAD + "with h5py.File(X, 'w') as h:\n    for n in W:\n        h['/e/' + n] = W[n]\n    h['/'].attrs['default'] = 'e'\n" + "".join("    " + x + "\n" for x in attrs.splitlines())
        src += "ok = True\ntry:\n    McData1D(filename=X, nbins=0" + (f", pathDict={paths}" if paths else "") + f")\nexcept Exception:\n    ok = False\nSA_TRUE('refused: a file {what}', not ok)\n"
        cx.drive("refused: " + what, src, STUBS)


IMAGE = '''
import numpy as np, pandas, h5py
from mcsas3.mc_data_2d import McData2D
X = SA_PATH("x.nxs")
SA_FRESH(X)
I, S, QX, QY, M, O = [SA_SYM(n + "2D", "array") for n in ("I", "S", "QX", "QY", "M", "O")]
with h5py.File(X, "w") as h:
    h["/e/d/Q"] = np.array([QY, QX])
    h["/e/d/frame"] = I
    h["/e/d/dI"] = S
    h["/e/d/bad"] = M
    h["/e/d/mask"] = O
    h["/e/d/I"] = O
    h["/e/d/ISigma"] = O
    h["/e/I"] = O
    h["/"].attrs["default"] = "e"
    h["/e"].attrs["default"] = "d"
    h["/e/d"].attrs["signal"] = "frame"
    h["/e/d"].attrs["frame_uncertainty"] = "dI"
    h["/e/d"].attrs["axes"] = "Q"
    MASKATTR
if not QY.any():
    raise SystemExit
if not QX.any():
    raise SystemExit
d = McData2D(filename=X, PATHSnbins=0)
SA_EQ("intensity", d.rawData2D["I"], I)
SA_EQ("uncertainty", d.rawData2D["ISigma"], S)
SA_EQ("Q", d.rawData2D["Qx"], QX)
SA_EQ("Q", d.rawData2D["Qy"], QY)
'''
HOW = "reading files of each layout with unknown content is analysed; every quantity read is compared with the one the file or the user declares"
