"""C17: exactly the valid pixels within the limits are fitted, and a model is put back at exactly these pixels."""
from .common import *  # noqa: F403

HEAD = '''
import numpy as np, pandas, h5py
from mcsas3.mc_data_2d import McData2D
I, S, QX, QY, M = [SA_SYM(n + "2D", "array") for n in ("I", "S", "QX", "QY", "M")]
MODEL = SA_SYM("model", "array")
LO, HI, XLO, XHI, YLO, YHI = [SA_SYM(n, "float") for n in ("lo", "hi", "xlo", "xhi", "ylo", "yhi")]
LIMITS = dict(dataRange=[LO, HI], orthoQ1Range=[XLO, XHI], orthoQ0Range=[YLO, YHI])
def inside(lim):
    r = np.sqrt(QX ** 2 + QY ** 2)
    (lo, hi), (xlo, xhi), (ylo, yhi) = lim["dataRange"], lim["orthoQ1Range"], lim["orthoQ0Range"]
    return (r > lo) & (r < hi) & (np.abs(QX) > xlo) & (np.abs(QX) < xhi) & (np.abs(QY) > ylo) & (np.abs(QY) < yhi)
def cut(x, w):
    y, = np.where(np.any(w, axis=1))
    x0, = np.where(np.any(w, axis=0))
    return x[y.min() : y.max() + 1, x0.min() : x0.max() + 1]
def selected(what, d, v):
    SA_EQ(what + "intensity of the valid pixels", d["I"], I[v])
    SA_EQ(what + "uncertainty of the same pixels", d["ISigma"], S[v])
    SA_EQ(what + "first Q component of the same pixels", d["Q"][0], QY[v])
    SA_EQ(what + "second Q component of the same pixels", d["Q"][1], QX[v])
def putback(d, v, w):
    r = d.reconstruct2D(MODEL)
    want = np.full(cut(I, w).shape, np.nan)
    want[cut(v, w)] = MODEL
    SA_EQ("a model is put back at exactly these pixels", r, want)
    SA_EQ("the image a model is compared with is cut likewise", d.clippedData["I2D"], cut(I, w))
def claims(d, lim, mask):
    w = inside(lim) & ~mask if mask is not None else inside(lim)
    v = w & np.isfinite(I) & (S != 0)
    selected("limited: ", d.clippedData, v)
    putback(d, v, w)
    return v
'''
RAW = {"mask": "dict(I=I, ISigma=S, Qx=QX, Qy=QY, mask=M)", "no mask": "dict(I=I, ISigma=S, Qx=QX, Qy=QY)"}
MASK = {"mask": "M.astype(bool)", "no mask": "None"}
SETTINGS = {
    "at construction": ("d = McData2D(dataRange=[LO, HI])\nd.orthoQ1Range = (XLO, XHI)\nd.orthoQ0Range = (YLO, YHI)\n", "LIMITS"),
    "afterwards": ("d = McData2D()\nd.dataRange = [LO, HI]\nd.orthoQ1Range = [XLO, XHI]\nd.orthoQ0Range = [YLO, YHI]\n", "LIMITS"),
    "a part of them": ("d = McData2D(dataRange=(LO, HI))\nd.orthoQ0Range = [YLO, YHI]\n", "dict(LIMITS, orthoQ1Range=[0, np.inf])"),
    "none": ("d = McData2D()\n", "dict(dataRange=[0, np.inf], orthoQ1Range=[0, np.inf], orthoQ0Range=[0, np.inf])"),
}
# files: the components of Q are stacked, further ones are zero
FILE = '''
X = SA_PATH("x.nxs")
SA_FRESH(X)
with h5py.File(X, "w") as h:
    h["/e/q"] = STACK
    h["/e/i"] = I
    h["/e/s"] = S
    h["/e/m"] = M
    h["/"].attrs["default"] = "e"
    h["/e"].attrs["signal"] = "i"
    h["/e"].attrs["i_uncertainty"] = "s"
    h["/e"].attrs["axes"] = "q"
    MASKATTR
if not QY.any():
    raise SystemExit
if not QX.any():
    raise SystemExit
'''


def check(cx):
    for m, raw in RAW.items():
        for s, (make, lim) in SETTINGS.items():
            for nb in ("0", "100"):
                how = {"0": f"d.rawData2D = {raw}\nd.nbins = 0\nd.prepare()\n", "100": f"d.rawData2D = {raw}\nd.prepare()\n"}[nb]
                src = HEAD + make + how + f"v = claims(d, {lim}, {MASK[m]})\nselected('to fit: ', d.measData, v)\n"
                cx.drive(f"{m}, limits {s}, {nb} bins", src, STUBS, completes=True)
    for name, pile in (("two", "np.array([QY, QX])"), ("the last zero", "np.array([QY, QX, np.zeros(QX.shape)])"), ("the first zero", "np.array([np.zeros(QX.shape), QY, QX])")):
        for m, attr in (("mask", 'h["/e"].attrs["mask"] = "m"'), ("no mask", "")):
            head = HEAD + FILE.replace("STACK", pile).replace("MASKATTR", attr)
            paths = "dict(Q='/e/q', I='/e/i', ISigma='/e/s'" + (", mask='/e/m')" if attr else ")")
            for how, kw in (("attributes", ""), ("paths", f"pathDict={paths}, ")):
                src = head + f"d = McData2D(filename=X, {kw}nbins=0, dataRange=[LO, HI])\nv = claims(d, dict(dataRange=[LO, HI], orthoQ1Range=[0, np.inf], orthoQ0Range=[0, np.inf]), {MASK[m]})\nselected('to fit: ', d.measData, v)\n"
                cx.drive(f"file by its {how}, {m}, Q components: {name}", src, STUBS, completes=True)
    # used again with other limits and data
    src = HEAD + "d = McData2D(dataRange=[SA_SYM('lo0', 'float'), SA_SYM('hi0', 'float')])\n"
    src += "d.rawData2D = dict(I=SA_SYM('I02D', 'array'), ISigma=SA_SYM('S02D', 'array'), Qx=SA_SYM('QX02D', 'array'), Qy=SA_SYM('QY02D', 'array'), mask=SA_SYM('M02D', 'array'))\nd.prepare()\n"
    src += "d.dataRange, d.orthoQ1Range, d.orthoQ0Range = [LO, HI], [XLO, XHI], [YLO, YHI]\n"
    for m, raw in RAW.items():
        more = f"d.rawData2D = {raw}\nd.prepare()\nv = claims(d, LIMITS, {MASK[m]})\nselected('to fit: ', d.measData, v)\n"
        cx.drive(f"prepared again, {m}", src + more, STUBS, completes=True)


HOW = "the data set is prepared and a model put back with unknown images, mask and limits; the selections made are compared with their specification as conditions on single pixels"
