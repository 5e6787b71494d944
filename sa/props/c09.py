"""C09: a stored entry reads back as what was stored last."""
from .common import *  # noqa: F403

HEAD = '''
import numpy as np, pandas, pint
from pathlib import Path, PurePosixPath
from mcsas3.mc_hdf import storeKV, loadKV, storeKVPairs, loadKVPairs
f = SA_PATH("f.nxs")
P = PurePosixPath("/a/b")
I, J, X, Y, B = SA_SYM("i", "int"), SA_SYM("j", "int"), SA_SYM("x", "float"), SA_SYM("y", "float"), SA_SYM("b", "bool")
S, T = SA_SYM("s", "str"), SA_SYM("t", "str")
A, C = SA_SYM("A", "array"), SA_SYM("C", "array")
'''
# value, what reading gives, the datatype to read it with
VALUES = {
    "an integer": ("I", "I", ""),
    "a float": ("X", "X", ""),
    "a truth value": ("B", "B", ""),
    "a text": ("S", "S", ', datatype="str"'),
    "an array": ("A", "A", ""),
    "another array": ("C", "C", ""),
    "a short array": ("np.array([X, Y])", "np.array([X, Y])", ""),
    "a list": ("[X, Y, X]", "np.array([X, Y, X])", ""),
    "a tuple": ("(I, J)", "np.array([I, J])", ""),
    "a quantity": ("pint.Quantity(X, 'nm')", "X", ""),
    "a path": ("Path('/x/y.nxs')", "'/x/y.nxs'", ', datatype="str"'),
    "a series": ("pandas.Series([X, Y])", "np.array([X, Y])", ""),
}
ONE = HEAD + '''
SA_FRESH(f)
{before}
storeKV(f, P / "k", {value})
SA_EQ("a stored value is read back", loadKV(f, P / "k"{how}), {want})
'''
OVER = HEAD + '''
{before}
storeKV(f, P / "k", {value})
storeKV(f, P / "k", {value2})
SA_EQ("the value stored last is read back", loadKV(f, P / "k"{how}), {want})
storeKV(f, P / "k", None)
SA_EQ("an entry stored as nothing is absent", loadKV(f, P / "k", default=Y), Y)
SA_EQ("an entry stored as nothing is absent", loadKV(f, P / "k"), None)
storeKV(f, P / "k", {value2})
SA_EQ("the value stored last is read back", loadKV(f, P / "k"{how}), {want})
'''
MORE = {
    "absent": '''
SA_FRESH(f)
storeKV(f, P / "other", X)
SA_EQ("an absent entry has the default", loadKV(f, P / "k", default=Y), Y)
SA_EQ("an absent entry has the default", loadKV(f, P / "k", datatype="str", default=S), S)
SA_EQ("an absent entry has the default", loadKV(f, P / "k", datatype="dict", default=I), I)
SA_EQ("an absent entry has the default", loadKV(f, P / "k"), None)
SA_EQ("other entries do not answer for it", loadKV(f, P / "other"), X)
''',
    "dict": '''
SA_FRESH(f)
storeKV(f, P / "d", {"one": X, "two": S, "three": {"lo": I, "hi": J}, "arr": A})
d = loadKV(f, P / "d", datatype="dict")
SA_EQ("entries of a dict", d["one"], X)
SA_EQ("text in a dict", d["two"], S)
SA_EQ("entries of a nested dict", d["three"]["lo"], I)
SA_EQ("entries of a nested dict", d["three"]["hi"], J)
SA_EQ("entries of a dict", d["arr"], A)
SA_EQ("the names of a dict", sorted(d.keys()), ["arr", "one", "three", "two"])
SA_EQ("entries of a dict have their own places", loadKV(f, P / "d" / "one"), X)
SA_EQ("entries of a dict have their own places", loadKV(f, P / "d" / "three" / "hi"), J)
storeKV(f, P / "d", {"one": Y, "two": T, "three": {"lo": J, "hi": I}, "arr": C})
d = loadKV(f, P / "d", datatype="dict")
SA_EQ("entries of a dict stored again", d["one"], Y)
SA_EQ("text in a dict stored again", d["two"], T)
SA_EQ("entries of a nested dict stored again", d["three"]["lo"], J)
SA_EQ("entries of a dict stored again", d["arr"], C)
''',
    "texts": '''
SA_FRESH(f)
storeKV(f, P / "d", {"names": ["radius", "length"], "one": "radius"})
d = loadKV(f, P / "d", datatype="dict")
SA_EQ("a text in a dict is text", d["one"], "radius")
storeKV(f, P / "u", "µm, Å")
SA_EQ("a text with any letters is read back", loadKV(f, P / "u", datatype="str"), "µm, Å")
storeKV(f, P / "u", {"one": "Å", "two": ["µm", "x"]})
u = loadKV(f, P / "u", datatype="dict")
SA_EQ("a text with any letters is read back", u["one"], "Å")
SA_EQ("a text with any letters is read back", [str(i) for i in u["two"]], ["µm", "x"])
SA_EQ("a list of texts in a dict is texts", [str(i) for i in d["names"]], ["radius", "length"])
''',
    "table": '''
SA_FRESH(f)
df = pandas.DataFrame({"Q": [X, Y], "I": [I, J]})
storeKV(f, P / "t", df.to_dict(orient="split"))
r = loadKV(f, P / "t", datatype="dictToPandas")
SA_EQ("the columns of a table", [str(i) for i in r.columns], ["Q", "I"])
SA_EQ("the values of a table", r["Q"].values[0], X)
SA_EQ("the values of a table", r["Q"].values[1], Y)
SA_EQ("the values of a table", r["I"].values[0], I)
SA_EQ("the values of a table", r["I"].values[1], J)
storeKV(f, P / "u", df)
SA_EQ("a table is stored column by column", loadKV(f, P / "u" / "Q")[1], Y)
SA_EQ("a table is stored column by column", loadKV(f, P / "u" / "I")[0], I)
''',
    "pairs": '''
SA_FRESH(f)
storeKVPairs(f, P, [("one", X), ("two", I), ("none", None)])
SA_EQ("every pair is stored", loadKV(f, P / "one"), X)
SA_EQ("every pair is stored", loadKV(f, P / "two"), I)
SA_EQ("a pair without value is not stored", loadKV(f, P / "none", default=Y), Y)
d = {k: v for k, v in loadKVPairs(f, P, ["one", "two"])}
SA_EQ("pairs are read under their own names", d["one"], X)
SA_EQ("pairs are read under their own names", d["two"], I)
''',
    "pairs again": '''
SA_FRESH(f)
storeKVPairs(f, P, [("one", X), ("two", I), ("three", A)])
storeKVPairs(f, P, [("two", None), ("one", S), ("three", None), ("four", Y)])
SA_EQ("a pair stored as nothing is absent", loadKV(f, P / "two", default=J), J)
SA_EQ("a pair stored as nothing is absent", loadKV(f, P / "three"), None)
SA_EQ("every pair is stored again", loadKV(f, P / "one", datatype="str"), S)
SA_EQ("every pair is stored again", loadKV(f, P / "four"), Y)
storeKV(f, P / "d", {"a": X, "b": Y, "c": {"d": I}})
storeKV(f, P / "d", {"a": None, "b": T, "c": {"d": None}})
SA_EQ("an entry of a dict stored as nothing is absent", loadKV(f, P / "d" / "a", default=J), J)
SA_EQ("an entry of a dict stored as nothing is absent", loadKV(f, P / "d" / "c" / "d", default=J), J)
SA_EQ("entries of a dict stored again", loadKV(f, P / "d" / "b", datatype="str"), T)
''',
    "neighbours": '''
SA_FRESH(f)
storeKV(f, P / "k", X)
storeKV(f, P / "kk", Y)
storeKV(f, PurePosixPath("/a/c") / "k", I)
storeKV(f, P / "k", J)
SA_EQ("entries of the same name elsewhere are others", loadKV(f, PurePosixPath("/a/c/k")), I)
SA_EQ("entries of another name are others", loadKV(f, P / "kk"), Y)
SA_EQ("the value stored last is read back", loadKV(f, P / "k"), J)
''',
    "typed": '''
SA_FRESH(f)
storeKV(f, P / "k", X)
storeKV(f, P / "p", Path("/x/y.nxs"))
storeKV(f, P / "s", S)
SA_EQ("a path is read as a path", loadKV(f, P / "p", datatype=Path), Path("/x/y.nxs"))
SA_EQ("a number is read as a number", loadKV(f, P / "k", datatype=float), X)
''',
}


def check(cx):
    for n, (v, want, how) in VALUES.items():
        cx.drive(f"{n} in a new file", ONE.format(before="", value=v, want=want, how=how), completes="driver")
        cx.drive(f"{n} in any file", ONE.replace("SA_FRESH(f)\n", "").format(before="", value=v, want=want, how=how), completes="driver")
    pairs = [(a, b) for a in VALUES for b in VALUES] if cx.tier == "thorough" else [(a, b) for i, a in enumerate(VALUES) for j, b in enumerate(VALUES) if (j - i) % len(VALUES) in (0, 1, 2, 6)]
    for a, b in pairs:
        cx.drive(f"{a}, then {b}", OVER.format(before="SA_FRESH(f)", value=VALUES[a][0], value2=VALUES[b][0], want=VALUES[b][1], how=VALUES[b][2]), completes="driver")
    for n, src in MORE.items():
        cx.drive(n, HEAD + src, completes="driver")
