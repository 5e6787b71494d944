"""Hash-consed value terms: the nodes of the value graph that the analysis builds.

A term stands for the value an expression has at one point of the program.  Equal terms are the
same object, so comparing two values is comparing two pointers (global value numbering).  Terms are
only built and compared, never evaluated.
"""

from fractions import Fraction

_TAB = {}


class T:
    __slots__ = ("op", "a", "id", "_kind", "_norm", "_lift")

    def __repr__(self):
        return show(self, 7)


def _key(x):
    if isinstance(x, T):
        return x
    return (type(x).__name__, repr(x) if isinstance(x, float) else x)


def mk(op, *a):
    key = (op,) + tuple(_key(x) for x in a)
    t = _TAB.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_TAB)
        t._kind = None
        t._norm = None
        t._lift = None
        _TAB[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ELL = mk("ellipsis")
ABSENT = mk("absent")
UNDEF = mk("undef")


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.a[0]


def cstr(t):
    return t.op == "const" and isinstance(t.a[0], str)


def cint(t):
    return t.op == "const" and type(t.a[0]) is int


def cnum(t):
    return t.op == "const" and type(t.a[0]) in (int, float)


def sym(name, kind="any"):
    return mk("sym", name, kind)


def ext(name):
    return mk("ext", name)


def tup(*items):
    return mk("tuple", *items)


def call(fn, *args, **kw):
    return mk("call", fn, *args, *[mk("kw", k, kw[k]) for k in sorted(kw)])


def unk(why):
    return mk("unk", why)


def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x


def walk(t):
    """every distinct sub-term"""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for k in kids(x):
            if k not in seen:
                todo.append(k)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def has(t, sub):
    return any(x is sub for x in walk(t))


def has_op(t, *ops):
    return any(x.op in ops for x in walk(t))


def syms(t):
    return {x.a[0] for x in walk(t) if x.op == "sym"}


def subst(t, m):
    """replace sub-terms by the mapping m (T -> T), rebuilding through the constructors"""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        if not any(isinstance(k, T) for k in x.a):
            memo[x] = x
            return x
        na = tuple(go(k) if isinstance(k, T) else k for k in x.a)
        r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
        memo[x] = r
        return r

    return go(t)


def transform(t, f):
    """bottom-up rewriting with f(T) -> T"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        na = tuple(go(k) if isinstance(k, T) else k for k in x.a)
        r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
        r = f(r)
        memo[x] = r
        return r

    return go(t)


def rebuild(op, a):
    if op == "gamma":
        return gamma(*a)
    if op == "not":
        return neg(a[0])
    if op in ("and", "or"):
        return conj(a) if op == "and" else disj(a)
    if op == "strcat":
        return strcat(*a)
    if op == "bin":
        return binop(*a)
    if op == "item" and a[0].op in ("tuple", "list", "map", "gamma") :
        return item(*a)
    return mk(op, *a)


# -- conditions ---------------------------------------------------------------------------------


def neg(c):
    if c.op == "not":
        return c.a[0]
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    return mk("not", c)


def gamma(c, a, b):
    """value that is a where c holds and b elsewhere"""
    while c.op == "not":
        c, a, b = c.a[0], b, a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    while a.op == "gamma" and a.a[0] is c:
        a = a.a[1]
    while b.op == "gamma" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    if b is FALSE and is_bool(a):
        return conj([c, a])
    if a is TRUE and is_bool(b):
        return disj([c, b])
    if a is FALSE and is_bool(b):
        return conj([neg(c), b])
    if b is TRUE and is_bool(a):
        return disj([neg(c), a])
    return mk("gamma", c, a, b)


def conj(cs):
    out = []
    for c in cs:
        for d in c.a if c.op == "and" else (c,):
            if d is FALSE:
                return FALSE
            if d is TRUE or d in out:
                continue
            if neg(d) in out:
                return FALSE
            out.append(d)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk("and", *out)


def disj(cs):
    return neg(conj([neg(x) for c in cs for x in (c.a if c.op == "or" else (c,))]))


BOOL_OPS = {"notna", "and", "or", "not", "cmp", "isnone", "isinstance", "truth", "in", "h5in", "all", "any"}
BOOL_CALLS = {
    "numpy.isnan", "numpy.isinf", "numpy.isfinite", "numpy.any", "numpy.all", "math.isnan",
    "math.isinf", "math.isfinite", "numpy.isclose", "numpy.array_equal", "isfile", "isdir", "exists", "samefile",
    "pandas.isna", "pandas.isnull", "pandas.notna", "startswith", "endswith", "notnull",
}


def is_bool(t):
    if t.op == "const":
        return isinstance(t.a[0], bool)
    if t.op in BOOL_OPS:
        return True
    if t.op == "sym":
        return t.a[1] in ("bool", "boolarray")
    if t.op == "call":
        return t.a[0] in BOOL_CALLS
    if t.op == "gamma":
        return is_bool(t.a[1]) and is_bool(t.a[2])
    if t.op == "item":
        return is_bool(t.a[0])
    return False


# -- arithmetic ---------------------------------------------------------------------------------

PYBIN = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
    "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a**b,
}


def binop(op, a, b):
    if cnum(a) and cnum(b):
        try:
            v = PYBIN[op](cval(a), cval(b))
            if isinstance(v, (int, float)):
                return const(v)
        except Exception:
            pass
    if op == "+" and cnum(b) and cval(b) == 0 and kind(a) in ("int", "num", "float", "array"):
        return a
    if op == "+" and cnum(a) and cval(a) == 0 and kind(b) in ("int", "num", "float", "array"):
        return b
    if op == "-" and a is b and kind(a) in ("int", "num"):
        return const(0)
    # integer offsets: (x + c) + d
    if op in "+-" and cint(b) and a.op == "bin" and a.a[0] in "+-" and cint(a.a[2]):
        d = cval(a.a[2]) * (1 if a.a[0] == "+" else -1) + cval(b) * (1 if op == "+" else -1)
        return binop("+", a.a[1], const(d)) if d >= 0 else binop("-", a.a[1], const(-d))
    return mk("bin", op, a, b)


def item(x, i):
    """element of a container value"""
    if x.op in ("tuple", "list") and cint(i):
        n = cval(i)
        if -len(x.a) <= n < len(x.a):
            return x.a[n]
        return mk("unk", "index out of range")
    if x.op == "gamma" and x.a[1].op in ("tuple", "list") and x.a[2].op in ("tuple", "list"):
        return gamma(x.a[0], item(x.a[1], i), item(x.a[2], i))
    if x.op == "map" and x.a[3] is TRUE and not (cint(i) and cval(i) < 0) and i.op != "slice":
        return subst(x.a[2], {x.a[1]: i})
    return mk("item", x, i)


# -- strings and paths --------------------------------------------------------------------------


def pieces(t):
    if t.op == "strcat":
        return list(t.a)
    return [t]


def strcat(*parts):
    out = []
    for p in parts:
        for q in pieces(p):
            if cstr(q) and out and cstr(out[-1]):
                out[-1] = const(cval(out[-1]) + cval(q))
            elif cstr(q) and cval(q) == "":
                continue
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and (cstr(out[0]) or kind(out[0]) == "str"):
        return out[0]
    return mk("strcat", *out)


def pathjoin(a, b):
    pa, pb = pieces(a), pieces(b)
    if pb and cstr(pb[0]) and cval(pb[0]).startswith("/"):
        return b
    if a.op == "const" and cval(a) in ("", "."):
        return b
    if pa and cstr(pa[-1]) and cval(pa[-1]).endswith("/"):
        return strcat(a, b)
    return strcat(a, const("/"), b)


def components(t):
    """path text -> list of components, each a text term"""
    comps = [[]]
    for p in pieces(t):
        if cstr(p):
            bits = cval(p).split("/")
            if bits[0]:
                comps[-1].append(const(bits[0]))
            for b in bits[1:]:
                comps.append([const(b)] if b else [])
        else:
            comps[-1].append(p)
    return [strcat(*c) for c in comps if c]


def from_components(comps, absolute=True):
    out = []
    for i, c in enumerate(comps):
        if i or absolute:
            out.append(const("/"))
        out.append(c)
    return strcat(*out) if out else const("/" if absolute else ".")


def is_abs(t):
    p = pieces(t)
    return bool(p) and cstr(p[0]) and cval(p[0]).startswith("/")


# -- kinds: what type of value a term has, as far as known ---------------------------------------

ARRAY_FUN = set(
    "numpy." + n
    for n in (
        "zeros ones full array asarray empty linspace logspace geomspace arange abs sqrt log log10 exp sin cos "
        "isnan isinf isfinite diff concatenate vstack hstack stack where argwhere clip square power median_ "
        "zeros_like ones_like full_like flatten ravel squeeze invert logical_and logical_or logical_not histogram_bin_edges "
        "cumsum interp digitize atleast_1d unique sort nonzero column_stack flatnonzero floor ceil round"
    ).split()
)
SCALAR_FUN = {"len", "int", "round", "size", "ndim", "multiprocessing.cpu_count", "os.cpu_count"}
STR_FUN = {"str", "repr", "format", "str.lower", "str.upper", "str.strip", "decode", "join"}
LIKE_FIRST = {
    "numpy.abs", "numpy.sqrt", "numpy.log", "numpy.log10", "numpy.exp", "numpy.sin", "numpy.cos", "numpy.isnan", "numpy.isinf",
    "numpy.isfinite", "numpy.square", "numpy.power", "numpy.clip", "numpy.floor", "numpy.ceil", "numpy.round", "numpy.invert",
    "numpy.logical_and", "numpy.logical_or", "numpy.logical_not",
}
REDUCE = {"mean", "sum", "min", "max", "std", "var", "median", "sem", "prod"}


def kind(t):
    k = t._kind
    if k is None:
        k = t._kind = _kind(t)
    return k


SA_KIND = {"SA_unitspace": "array", "SA_roundedspace": "array", "SA_rounded": "float", "SA_bcast": "array", "SA_calcI": "array", "SA_calcV": "num", "SA_matchx": "array", "SA_matchg": "num", "SA_nonneg": "num"}


def _kind(t):
    op = t.op
    if op == "const":
        v = t.a[0]
        if v is None:
            return "none"
        if isinstance(v, bool):
            return "bool"
        return {"int": "int", "float": "float", "str": "str", "bytes": "bytes"}.get(type(v).__name__, "any")
    if op == "sym":
        return t.a[1]
    if op == "ref":
        return t.a[1]
    if op == "mu":
        return t.a[2]
    if op in ("tuple", "list", "dict", "set"):
        return op
    if op in ("dfc", "rowset", "dropcols", "fr", "cols"):
        return "df"
    if op == "filter":
        return kind(t.a[0])
    if op == "notna":
        return "series"
    if op == "rowdict":
        return "dict"
    if op == "serc":
        return "series"
    if op == "strcat":
        return "str"
    if op == "P":
        return "path"
    if op == "bv":
        return "int"
    if op in ("elem", "item"):
        x = t.a[0]
        while x.op == "call" and x.a[0] in ("sorted", "list", "tuple", "reversed", "set") and len(x.a) > 1 and isinstance(x.a[1], T):
            x = x.a[1]
        if x.op == "call" and x.a[0] in ("path.glob", "path.rglob", "path.iterdir"):
            return "path"
        if x.op == "call" and x.a[0] in ("glob.glob", "glob.iglob", "os.listdir"):
            return "str"
    if op in ("func", "bound", "class", "closure", "partial", "ext", "bmeth", "module"):
        return "func" if op not in ("class", "module") else op
    if op in ("cmp", "and", "or", "not"):
        ks = {kind(x) for x in kids(t)}
        for k in ("array", "boolarray", "series", "df"):
            if k in ks and not (op == "cmp" and t.a[0] in ("in", "notin")):
                return "boolarray" if k == "array" else k
        return "bool"
    if op in BOOL_OPS:
        return "bool"
    if op == "gamma":
        ka, kb = kind(t.a[1]), kind(t.a[2])
        if ka == kb:
            return ka
        if {ka, kb} <= {"int", "float", "num", "bool"}:
            return "num"
        if {ka, kb} <= {"array", "boolarray"}:
            return "array"
        return "any"
    if op == "call" and isinstance(t.a[0], str) and t.a[0].startswith("SA_fun:"):
        return "array"
    if op == "call" and t.a[0] in SA_KIND:
        return SA_KIND[t.a[0]]
    if op == "bin":
        o, a, b = t.a
        ka, kb = kind(a), kind(b)
        if "path" in (ka, kb) and o == "/":
            return "path"
        for k in ("df", "series", "array", "boolarray"):
            if k in (ka, kb):
                return "array" if k == "boolarray" else k
        if ka == kb == "int":
            return "num" if o in ("/", "**") else "int"
        if ka == kb == "str":
            return "str"
        if ka == kb == "list":
            return "list"
        if {ka, kb} <= {"int", "float", "num", "bool"}:
            return "float" if "float" in (ka, kb) and o != "**" else "num"
        return "any"
    if op == "neg":
        return kind(t.a[0])
    if op == "call":
        f = t.a[0]
        a0 = t.a[1] if len(t.a) > 1 and isinstance(t.a[1], T) else None
        if f in LIKE_FIRST and a0 is not None:
            k = kind(a0)
            return k if k != "int" else "num"
        if f in REDUCE and a0 is not None:
            if any(x.op == "kw" and x.a[0] == "axis" for x in kids(t)):
                return "array"
            k = kind(a0)
            return "series" if k == "df" else "num"
        if f in BOOL_CALLS:
            return "bool"
        if f in ARRAY_FUN:
            return "array"
        if f in SCALAR_FUN or f in ("SA_first", "SA_last"):
            return "int"
        if f in ("SA_some", "SA_count", "SA_where", "SA_column"):
            return "boolarray" if f == "SA_some" else "array"
        if f == "float":
            return "float"
        if f in STR_FUN:
            return "str"
        if f in ("copy", "squeeze", "flatten", "astype", "transpose") and a0 is not None:
            return kind(a0)
        if f.startswith("pandas.DataFrame") or f in ("pandas.read_csv", "filter", "dropna", "pandas.concat"):
            return "df" if f != "filter" or kind(a0) != "series" else "series"
        if f == "pint.Quantity":
            return "quantity"
        if f.startswith("pandas.Series") or f in ("between",):
            return "series"
        if f in ("values", "to_numpy"):
            return "array"
        if f in ("path", "with_suffix", "absolute", "resolve"):
            return "path"
        if f in ("to_dict",):
            return "dict"
        return "any"
    if op == "sum":
        return kind(t.a[2])
    if op == "map":
        return "list"
    if op in ("dmap", "dset", "dbuild"):
        return "dict"
    if op == "col":
        return "series"
    if op == "row":
        return "series"
    if op == "upd":
        return kind(t.a[0])
    if op == "build":
        return kind(t.a[0])
    if op == "item" and t.a[0].op == "call" and t.a[0].a[0] in ("SA_unitspace", "SA_roundedspace", "numpy.histogram_bin_edges", "numpy.linspace", "numpy.logspace", "numpy.geomspace") and cint(t.a[1]):
        return "float"
    if op == "item":
        k = kind(t.a[0])
        i = t.a[1]
        if t.a[0].op == "call" and t.a[0].a[0] in ("numpy.histogram", "numpy.meshgrid", "numpy.histogram2d", "numpy.where", "numpy.nonzero") and cint(i):
            return "array"
        if k in ("array", "boolarray", "series"):
            ki = kind(i)
            if i.op == "slice" or i.op in ("tuple", "seq") and any(x.op == "slice" for x in i.a) or ki in ("array", "boolarray", "series"):
                return k
        if k == "str":
            return "str"
        if cint(i) and t.a[0].op == "call" and t.a[0].a[0] == "SA_matchx" or cstr(i) and cval(i) == "fun":
            return "num"
        if cint(i) and k == "array" and t.a[0].op == "sym" and t.a[0].a[0].endswith("x0"):
            return "num"
        return "any"
    if op == "attr":
        if t.a[1] in ("shape",):
            return "tuple"
        if t.a[1] in ("size", "ndim"):
            return "int"
        if t.a[1] in ("T",):
            return kind(t.a[0])
        return "any"
    if op in ("h5val",):
        return "any"
    if op == "draw":
        return "num" if t.a[-1] is NONE else "array"
    if op in ("h5file", "h5node", "h5attrs", "file", "inst"):
        return op
    if op == "range":
        return "range"
    if op == "conv":
        return t.a[0]
    return "any"


# -- display ------------------------------------------------------------------------------------


def show(t, depth=5):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "const":
        return repr(t.a[0])
    if t.op in ("sym", "ext", "class", "module", "func"):
        return str(t.a[0])
    if t.op == "strcat":
        return '"' + "".join(str(cval(p)) if cstr(p) else "{" + show(p, depth - 1) + "}" for p in t.a) + '"'
    if t.op == "ref":
        return f"<{t.a[2] or t.a[1]}#{t.a[0]}>"
    if t.op == "bv":
        return f"i{t.a[0]}"
    if depth <= 0:
        return "…"
    if t.op == "poly":
        out = ""
        for m in t.a:
            k = str(m.a[0].a[0])
            fs = [show(x.a[0], depth - 1) + ("" if x.a[1] is const(1) else "**" + str(x.a[1].a[0])) for x in m.a[1:]]
            n = k.startswith("-")
            k = k[1:] if n else k
            f = "*".join(([k] if k != "1" or not fs else []) + fs)
            out += (" - " if n else " + ") + f if out else ("-" if n else "") + f
        return "(" + out + ")"
    s = [show(x, depth - 1) if isinstance(x, T) else str(x) for x in t.a]
    if t.op in ("lt0", "eq0"):
        return s[0] + (" < 0" if t.op == "lt0" else " == 0")
    if t.op == "rat":
        return str(t.a[0])
    if t.op == "attr":
        return f"{s[0]}.{s[1]}"
    if t.op == "item":
        return f"{s[0]}[{s[1]}]"
    if t.op in ("bin", "cmp"):
        return f"({s[1]} {s[0]} {s[2]})"
    if t.op in ("and", "or"):
        return "(" + f" {t.op} ".join(s) + ")"
    if t.op == "call":
        return f"{s[0]}({', '.join(s[1:])})"
    if t.op == "kw":
        return f"{s[0]}={s[1]}"
    if t.op == "gamma":
        return f"({s[1]} if {s[0]} else {s[2]})"
    if t.op == "dict":
        return "{" + ", ".join(f"{a}: {b}" for a, b in zip(s[::2], s[1::2])) + "}"
    if t.op == "list":
        return "[" + ", ".join(s) + "]"
    if t.op == "tuple":
        return "(" + ", ".join(s) + ")"
    return f"{t.op}({', '.join(s)})"


def special(t):
    """is this constant a number, infinite or not a number"""
    if t.op == "const":
        v = t.a[0]
        if isinstance(v, bool) or isinstance(v, str) or not isinstance(v, (int, float, Fraction)):
            return None
        return "finite" if isinstance(v, (int, Fraction)) or (v == v and abs(v) != float("inf")) else "nan" if v != v else "inf"
    if t.op in ("ext", "sym"):
        return {"numpy.nan": "nan", "numpy.inf": "inf", "math.nan": "nan", "math.inf": "inf"}.get(t.a[0])
    if t.op == "neg":
        return special(t.a[0])
    if t.op == "rat":
        return "finite"
    if t.op == "poly" and len(t.a) == 1 and len(t.a[0].a) == 2 and t.a[0].a[1].a[0].op in ("ext", "sym"):
        return special(t.a[0].a[1].a[0])
    return None
