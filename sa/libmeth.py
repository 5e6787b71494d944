"""Models of methods and attributes of values: text, paths, lists, dictionaries, arrays."""

import codecs

from .terms import *  # noqa: F403
from .terms import T, mk
from .lib2d import is_mask, two
from .libtab import ALIAS, METHODS_SAME, STRMETH

DATAATTR = {"shape", "size", "ndim", "dtype", "T", "real", "imag", "flat", "nbytes", "itemsize", "start", "stop", "step", "args", "kind"}
RNGDIST = {"uniform", "normal", "integers", "random", "choice", "exponential", "lognormal", "shuffle", "permutation", "standard_normal", "triangular",
           "gamma", "beta", "poisson", "spawn", "bytes", "rand", "randn", "randint", "random_sample"}


def ofplot(o):
    while o.op in ("item", "attr"):
        o = o.a[0]
    return o.op == "sym" and o.a[0] in ("figure", "panels")


class MethMixin:
    # -- paths -------------------------------------------------------------------------------------

    def ptext(self, p):
        """text of a path or a string"""
        e = self.e
        p = e.simp(p)
        if p.op == "P":
            return p.a[0]
        if p.op == "gamma":
            return gamma(p.a[0], self.ptext(p.a[1]), self.ptext(p.a[2]))
        return self.str_(p)

    def mkpath(self, *parts):
        t = None
        for p in parts:
            x = self.ptext(p)
            t = x if t is None else pathjoin(t, x)
        if t is None:
            t = const(".")
        if t.op == "gamma":
            return gamma(t.a[0], self.mkpath(t.a[1]), self.mkpath(t.a[2]))
        if t.op == "call" and t.a[0] == "str" and kind(t.a[1]) == "path":
            return t.a[1]
        if cstr(t) and len(cval(t)) > 1:
            import posixpath

            t = const(posixpath.normpath(cval(t)) if ".." not in cval(t) else cval(t))
        return mk("P", t)

    def pathdiv(self, a, b):
        e = self.e
        a, b = e.simp(a), e.simp(b)
        for x in (a, b):
            if x.op == "gamma":
                return gamma(x.a[0], self.pathdiv(x.a[1] if x is a else a, b if x is a else x.a[1]), self.pathdiv(x.a[2] if x is a else a, b if x is a else x.a[2]))
        return self.e.note(self.mkpath(a, b))

    def f_pathlib_Path(self, args, kw):
        return self.e.note(self.mkpath(*args))

    f_pathlib_PurePosixPath = f_pathlib_PosixPath = f_pathlib_PurePath = f_pathlib_Path

    def f_pathlib_Path_cwd(self, args, kw):
        return mk("P", mk("call", "cwd"))

    def f_os_path_join(self, args, kw):
        return self.ptext(self.mkpath(*args))

    f_posixpath_join = f_os_path_join

    def f_os_fspath(self, args, kw):
        return self.ptext(args[0])

    def f_isfile(self, args, kw):
        return self.fs("isfile", args[0])

    def f_exists(self, args, kw):
        return self.fs("exists", args[0])

    def f_isdir(self, args, kw):
        return self.fs("isdir", args[0])

    def f_samefile(self, args, kw):
        a, b = (self.topath(x) for x in args)
        return self.e.fact(mk("call", "samefile", *sorted((a, b), key=lambda t: t.id)))

    def topath(self, p):
        e = self.e
        p = e.simp(p)
        return p if kind(p) == "path" else self.mkpath(p)

    def gone(self, p):
        """is this a file that is not there"""
        return bare(p) in self.absent

    def notfound(self):
        self.e.raise_(self.e.st, "FileNotFoundError")
        self.e.st = None
        return unk("dead")

    def fs(self, what, p):
        f = e_val(self.e, self.topath(p))
        if what in ("isfile", "exists") and any(k[0] == "H" and k[1] is f and v.op not in ("gamma", "absent", "h5init", "unk") for k, v in self.e.st.store.items()):
            return TRUE
        g = bare(f)
        if g in self.absent:
            return FALSE
        if g in self.there:
            return const(what != "isdir")
        return self.e.fact(mk("call", what, f))

    def f_os_remove(self, args, kw):
        self.e.event("unlink", path=e_val(self.e, self.topath(args[0])), fn="os.remove")
        return NONE

    f_os_unlink = f_os_remove

    def f_shutil_rmtree(self, args, kw):
        self.e.event("unlink", path=e_val(self.e, self.topath(args[0])), fn="shutil.rmtree")
        return NONE

    def path_attr(self, o, name):
        e = self.e
        if o.op == "P" and name in ("parent", "name", "stem", "suffix", "parts"):
            cs = components(o.a[0])
            ab = is_abs(o.a[0])
            sure = ab or all(p.op == "const" for p in pieces(o.a[0])) or len(cs) > 1
            if sure and cs:
                if name == "parent":
                    return mk("P", from_components(cs[:-1], ab)) if len(cs) > 1 or ab else mk("P", const("."))
                if name == "name":
                    return cs[-1]
                if name == "parts":
                    return tup(*([const("/")] if ab else []), *cs)
                if cstr(cs[-1]):
                    n = cval(cs[-1])
                    i = n.rfind(".")
                    if name == "suffix":
                        return const(n[i:] if i > 0 else "")
                    return const(n[:i] if i > 0 else n)
        v = e.val(o)
        if v.op == "call" and v.a[0] in ("absolute", "resolve") and name in ("name", "stem", "suffix") and v.a[1].op == "P":
            return self.path_attr(v.a[1], name)
        if name == "parent":
            return mk("P", mk("call", "parent", v))
        if name in ("name", "stem", "suffix"):
            return mk("call", "str", mk("attr", v, name))
        return mk("attr", v, name)

    def path_method(self, o, name, args, kw):
        e = self.e
        v = e.val(o)
        if name in ("is_file",):
            return self.fs("isfile", v)
        if name == "exists":
            return self.fs("exists", v)
        if name == "is_dir":
            return self.fs("isdir", v)
        if name == "samefile":
            return self.f_samefile([v, args[0]], {})
        if name == "unlink":
            e.event("unlink", path=v, fn="unlink")
            return NONE
        if name in ("rename", "replace", "rmdir", "write_text", "write_bytes", "touch", "mkdir", "chmod", "symlink_to"):
            e.event("fswrite" if name not in ("rename", "replace", "rmdir") else "unlink", path=v, fn=name)
            return mk("call", name, v, *[e.val(a) for a in args])
        if name in ("as_posix", "__str__", "__fspath__"):
            return self.ptext(v)
        if name == "absolute" and v.op == "P" and is_abs(v.a[0]):
            return v
        if name in ("absolute", "resolve", "expanduser"):
            return mk("call", name, v)
        if name == "joinpath":
            return e.note(self.mkpath(o, *args))
        if name == "open":
            return self.call("open", [v] + args, kw)
        if name == "is_absolute" and v.op == "P" and is_abs(v.a[0]):
            return TRUE
        if name == "read_text":
            return mk("call", "read", mk("call", "open", v))
        if name == "with_suffix":
            return mk("call", "with_suffix", v, *[e.val(a) for a in args])
        if name == "with_name":
            return self.mkpath(self.path_attr(v, "parent"), args[0])
        return mk("call", "path." + name, v, *[e.val(a) for a in args], *self.kws(kw))

    # -- text --------------------------------------------------------------------------------------

    def recode(self, o, name, args, kw):
        """text to bytes and back: the same text, unless another encoding than UTF-8 is asked for"""
        enc = args[0] if args else kw.get("encoding", const("utf-8"))
        err = args[1] if len(args) > 1 else kw.get("errors", const("strict"))
        if not cstr(enc) or not cstr(err):
            return o if enc is NONE else unk("encoding")
        try:
            n = codecs.lookup(cval(enc)).name
        except LookupError:
            return unk("encoding")
        if n == "utf-8":
            return o
        if cstr(o):
            try:
                a, b = ("utf-8", n) if name == "decode" else (n, "utf-8")
                return const(cval(o).encode(a, cval(err)).decode(b, cval(err)))
            except UnicodeError:
                self.e.raise_(self.e.st, "UnicodeError")
                self.e.st = None
                return unk("dead")
        return mk("call", "SA_recode", o, const(n))

    def str_method(self, o, name, args, kw):
        e = self.e
        if name == "format":
            r = self.fmt(o, args, kw)
            if r is not None:
                return r
        if name == "join":
            ks = self.known(args[0])
            if ks is not None:
                out = []
                for i, k in enumerate(ks):
                    out += ([o] if i else []) + [self.str_(k)]
                return strcat(*out)
            return mk("call", "join", o, e.val(args[0]))
        if name in ("decode", "encode"):
            return self.recode(o, name, args, kw)
        if name in ("startswith", "endswith") and len(args) == 1 and args[0].op != "const" and kind(e.val(args[0])) != "str" and self.known(args[0]) is not None:
            return e.fact(disj([e.truth(self.str_method(o, name, [k], {})) for k in self.known(args[0])]))
        if cstr(o) and all(a.op == "const" for a in args) and name in STRMETH and not kw:
            try:
                r = getattr(cval(o), name)(*[cval(a) for a in args])
            except ValueError:
                e.raise_(e.st, "ValueError")
                e.st = None
                return unk("dead")
            if isinstance(r, (list, tuple)):
                items = [const(x) for x in r]
                return e.fresh_ref("list", mk("list", *items)) if isinstance(r, list) else tup(*items)
            return const(r)
        p = pieces(o)
        if len(p) > 1 and args and all(cstr(a) for a in args):
            a = cval(args[0])
            if name == "startswith" and cstr(p[0]) and (len(cval(p[0])) >= len(a)):
                return const(cval(p[0]).startswith(a))
            if name == "endswith" and cstr(p[-1]) and len(cval(p[-1])) >= len(a):
                return const(cval(p[-1]).endswith(a))
            if name in ("strip", "lstrip", "rstrip", "removeprefix", "replace", "split", "removesuffix"):
                r = self.trim(p, name, [cval(x) for x in args])
                if r is not None:
                    return r
        return e.note(mk("call", "str." + name, e.val(o), *[e.val(a) for a in args], *self.kws(kw)))

    def isnumtext(self, t):
        return t.op == "call" and t.a[0] == "str" and kind(t.a[1]) == "int"

    def trim(self, p, name, args):
        """text made of constant pieces and numbers"""
        e = self.e
        a = args[0]
        digits = set("0123456789")
        if not all(cstr(x) or self.isnumtext(x) for x in p):
            return None
        if name == "removeprefix" and cstr(p[0]) and len(cval(p[0])) >= len(a):
            return strcat(const(cval(p[0]).removeprefix(a)), *p[1:])
        if name in ("strip", "lstrip", "rstrip") and not digits & set(a):
            p = list(p)
            if name != "rstrip" and cstr(p[0]):
                p[0] = const(cval(p[0]).lstrip(a))
            if name != "lstrip" and cstr(p[-1]):
                p[-1] = const(cval(p[-1]).rstrip(a))
            return strcat(*p)
        if name == "replace" and not digits & set(a):
            return strcat(*[const(cval(x).replace(a, args[1])) if cstr(x) else x for x in p])
        if name == "split" and not digits & set(a) and len(args) == 1:
            parts = [[]]
            for x in p:
                if cstr(x):
                    bits = cval(x).split(a)
                    parts[-1].append(const(bits[0]))
                    for b in bits[1:]:
                        parts.append([const(b)])
                else:
                    parts[-1].append(x)
            return e.fresh_ref("list", mk("list", *[strcat(*q) for q in parts]))
        return None

    def spec(self, v, spec):
        """a value in a format"""
        s = cval(spec) if cstr(spec) else None
        if s == "" or s == "s" and kind(v) == "str" or s == "d" and kind(v) == "int":
            return self.str_(v)
        v = self.e.val(v)
        if v.op == "const" and s is not None:
            try:
                return const(format(cval(v), s))
            except (TypeError, ValueError):
                pass
        return mk("call", "format", v, spec)

    def fmt(self, o, args, kw):
        if not cstr(o):
            return None
        import string

        out, n = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(cval(o)):
                out.append(const(lit))
                if field is None:
                    continue
                if field == "":
                    field = str(n)
                    n += 1
                if conv not in (None, "s") or "{" in (spec or ""):
                    return None
                if field.isdigit():
                    x = args[int(field)]
                elif field in kw:
                    x = kw[field]
                else:
                    return None
                out.append(self.spec(x, const(spec or "")))
        except Exception:
            return None
        return strcat(*out)

    # -- attributes ----------------------------------------------------------------------------------

    def attr(self, o, name):
        e = self.e
        k = kind(o)
        if o.op == "ref":
            m = getattr(self, "attr_" + o.a[1], None)
            if m is not None:
                r = m(o, name)
                if r is not None:
                    return r
        if k in ("path",) or k == "opt:path":
            if name in ("parent", "name", "stem", "suffix", "parts", "suffixes", "anchor"):
                return self.path_attr(o, name)
            return mk("bmeth", name, o)
        if o.op in ("h5node", "h5file", "h5attrs"):
            return self.h5attr(o, name)
        if k in ("df", "series"):
            r = self.df_attr(o, name)
            if r is not None:
                return r
            return mk("bmeth", name, o)
        if o.op in ("func", "bound", "closure") and name in ("__name__", "__qualname__"):
            return const(o.a[0].split(".")[-1]) if isinstance(o.a[0], str) else const("f")
        if name == "__class__":
            return self.f_type([o], {}) or mk("attr", e.val(o), name)
        v = e.val(o)
        if k in ("array", "boolarray", "strarray", "list", "tuple", "any", "num", "float") and name in DATAATTR:
            r = self.arr_attr(v, name)
            if name == "kind" and v.op == "attr" and v.a[1] == "dtype":
                d = self.dtypestr(v.a[0])
                if d:
                    return const({"f": "f", "i": "i", "b": "b", "c": "c"}.get(d[0], "O"))
            return e.note(r)
        if k in ("array", "boolarray", "strarray") and name == "values":
            return o
        if k in ("array", "boolarray", "strarray") and name in ("iloc", "iat"):
            return mk(name, o)
        if k in ("str", "list", "dict", "set", "tuple", "bytes", "array", "boolarray", "strarray", "none", "lock", "rng", "pool", "int", "float", "num"):
            if k == "rng" and name == "bit_generator":
                return o
            return mk("bmeth", name, o if o.op == "ref" else v)
        if v.op == "call" and v.a[0] == "minimize" and name in ("x", "fun"):
            return item(v, const(name))
        if k == "quantity" and v.op == "call" and v.a[0] == "pint.Quantity" and len(v.a) == 3 and v.a[2].op != "kw" and name in ("m", "magnitude"):
            return e.box(v.a[1])
        if name in ("m", "magnitude") and k == "quantity":
            return mk("attr", v, "m")
        if name in ("u", "units") and k == "quantity":
            return mk("attr", v, "u")
        if v.op == "row":
            return self.getitem(v, const(name))
        r = e.note(mk("attr", v, name))
        return r

    def vector(self, v):
        """surely an array of one dimension?  unknown arrays of the drivers are, those named ...2D are not"""
        if v.op in ("item", "filter") and is_mask(v.a[1]):
            return True
        while v.op == "call" and v.a[0] in ("squeeze", "flatten", "astype", "copy") or v.op == "filter" and kind(v) in ("array", "series"):
            v = v.a[1] if v.op == "call" else v.a[0]
        return v.op == "sym" and v.a[1] in ("array", "strarray", "boolarray") and not v.a[0].endswith("2D")

    def arr_attr(self, v, name):
        if name == "size" and v.op == "sym" and kind(v) in ("array", "boolarray"):
            return mk("attr", v, "size")
        if name == "shape":
            if v.op in ("fill",):
                return self.arr_attr(v.a[0], name)
            if v.op == "call" and v.a[0] in ("numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty") and v.a[1].op in ("attr", "tuple"):
                return v.a[1]
            if v.op == "upd":
                return self.arr_attr(v.a[0], name)
            ks = self.known(v)
            if ks is not None and all(kind(x) in ("int", "float", "num") for x in ks):
                return tup(const(len(ks)))
            if two(v) and self.stack(v) and v.op == "call":
                ks = self.stack(v)
                return tup(const(len(ks)), *[self.getitem(mk("attr", ks[0], "shape"), const(i)) for i in (0, 1)])
        if name in ("size",) and v.op in ("upd", "fill", "not"):
            return self.arr_attr(v.a[0], name)
        if name == "T" and kind(v) == "array" and v.op == "sym":
            return mk("call", "transpose", v)
        if name == "ndim" and self.vector(v):
            return const(1)
        if name == "shape" and self.shape2(v) is not v:
            return self.arr_attr(self.shape2(v), name)
        if name in ("ndim", "shape") and two(v):
            if self.is_image(v) and name == "ndim":
                return const(2)
            ks = self.stack(v)
            if ks and v.op == "call":
                return const(3) if name == "ndim" else tup(const(len(ks)), self.getitem(mk("attr", ks[0], "shape"), const(0)), self.getitem(mk("attr", ks[0], "shape"), const(1)))
        if name == "ndim" and (v.op in ("list", "tuple") or self.known(v) is not None):
            ks = self.known(v)
            if ks and all(kind(x) in ("int", "float", "num", "str") for x in ks):
                return const(1)
        return mk("attr", v, name)

    # -- methods ---------------------------------------------------------------------------------------

    def method(self, o, name, args, kw, node):
        e = self.e
        if o.op == "ref":
            m = getattr(self, "m_" + o.a[1], None)
            if m is not None:
                r = m(o, name, args, kw)
                if r is not None:
                    return r
        if o.op in ("h5node", "h5file", "h5attrs"):
            return self.h5method(o, name, args, kw)
        if o.op in ("dkeys", "dvalues", "ditems") and name in ("copy",):
            return o
        if o.op == "dkeys" and name == "__len__":
            return self.len_(o)
        if o.op == "instdict":
            return self.m_instdict(o, name, args, kw)
        if o.op == "bmeth" and o.a[0] == "str" and kind(o.a[1]) == "series":
            return self.generic("str." + name, [o.a[1]] + args, kw)
        k = kind(o)
        if k in ("path", "opt:path"):
            return self.path_method(o, name, args, kw)
        if k == "str" or k == "opt:str":
            return self.str_method(o, name, args, kw)
        if o.op == "conv" and o.a[0] == "bytes" and name == "decode":
            return self.recode(o.a[1], name, args, kw)
        if k == "bytes" and o.op == "const" and name == "decode" and all(cstr(a) for a in [*args, *kw.values()]):
            try:
                return const(cval(o).decode(*[cval(a) for a in args], **{k: cval(a) for k, a in kw.items()}))
            except (UnicodeError, LookupError):
                e.raise_(e.st, "UnicodeError")
                e.st = None
                return unk("dead")
        if k in ("df", "series"):
            return self.df_method(o, name, args, kw)
        if k in ("array", "boolarray", "strarray", "num", "float", "int", "any", "bool"):
            r = self.arr_method(o, name, args, kw)
            if r is not None:
                return r
        if k == "dict" and o.op != "ref":
            r = self.m_dict(e.box(o) if name in ("copy",) else o, name, args, kw)
            if r is not None:
                return r
        if k in ("list", "tuple") and o.op != "ref" and name in ("index", "count"):
            return self.generic(name, [o] + args, kw)
        if ofplot(o):
            e.event("draw on", fn=name, obj=e.val(o), args=[e.val(a) for a in args], kw={k: e.val(v) for k, v in kw.items()})
            return unk("plot")
        if name in ("append", "extend", "update", "add", "insert", "remove", "pop", "clear", "sort", "fill", "setdefault"):
            e.event("mutate", obj=e.val(o), how=name)
        return e.box(e.note(mk("call", "." + name, e.val(o), *[e.val(a) for a in args], *self.kws(kw))))

    def arr_method(self, o, name, args, kw):
        e = self.e
        v = e.val(o)
        if name == "squeeze" and not args and not kw and self.vector(v):
            return v
        if name in ("squeeze", "item", "flatten", "ravel") and not args and not kw and v.op == "call" and v.a[0] == "numpy.array" and len(v.a) == 2 and v.a[1].op == "list":
            w, flat = v.a[1], name in ("flatten", "ravel")
            while w.op == "list" and len(w.a) == 1 and not flat:
                w = w.a[0]
            if w.op == "list" and w.a and all(x.op == "list" and len(x.a) == 1 and cint(x.a[0]) for x in w.a):
                w = mk("list", *[x.a[0] for x in w.a])
            if cint(w):
                return w
            if w is not v.a[1] and name != "item":
                return e.box(mk("call", "numpy.array", w))
        if name == "dropna" and not args and not kw:
            x, c = v.a if v.op == "filter" else (v, TRUE)
            return e.box(mk("filter", x, conj([c, neg(mk("call", "numpy.isnan", x))])))
        if name == "argmax" and not args and not kw and self.truths(v):
            return self.f_numpy_argmax([v], kw)
        if name in METHODS_SAME:
            return self.call(name if name != "clip" else "numpy.clip", [o] + args, kw)
        if name == "copy":
            return self.copy_(o, False)
        if name in ("flatten", "ravel") and not args and not kw and self.vector(v):
            return v
        if name in ("flatten", "ravel"):
            return e.box(mk("call", "flatten", v))
        if name == "between":
            r = self.between(v, args, kw)
            if r is not None:
                return e.box(r)
        if name in ("isna", "isnull", "notna", "notnull") and not args and kind(v) in ("array", "series"):
            r = mk("call", "numpy.isnan", v)
            return e.box(neg(r) if name.startswith("not") else r)
        if name == "to_numpy":
            return self.astype(v, kw["dtype"]) if "dtype" in kw or args else v
        if name == "astype":
            return self.astype(v, args[0] if args else kw.get("dtype"))
        if name in ("tolist", "to_list"):
            ks = self.known(v)
            return e.fresh_ref("list", mk("list", *ks) if ks is not None else mk("call", "list", v))
        if name == "item" and not args:
            return v if kind(v) in ("num", "float", "int") else mk("call", "item", v)
        if name in ("sort", "fill", "resize", "put", "partition", "itemset", "setflags") and o.op == "ref":
            e.event("mutate", obj=v, how=name)
            if name == "fill":
                e.setcontent(o, mk("fill", v, e.val(args[0])))
            else:
                e.setcontent(o, mk("call", "." + name, v, *[e.val(a) for a in args]))
            return NONE
        if name == "reshape":
            return self.generic("reshape", [o] + args, kw)
        if name in ("dot", "cumsum", "argmin", "argmax", "argsort", "nonzero", "take", "repeat"):
            return self.call("numpy." + name, [o] + args, kw)
        if name == "is_integer":
            return mk("truth", mk("call", "is_integer", v))
        return None

    def astype(self, v, ty):
        e = self.e
        t = e.simp(ty)
        n = t.a[0] if t.op == "ext" else (cval(t) if cstr(t) else None)
        n = ALIAS.get(n, n)
        if n in ("bool", "?") and (kind(v) == "boolarray" or is_bool(v) and two(v)):
            return e.box(v)
        if n in ("bool", "?") and kind(v) == "array":
            return e.box(neg(e.note(mk("cmp", "==", v, const(0)))))
        if n in ("float", "float64", "f8", "numpy.float64", "f") and v.op == "call" and v.a[0] in ("values",):
            return e.box(v)
        return e.box(e.note(mk("call", "astype", v, const(n) if n else e.val(t))))

    # -- lists, dictionaries, sets ----------------------------------------------------------------------

    def m_list(self, o, name, args, kw):
        e = self.e
        c = e.content(o)
        if name == "append":
            self.append(o, args[0])
        elif name == "extend":
            self.extend(o, args[0])
        elif name == "copy":
            return e.fresh_ref("list", c)
        elif name == "clear":
            e.setcontent(o, mk("list"))
        elif name == "insert" and c.op == "list" and cint(args[0]):
            xs = list(c.a)
            xs.insert(cval(args[0]), args[1])
            e.setcontent(o, mk("list", *xs))
        elif name == "pop" and c.op == "list" and c.a and (not args or cint(args[0]) and -len(c.a) <= cval(args[0]) < len(c.a)):
            xs = list(c.a)
            v = xs.pop(cval(args[0]) if args else -1)
            e.setcontent(o, mk("list", *xs))
            return v
        elif name == "remove" and c.op == "list" and len(args) == 1 and args[0].op == "const" and all(x.op == "const" for x in c.a) and args[0] in c.a:
            i = c.a.index(args[0])
            e.setcontent(o, mk("list", *c.a[:i], *c.a[i + 1 :]))
        elif name == "reverse" and c.op == "list":
            e.setcontent(o, mk("list", *reversed(c.a)))
        elif name == "sort":
            r = self.f_sorted([o], kw)
            e.setcontent(o, e.content(r) if r is not None else mk("call", "sorted", e.val(c)))
        elif name in ("index", "count") and len(args) == 1 and c.op == "list" and all(x.op == "const" for x in (e.val(args[0]), *c.a)):
            xs = [cval(x) for x in c.a]
            x = cval(e.val(args[0]))
            if name == "count":
                return const(xs.count(x))
            if x not in xs:
                e.raise_(e.st, "ValueError")
                e.st = None
                return unk("dead")
            return const(xs.index(x))
        elif name in ("index", "count", "__len__"):
            return self.generic(name, [o] + args, kw)
        elif name in ("insert", "pop", "remove", "reverse"):
            e.setcontent(o, mk("call", "list." + name, e.val(c), *[e.val(a) for a in args]))
            return mk("call", "item", e.val(c)) if name == "pop" else NONE
        else:
            return None
        return NONE

    def m_set(self, o, name, args, kw):
        e = self.e
        c = e.content(o)
        ks = self.known(args[0]) if args and kind(args[0]) in ("list", "set", "tuple", "dict") else None
        if name == "add":
            if c.op == "set":
                e.setcontent(o, mk("set", *dict.fromkeys(c.a + (args[0],))))
            else:
                e.setcontent(o, mk("call", "set.add", e.val(c), e.val(args[0])))
            return NONE
        if name == "copy":
            return e.fresh_ref("set", c)
        if name in ("update", "union") and c.op == "set" and ks is not None:
            x = mk("set", *dict.fromkeys(c.a + tuple(ks)))
        elif name in ("difference", "difference_update") and c.op == "set" and ks is not None and all(q.op == "const" for q in c.a + tuple(ks)):
            x = mk("set", *[q for q in c.a if q not in ks])
        elif name == "intersection" and c.op == "set" and ks is not None and all(q.op == "const" for q in c.a + tuple(ks)):
            x = mk("set", *[q for q in c.a if q in ks])
        elif name in ("discard", "remove") and c.op == "set" and args[0].op == "const":
            x = mk("set", *[q for q in c.a if q is not args[0]])
        elif name in ("issubset", "issuperset", "isdisjoint"):
            if c.op == "set" and ks is not None:
                a, b = (c.a, ks) if name == "issubset" else (ks, c.a)
                if name != "isdisjoint":
                    return conj([self.contains(mk("list", *b), q) for q in a])
            return mk("truth", mk("call", name, e.val(c), e.val(args[0])))
        else:
            return None
        if name in ("update", "difference_update", "discard", "remove"):
            e.setcontent(o, x)
            return NONE
        return e.fresh_ref("set", x)

    def m_tuple(self, o, name, args, kw):
        return None

    def m_dict(self, o, name, args, kw):
        e = self.e
        if name == "keys":
            return mk("dkeys", o)
        if name == "values":
            return mk("dvalues", o)
        if name == "items":
            return mk("ditems", o)
        c = e.content(o) if o.op == "ref" else o
        if name == "get":
            return e.simp(self.dict_lookup(c, e.simp(args[0]), args[1] if len(args) > 1 else NONE))
        if name == "copy":
            return e.fresh_ref("dict", c)
        if name == "__contains__":
            return self.contains(o, args[0])
        if o.op != "ref":
            return None
        if name == "update":
            for a in args:
                self.dict_update(o, a)
            for k, v in kw.items():
                self.each(o, lambda c: self.dset(c, const(k), v))
            return NONE
        if name == "setdefault":
            k = e.simp(args[0])
            d = args[1] if len(args) > 1 else NONE
            v = self.dict_lookup(c, k, d)

            def f(c):
                if c.op == "dict":
                    i = self.dget(c, k)
                    if i is not None and i >= 0:
                        return c
                return self.dset(c, k, v if c.op != "dict" or self.dget(c, k) is None else d)

            self.each(o, f)
            return v
        if name == "pop":
            k = e.simp(args[0])
            if k.op == "gamma":
                return None
            v = self.dict_lookup(c, k, args[1] if len(args) > 1 else None)
            if v is ABSENT:
                e.event("absentkey", key=k)
                e.raise_(e.st, "KeyError")
                e.st = None
                return unk("dead")

            def f(c):
                if c.op == "dict":
                    i = self.dget(c, k)
                    if i is not None and i >= 0:
                        return mk("dict", *c.a[:i], *c.a[i + 2 :])
                    if i == -1:
                        return c
                return mk("ddel", c, e.val(k))

            self.each(o, f)
            return v
        if name == "clear":
            e.setcontent(o, mk("dict"))
            return NONE
        return None

    def m_instdict(self, o, name, args, kw):
        e = self.e
        r = o.a[0]
        fields = {k[2]: v for k, v in e.st.store.items() if k[0] == "F" and k[1] is r}
        d = mk("dict", *[x for k in sorted(fields) for x in (const(k), fields[k])])
        if name in ("update",):
            for a in args:
                dd = self.dictof(a)
                if dd is None:
                    return e.unsupported("__dict__.update")
                for i in range(0, len(dd.a), 2):
                    if cstr(dd.a[i]):
                        e.setattr(r, cval(dd.a[i]), dd.a[i + 1])
            for k, v in kw.items():
                e.setattr(r, k, v)
            return NONE
        return self.m_dict(e.fresh_ref("dict", d), name, args, kw)

    # -- random generators, files -------------------------------------------------------------------------

    def m_rng(self, o, name, args, kw):
        if name in RNGDIST:
            return self.draw(o, name, args, kw)
        return None

    def attr_rng(self, o, name):
        return mk("bmeth", name, o)

    def f_open(self, args, kw):
        e = self.e
        p = e.val(self.topath(args[0]))
        mode = args[1] if len(args) > 1 else kw.get("mode", const("r"))
        e.event("open", path=p, mode=e.val(mode))
        if self.gone(p) and mode.op == "const" and "r" in cval(mode):
            return self.notfound()
        return mk("call", "open", p)


def bare(g):
    while g.op == "call" and g.a[0] in ("absolute", "resolve") and len(g.a) == 2:
        g = g.a[1]
    return g


def e_val(e, t):
    return e.val(t)
