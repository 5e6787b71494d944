"""Models of functions: builtins, numpy, random numbers, copies, optimisation, classes of attrs."""

import ast

from .terms import *  # noqa: F403
from .terms import T, mk
from .libtab import ALIAS, METHODS_SAME, STRMETH

NOEFFECT = (
    "print", "logging.", "warnings.", "matplotlib.", "time.sleep", "sys.stdout.", "sys.stderr.", "noop", "gc.",
    "multiprocessing.freeze_support", "traceback.", "tqdm.",
)
BOOLFUN = {"any", "all"}
NODRAW = {"default_rng", "Generator", "SeedSequence", "PCG64", "RandomState"}
GLOBALRANDOM = ("numpy.random.", "random.", "secrets.", "uuid.uuid", "os.urandom")
NONDET = {"time.time", "time.time_ns", "time.perf_counter", "os.getpid", "id", "hash", "datetime.datetime.now", "os.urandom", "time.monotonic"}


class CallMixin:
    def kws(self, kw):
        return [mk("kw", k, self.e.val(kw[k])) for k in sorted(kw)]

    def generic(self, f, args, kw):
        e = self.e
        r = e.note(mk("call", f, *[e.val(a) for a in args], *self.kws(kw)))
        return e.box(r)

    def call(self, f, args, kw, node=None):
        e = self.e
        if f in ("numpy.max", "numpy.amax", "numpy.min", "numpy.amin") and len(args) == 1 and not kw:
            ks = self.vectors(args[0])
            if ks:
                f = "max" if "max" in f else "min"
                xs = [self.call(f, [k], {}) for k in ks]
                return xs[0] if len(xs) == 1 else self.call(f, xs, {})
        if f in ("numpy.concatenate", "numpy.hstack", "numpy.ravel") and len(args) == 1 and not kw:
            ks = self.vectors(args[0])
            if ks and len(ks) == 1:
                return e.box(e.val(ks[0]))
        if f in ("numpy.asarray", "numpy.asanyarray") and len(args) == 1 and not kw and args[0].op == "ref" and args[0].a[1] in ("array", "boolarray"):
            return args[0]  # no copy
        f = ALIAS.get(f, f)
        if f.startswith("numpy.") and args and args[0].op == "h5node":
            args = [self.h5read(args[0])] + list(args[1:])
        if f.startswith("SA_"):
            return getattr(self, "sa_" + f[3:])(args, kw)
        for p in NOEFFECT:
            if f == p or (p.endswith(".") and f.startswith(p)):
                if p == "matplotlib.":
                    e.event("draw on", fn=f.rsplit(".", 1)[1], obj=None, args=[e.val(a) for a in args], kw={k: e.val(v) for k, v in kw.items()})
                    if f == "matplotlib.pyplot.subplots" and (args or kw):
                        return mk("tuple", sym("figure", "any"), sym("panels", "any"))
                e.event("effect", fn=f)
                return NONE if f == "print" or p in ("logging.", "warnings.", "noop") else unk(f)
        r = self.image(f, args, kw)
        if r is not None:
            return r
        m = getattr(self, "f_" + f.replace(".", "_"), None)
        if m is not None:
            r = m(args, kw)
            if r is not None:
                return r
        elif f.startswith(GLOBALRANDOM):
            return self.global_random(f, args, kw)
        if f in NONDET:
            e.event("nondet", fn=f)
            return e.note(mk("call", f, mk("const", self.serial())))
        if f.split(".")[0] in ("os", "shutil", "subprocess") and f not in ("os.path.join", "os.fspath"):
            e.event("os", fn=f, args=[e.val(a) for a in args])
        if kw.get("inplace") is TRUE or "out" in kw:
            return self.outarg(f, args, kw)
        if f.endswith("Error") or f.endswith("Exception") or f in ("SystemExit", "KeyboardInterrupt"):
            return mk("call", f)
        return self.generic(f, args, kw)

    def vectors(self, a):
        """the vectors of a list or an array made of them"""
        v = self.e.simp(a)
        w = self.e.val(v)
        while w.op == "call" and w.a[0] in ("numpy.concatenate", "numpy.hstack", "numpy.vstack", "numpy.stack", "numpy.array", "flatten") and len(w.a) == 2:
            v = w = w.a[1]
        if kind(v) not in ("list", "tuple"):
            return None
        ks = self.known(v)
        return ks if ks and all(kind(self.e.val(k)) == "array" and self.vector(self.e.val(k)) for k in ks) else None

    def serial(self):
        e = self.e
        k = (e.cc, e.curuid, e.iterkey, "serial")
        e.pending[k] = n = e.pending.get(k, 0) + 1
        loops = tuple(c[1] for c in e.ctx if c[0] == "loop")
        return e.key("serial", e.cc, e.curuid, e.iterkey, n, loops)

    def loopbvs(self):
        return tup(*[mk("bv", c[1]) for c in self.e.ctx if c[0] == "loop"])

    def outarg(self, f, args, kw):
        kw = dict(kw)
        o = kw.pop("out", None)
        r = self.call(f, args, kw)
        if o is not None and o.op == "ref":
            self.e.setcontent(o, self.e.val(r))
            return o
        return r

    # -- random numbers --------------------------------------------------------------------------

    def f_numpy_random_default_rng(self, args, kw):
        e = self.e
        seed = args[0] if args else kw.get("seed", NONE)
        if seed.op == "ref" and seed.a[1] == "rng":
            return seed
        r = e.fresh_ref("rng", mk("call", "default_rng", e.val(seed)))
        e.event("rng", seed=e.val(seed), ref=r)
        return r

    f_numpy_random_RandomState = f_numpy_random_default_rng

    def f_numpy_random_Generator(self, args, kw):
        return self.f_numpy_random_default_rng(args, kw)

    def f_numpy_random_PCG64(self, args, kw):
        return args[0] if args else kw.get("seed", NONE)

    def f_numpy_random_SeedSequence(self, args, kw):
        e = self.e
        if not args and "entropy" not in kw:
            return NONE
        return self.generic("SeedSequence", args, kw)

    f_numpy_random_MT19937 = f_numpy_random_PCG64

    def global_random(self, f, args, kw):
        e = self.e
        e.event("globalrandom", fn=f, args=[e.val(a) for a in args])
        return e.note(mk("draw", f, NONE, tup(*[e.val(a) for a in args], *self.kws(kw)), const(self.serial()), self.loopbvs(), NONE))

    def draw(self, rng, dist, args, kw):
        """a random number: (distribution, generator, parameters, serial number, loops, size)"""
        e = self.e
        names = {"uniform": ["low", "high", "size"], "normal": ["loc", "scale", "size"], "integers": ["low", "high", "size"],
                 "random": ["size"], "exponential": ["scale", "size"], "lognormal": ["mean", "sigma", "size"], "choice": ["a", "size", "replace", "p"]}.get(dist)
        if names is None:
            e.event("rngmethod", fn=dist)
            return self.generic("rng." + dist, [rng] + args, kw)
        vals = dict(zip(names, args))
        vals.update(kw)
        size = e.val(vals.pop("size", NONE))
        if dist == "random":
            dist, vals = "uniform", {"low": const(0.0), "high": const(1.0)}
        if dist == "uniform":
            vals.setdefault("low", const(0.0))
            vals.setdefault("high", const(1.0))
        par = tup(*[mk("kw", k, e.val(vals[k])) for k in sorted(vals)])
        t = e.note(mk("draw", dist, rng, par, const(self.serial()), self.loopbvs(), size))
        e.event("draw", rng=rng, dist=dist, par=par, size=size, term=t, seed=e.st.store.get(("C", rng)))
        return e.box(t)

    # -- builtins ----------------------------------------------------------------------------------

    def f_len(self, args, kw):
        e = self.e
        v = e.simp(args[0])
        if v.op == "ref" and v.a[1] == "inst":
            return e.callmethod(v, "__len__", [], {}, e.fakenode())
        return self.len_(v)

    def f_range(self, args, kw):
        a = [self.e.val(x) for x in args]
        if len(a) == 1:
            a = [const(0), a[0]]
        if len(a) == 2:
            a.append(const(1))
        return mk("range", *a)

    def f_enumerate(self, args, kw):
        st = args[1] if len(args) > 1 else kw.get("start", const(0))
        return mk("enumerate", args[0], st)

    def f_zip(self, args, kw):
        return mk("zip", *args)

    def f_reversed(self, args, kw):
        return mk("reversed", args[0])

    def f_iter(self, args, kw):
        return args[0]

    def f_itertools_count(self, args, kw):
        return mk("count", args[0] if args else const(0))

    def f_itertools_repeat(self, args, kw):
        e = self.e
        n = args[1] if len(args) > 1 else kw.get("times")
        if n is not None and cint(n) and cval(n) <= 64:
            return e.fresh_ref("list", mk("list", *([args[0]] * cval(n))))
        return None

    def f_itertools_chain(self, args, kw):
        e = self.e
        r = e.fresh_ref("list", mk("list"))
        for a in args:
            self.extend(r, a)
        return r

    def f_itertools_product(self, args, kw):
        e = self.e
        ks = [self.known(a) for a in args]
        if any(k is None for k in ks) or kw:
            return None
        out = [()]
        for k in ks:
            out = [o + (x,) for o in out for x in k]
        return e.fresh_ref("list", mk("list", *[tup(*o) for o in out])) if len(out) <= 256 else None

    def f_map(self, args, kw):
        return self.mapping(args[0], args[1:])

    def mapping(self, f, its, filt=False):
        """[f(x) for x in its]"""
        e = self.e
        res = e.fresh_ref("list", mk("list"))
        it = its[0] if len(its) == 1 else mk("zip", *its)
        node = e.fakenode()
        node.uid = ("map", e.curuid)
        cur = {}
        fr = type("F", (), {"loops": [], "exits": [], "fid": None, "mod": "driver", "qual": "map"})()
        fr.mod = next(iter(e.mods))

        def body():
            x = cur["x"]
            if filt:
                c = e.truth(x if f is NONE else e.call(f, [x], {}, node))
                if e.st is None:
                    return
                e.branch(c, lambda: self.append(res, x), lambda: None)
                return
            v = e.call(f, list(x.a) if len(its) > 1 else [x], {}, node)
            if e.st is not None:
                self.append(res, v)

        e.forloop(it, lambda x: cur.update(x=x), body, None, node, fr)
        return res

    def f_filter(self, args, kw):
        return self.mapping(args[0], args[1:2], filt=True)

    def f_list(self, args, kw):
        e = self.e
        if not args:
            return e.fresh_ref("list", mk("list"))
        v = e.simp(args[0])
        if v.op == "gamma":
            return None
        if v.op == "ref" and v.a[1] == "list":
            return e.fresh_ref("list", e.content(v))
        ks = self.known(v)
        if ks is not None:
            return e.fresh_ref("list", mk("list", *ks))
        vv = e.val(v)
        return e.fresh_ref("list", mk("call", "list", vv))

    def f_tuple(self, args, kw):
        if not args:
            return tup()
        ks = self.known(args[0])
        return tup(*ks) if ks is not None else mk("call", "tuple", self.e.val(args[0]))

    def f_set(self, args, kw):
        e = self.e
        if not args:
            return e.fresh_ref("set", mk("set"))
        ks = self.known(args[0])
        if ks is not None:
            return e.fresh_ref("set", mk("set", *dict.fromkeys(ks)))
        return e.fresh_ref("set", mk("call", "set", e.val(args[0])))

    f_frozenset = f_set

    def f_dict(self, args, kw):
        e = self.e
        r = e.fresh_ref("dict", mk("dict"))
        if args:
            v = e.simp(args[0])
            if v.op == "ref" and v.a[1] == "dict":
                e.setcontent(r, e.content(v))
            else:
                self.dict_update(r, v)
        for k, v in kw.items():
            if k == "**":
                self.each(r, lambda c: mk("dunion", c, e.val(v)))
            else:
                self.each(r, lambda c: self.dset(c, const(k), v))
        return r

    def f_dict_fromkeys(self, args, kw):
        e = self.e
        v = args[1] if len(args) > 1 else NONE
        ks = self.known(args[0])
        if ks is not None:
            return e.fresh_ref("dict", mk("dict", *[x for k in dict.fromkeys(e.val(k) if k.op == "ref" else k for k in ks) for x in (k, v)]))
        return e.fresh_ref("dict", mk("dfromkeys", e.val(args[0]), e.val(v)))

    def f_str(self, args, kw):
        return self.str_(args[0]) if args else const("")

    def f_repr(self, args, kw):
        v = args[0]
        if v.op == "const" and not isinstance(cval(v), str):
            return const(repr(cval(v)))
        return None

    def f_int(self, args, kw):
        if not args:
            return const(0)
        v = self.e.simp(args[0])
        if v.op == "gamma":
            return gamma(v.a[0], self.call("int", [v.a[1]], {}), self.call("int", [v.a[2]], {}))
        if kind(v) in ("int",):
            return v
        if v.op == "const":
            try:
                return const(int(cval(v)))
            except Exception:
                self.e.raise_(self.e.st, "ValueError")
                self.e.st = None
                return unk("dead")
        return None

    def f_float(self, args, kw):
        if not args:
            return const(0.0)
        v = self.e.simp(args[0])
        if kind(v) == "float":
            return v
        if v.op == "const" and isinstance(cval(v), (int, float, str)):
            try:
                f = float(cval(v))
            except ValueError:
                return None
            if f != f:
                return sym("numpy.nan", "float")
            if f in (float("inf"), -float("inf")):
                i = sym("numpy.inf", "float")
                return i if f > 0 else mk("neg", i)
            return const(f)
        return None

    def f_bool(self, args, kw):
        return self.e.truth(args[0]) if args else FALSE

    def f_round(self, args, kw):
        return None

    def f_abs(self, args, kw):
        return self.call("numpy.abs", args, kw)

    def f_numpy_isclose(self, args, kw):
        a, b, rest = args[0], args[1], dict(zip(("rtol", "atol"), args[2:]), **kw)
        if len(args) < 2 or set(rest) - {"rtol", "atol"} or any(kind(self.e.val(x)) not in ("int", "float", "num") for x in (a, b)):
            return None
        e = self.e
        tol = e.binop("+", rest.get("atol", const(1e-8)), e.binop("*", rest.get("rtol", const(1e-5)), self.call("numpy.abs", [b], {})))
        return neg(mk("cmp", "<", e.val(tol), e.val(self.call("numpy.abs", [e.binop("-", a, b)], {}))))

    def f_pow(self, args, kw):
        return self.e.binop("**", args[0], args[1])

    def f_numpy_power(self, args, kw):
        return self.e.binop("**", args[0], args[1])

    def f_numpy_square(self, args, kw):
        return self.e.binop("**", args[0], const(2))

    def f_divmod(self, args, kw):
        return tup(self.e.binop("//", args[0], args[1]), self.e.binop("%", args[0], args[1]))

    def npbin(op):  # noqa: N805
        def f(self, args, kw):
            if len(args) != 2 or kw:
                return None
            return self.e.binop(op, args[0], args[1])

        return f

    f_numpy_add = npbin("+")
    f_numpy_subtract = npbin("-")
    f_numpy_multiply = npbin("*")
    f_numpy_divide = npbin("/")
    f_numpy_true_divide = npbin("/")
    f_floordiv = npbin("//")
    f_numpy_mod = npbin("%")
    f_numpy_remainder = npbin("%")
    f_operator_add, f_operator_mul, f_operator_sub, f_operator_truediv, f_operator_mod = npbin("+"), npbin("*"), npbin("-"), npbin("/"), npbin("%")

    def npcmp(op):  # noqa: N805
        def f(self, args, kw):
            return self.e.compare(op, args[0], args[1])

        return f

    f_numpy_less, f_numpy_less_equal, f_numpy_greater, f_numpy_greater_equal = npcmp("<"), npcmp("<="), npcmp(">"), npcmp(">=")
    f_numpy_equal, f_numpy_not_equal = npcmp("=="), npcmp("!=")
    f_operator_lt, f_operator_le, f_operator_gt, f_operator_ge, f_operator_eq = npcmp("<"), npcmp("<="), npcmp(">"), npcmp(">="), npcmp("==")

    def f_numpy_negative(self, args, kw):
        return self.e.box(self.e.note(mk("neg", self.e.val(args[0]))))

    def f_numpy_invert(self, args, kw):
        return self.invert(args[0])

    f_numpy_logical_not = f_numpy_invert
    f_operator_not_ = f_numpy_invert

    def f_numpy_logical_and(self, args, kw):
        return self.e.binop("&", args[0], args[1])

    def f_numpy_logical_or(self, args, kw):
        return self.e.binop("|", args[0], args[1])

    def testeach(self, f, args, kw):
        """tests of known values, one by one"""
        ks = self.known(self.e.simp(args[0])) if len(args) == 1 and not kw else None
        if not ks or kind(args[0]) not in ("list", "tuple", "array"):
            return None
        xs = [self.e._truth(mk("call", f, self.e.val(k))) if kind(k) not in ("list", "tuple") else None for k in ks]
        if not all(x is TRUE or x is FALSE for x in xs):
            return None
        return self.e.box(mk("call", "numpy.array", mk("list", *xs)))

    def f_numpy_count_nonzero(self, args, kw):
        ks = self.known(self.e.simp(args[0])) if len(args) == 1 and not kw else None
        if not ks or kind(args[0]) not in ("list", "tuple", "array") or any(kind(k) not in ("int", "float", "num", "bool") for k in ks):
            return None
        n = const(0)
        for k in ks:
            n = self.e.binop("+", n, gamma(self.e.truth(k), const(1), const(0)))
        return n

    def f_numpy_isfinite(self, args, kw):
        return self.testeach("numpy.isfinite", args, kw)

    def f_numpy_isinf(self, args, kw):
        return self.testeach("numpy.isinf", args, kw)

    def f_numpy_isnan(self, args, kw):
        return self.testeach("numpy.isnan", args, kw)

    def f_any(self, args, kw):
        return self.anyall(args, kw, True)

    def f_all(self, args, kw):
        return self.anyall(args, kw, False)

    def anyall(self, args, kw, isany):
        e = self.e
        v = e.simp(args[0])
        ks = self.known(v)
        if ks is not None and not kw and kind(v) not in ("df",):
            cs = [e.truth(k) for k in ks]
            return e.fact(disj(cs) if isany else conj(cs))
        vv = e.val(v)
        if vv.op == "map" and not kw:
            n, bv, x, c = vv.a
            x = e._truth(x)
            if isany:
                return e.fact(neg(mk("all", n, bv, disj([neg(c), neg(x)]))))
            return e.fact(mk("all", n, bv, disj([neg(c), x])))
        r = mk("call", "any", vv, *self.kws(kw)) if isany else mk("call", "all", vv, *self.kws(kw))
        return e.note(r)

    def f_sum(self, args, kw):
        e = self.e
        v = e.simp(args[0])
        ks = self.known(v) if v.op != "dict" else None
        if ks is not None and not kw and len(args) == 1 and kind(v) in ("list", "tuple", "set"):
            t = const(0)
            for k in ks:
                t = e.binop("+", t, k) if not (cint(t) and cval(t) == 0) else k
            return t
        vv = e.val(v)
        if vv.op == "map" and not kw:
            r = mk("sum", vv.a[0], vv.a[1], vv.a[2], vv.a[3])
            return e.note(r if len(args) == 1 else mk("bin", "+", e.val(args[1]), r))
        return None

    def minmax(self, args, kw, name):
        e = self.e
        if "key" in kw or "default" in kw:
            return None
        xs = args
        if len(args) == 1:
            ks = self.known(args[0])
            if ks is None or kind(e.simp(args[0])) not in ("list", "tuple", "set"):
                return None
            if any(kind(k) in ("array", "list", "tuple") for k in ks):
                return None
            xs = ks
        xs = [e.val(x) for x in xs]
        if all(cnum(x) for x in xs) and xs:
            return const((min if name == "min" else max)(cval(x) for x in xs))
        return e.note(mk("call", "min_of" if name == "min" else "max_of", *xs))

    def f_min(self, args, kw):
        return self.minmax(args, kw, "min")

    def f_max(self, args, kw):
        return self.minmax(args, kw, "max")

    def f_numpy_minimum(self, args, kw):
        e = self.e
        a = [e.val(x) for x in args]
        if all(cnum(x) for x in a) and len(a) == 2:
            return const(min(cval(x) for x in a))
        if all(kind(x) in ("int", "num", "float", "any") for x in a):
            return e.note(mk("call", "min_of", *a))
        return None

    def f_numpy_maximum(self, args, kw):
        e = self.e
        a = [e.val(x) for x in args]
        if all(cnum(x) for x in a) and len(a) == 2:
            return const(max(cval(x) for x in a))
        if all(kind(x) in ("int", "num", "float", "any") for x in a):
            return e.note(mk("call", "max_of", *a))
        return None

    def truths(self, v):
        """the known truth values of a list or array of them"""
        v = self.e.val(v)
        if v.op == "call" and v.a[0] in ("numpy.array", "numpy.asarray") and len(v.a) == 2:
            v = v.a[1]
        ks = self.known(v) if v.op in ("list", "tuple") else None
        ks = [self.e.fact(k) if is_bool(k) else k for k in ks] if ks else ks
        return [k is TRUE for k in ks] if ks and all(k is TRUE or k is FALSE for k in ks) else None

    def f_numpy_argwhere(self, args, kw):
        b = self.truths(args[0])
        if b is None:
            return None
        return self.e.box(mk("call", "numpy.array", mk("list", *[mk("list", const(i)) for i, x in enumerate(b) if x])))

    def f_numpy_hypot(self, args, kw):
        e = self.e
        if len(args) != 2 or kw:
            return None
        sq = [e.binop("**", x, const(2)) for x in args]
        return self.call("numpy.sqrt", [e.binop("+", *sq)], {})

    def f_slice(self, args, kw):
        a = list(args) if len(args) > 1 else [NONE, *args]
        return mk("slice", *[self.e.val(x) for x in (a + [NONE])[:3]]) if 2 <= len(a) <= 3 and not kw else None

    def f_numpy_issubdtype(self, args, kw):
        v = self.e.val(args[0])
        d = self.dtypestr(v.a[0]) if v.op == "attr" and v.a[1] == "dtype" else None
        if d is None or len(args) != 2 or args[1].op != "ext":
            return None
        k = {"numpy.floating": "f", "float": "f", "numpy.float64": "f", "numpy.integer": "i", "numpy.number": "fic", "numpy.inexact": "fc"}.get(args[1].a[0])
        return None if k is None else const(d[0] in k)

    def f_pandas_api_types_is_float_dtype(self, args, kw):
        v = self.e.val(args[0])
        d = self.dtypestr(v.a[0] if v.op == "attr" and v.a[1] == "dtype" else v)
        return None if d is None else const(d[0] == "f")

    def f_squeeze(self, args, kw):
        v = self.e.val(args[0])
        return args[0] if kind(v) == "array" and len(args) == 1 and not kw and self.vector(v) else None

    def f_numpy_flatnonzero(self, args, kw):
        b = self.truths(args[0])
        if b is None:
            return None
        return self.e.box(mk("call", "numpy.array", mk("list", *[const(i) for i, x in enumerate(b) if x])))

    def f_numpy_nonzero(self, args, kw):
        r = self.f_numpy_flatnonzero(args, kw)
        return None if r is None else tup(r)

    def f_numpy_argmax(self, args, kw):
        b = self.truths(args[0]) if not kw else None
        return None if b is None else const(b.index(True) if True in b else 0)

    def f_sorted(self, args, kw):
        e = self.e
        ks = self.known(args[0])
        if ks is not None and kw.get("reverse", FALSE).op == "const":
            on = ks
            if kw.get("key", NONE) is not NONE:
                r = self.mapping(kw["key"], [args[0]])
                on = self.known(r) if e.st is not None else None

            def plain(t):
                t = e.val(t)
                return [plain(x) for x in t.a] if t.op in ("list", "tuple") else cval(t) if t.op == "const" else int("?")

            try:
                on = None if on is None or len(on) != len(ks) else [plain(k) for k in on]
                if on is not None:
                    return e.fresh_ref("list", mk("list", *[ks[i] for i in sorted(range(len(ks)), key=on.__getitem__, reverse=kw.get("reverse") is TRUE)]))
            except (TypeError, ValueError):
                pass
        kw2 = {k: v for k, v in kw.items() if k != "key"}
        if "key" in kw:
            kw2["key"] = mk("call", "keyfn", kw["key"])
        return e.fresh_ref("list", mk("call", "sorted", e.val(args[0]), *self.kws(kw2)))

    def f_numpy_isscalar(self, args, kw):
        k = kind(self.e.simp(args[0]))
        if k in ("int", "float", "bool", "str", "num", "bytes", "npint", "npfloat"):
            return TRUE
        if k in ("array", "boolarray", "strarray", "list", "tuple", "dict", "none", "path", "df", "series", "timestamp", "quantity"):
            return FALSE
        return self.e.note(mk("truth", mk("call", "numpy.isscalar", self.e.val(args[0]))))

    def f_isinstance(self, args, kw):
        return self.isinstance_(args[0], args[1])

    def f_issubclass(self, args, kw):
        a, b = args
        if a.op == "class" and b.op == "class":
            return const(b.a[0] in self.e.mro(a.a[0]))
        return None

    def f_inspect_isclass(self, args, kw):
        e = self.e
        v = e.simp(args[0])
        if v.op == "gamma":
            return e.fact(gamma(v.a[0], self.f_inspect_isclass([v.a[1]], kw), self.f_inspect_isclass([v.a[2]], kw)))
        if v.op == "class":
            return TRUE
        if v.op == "ext":
            n = v.a[0].split(".")[-1]
            return const(n[:1].isupper() or v.a[0].startswith("numpy.") and n.rstrip("0123456789_") in ("float", "int", "uint", "complex", "bool", "str", "bytes") or v.a[0] in ("int", "float", "str", "bool", "list", "dict", "tuple", "set", "bytes", "object"))
        if v.op in ("const", "strcat", "func", "closure", "bound", "partial") or kind(v) in ("none", "str", "int", "float"):
            return FALSE
        return None

    def f_callable(self, args, kw):
        v = self.e.simp(args[0])
        if v.op in ("func", "closure", "bound", "class", "ext", "partial", "bmeth"):
            return TRUE
        if v.op == "const":
            return FALSE
        return None

    def f_type(self, args, kw):
        e = self.e
        v = e.simp(args[0])
        if v.op == "ref" and v.a[1] == "inst":
            return mk("class", v.a[2])
        n = {"str": "str", "int": "int", "float": "float", "bool": "bool", "list": "list", "dict": "dict", "tuple": "tuple", "none": "NoneType",
             "array": "numpy.ndarray", "df": "pandas.DataFrame", "series": "pandas.Series"}.get(kind(v))
        return ext(n) if n else None

    def f_getattr(self, args, kw):
        e = self.e
        if cstr(args[1]):
            return e.getattr(args[0], cval(args[1]), None, args[2] if len(args) > 2 else None)
        n = e.simp(args[1])
        if n.op == "gamma":
            return e.split(n.a[0], lambda: self.f_getattr([args[0], n.a[1]] + args[2:], kw), lambda: self.f_getattr([args[0], n.a[2]] + args[2:], kw))
        return mk("call", "getattr", *[e.val(a) for a in args])

    def f_setattr(self, args, kw):
        e = self.e
        o = e.simp(args[0])
        if cstr(args[1]):
            e.setattr(o, cval(args[1]), args[2])
        else:
            e.event("dynset", obj=o, name=e.val(args[1]), value=args[2])
            e.unsupported("setattr with unknown name")
        return NONE

    def f_delattr(self, args, kw):
        if cstr(args[1]):
            self.e.st.store.pop(("F", args[0], cval(args[1])), None)
        return NONE

    def f_hasattr(self, args, kw):
        e = self.e
        o = e.simp(args[0])
        if o.op == "ref" and o.a[1] == "inst" and cstr(args[1]):
            if ("F", o, cval(args[1])) in e.st.store or e.findattr(o.a[2], cval(args[1]))[0] is not None:
                return TRUE
            return FALSE if ("F", o, "__base__") not in e.st.store else mk("truth", mk("call", "hasattr", *[e.val(a) for a in args]))
        if o.op in ("class",) and cstr(args[1]):
            return const(e.findattr(o.a[0], cval(args[1]))[0] is not None)
        return mk("truth", mk("call", "hasattr", *[e.val(a) for a in args]))

    def f_vars(self, args, kw):
        e = self.e
        v = e.simp(args[0])
        if v.op == "ref" and v.a[1] == "argns":
            c = e.content(v)
            return c
        if v.op == "ref" and v.a[1] == "inst":
            return mk("instdict", v)
        return None

    def f_next(self, args, kw):
        e = self.e
        ks = self.known(args[0])
        if ks is not None:
            if ks:
                return ks[0]
            if len(args) > 1:
                return args[1]
            e.raise_(e.st, "StopIteration")
            e.st = None
            return unk("dead")
        return mk("call", "next", *[e.val(a) for a in args])

    def f_functools_partial(self, args, kw):
        return mk("partial", args[0], tup(*args[1:]), tup(*[mk("kw", k, v) for k, v in kw.items()]))

    def f_functools_reduce(self, args, kw):
        e = self.e
        ks = self.known(args[1])
        if ks is None:
            return None
        acc = args[2] if len(args) > 2 else ks.pop(0)
        for k in ks:
            acc = e.call(args[0], [acc, k], {}, e.fakenode())
        return acc

    def f_operator_itemgetter(self, args, kw):
        return None

    def f_copy(self, args, kw):
        return self.copy_(args[0], False)

    def f_deepcopy(self, args, kw):
        return self.copy_(args[0], True)

    def copy_(self, v, deep):
        e = self.e
        v = e.simp(v)
        if v.op == "gamma":
            return e.split(v.a[0], lambda: self.copy_(v.a[1], deep), lambda: self.copy_(v.a[2], deep))
        if v.op == "ref" and v.a[1] == "inst":
            r = e.fresh_ref("inst", None, v.a[2])
            for k, x in list(e.st.store.items()):
                if k[0] == "F" and k[1] is v:
                    e.st.store[("F", r, k[2])] = self.copy_(x, True) if deep and x.op == "ref" else x
            return r
        if v.op == "ref" and v.a[1] not in ("lock", "pool"):
            c = e.content(v)
            if deep and v.a[1] in ("list", "dict", "set"):
                m = {x: self.copy_(x, True) for x in walk(c) if x.op == "ref"}
                c = subst(c, m) if m else c
            return e.fresh_ref(v.a[1], c)
        return e.box(v)

    # -- optimisation ------------------------------------------------------------------------------

    def f_scipy_optimize_minimize(self, args, kw):
        e = self.e
        names = ["fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds"]
        d = dict(zip(names, args))
        d.update(kw)
        f = d.pop("fun")
        x = sym("sa:x", "array")
        extra = d.pop("args", tup())
        ex = self.known(extra)
        if ex is None:
            ex = [extra]
        obj = e.call(f, [x] + ex, {}, e.fakenode())
        if e.st is None:
            return unk("dead")
        obj = e.val(obj)
        r = mk("call", "minimize", obj, *[mk("kw", k, e.val(v)) for k, v in sorted(d.items())])
        if getattr(e, "opaquemin", False):
            r = mk("call", "minimize", const(sum(x.kind == "minimize" for x in e.events)))
        e.event("minimize", obj=obj, opts={k: e.val(v) for k, v in d.items()}, term=r)
        return e.note(r)

    # -- driver helpers ----------------------------------------------------------------------------

    def sa_SYM(self, args, kw):
        e = self.e
        name, kd = cval(args[0]), cval(args[1]) if len(args) > 1 else "any"
        e.symkinds[name] = kd
        how = e.special.get(name)
        if how is not None:  # a case with a special value
            if how[0] == "const":
                return e.box(const(how[1]))
            if how[0] == "as":
                name = how[1]
            if how[0] == "elems":
                return e.box(mk("call", "numpy.array", mk("list", *[sym(f"{name}_{i}", "float") for i in range(how[1])])))
        return e.box(sym(name, kd))

    def sa_OBS(self, args, kw):
        e = self.e
        e.obs[cval(args[0])] = (e.val(args[1]), args[1], e.st)
        e.event("obs", name=cval(args[0]), value=e.val(args[1]))
        return NONE

    def claim(self, what, rule, a, b):
        e = self.e
        e.claims.append((what, cval(rule), e.val(a), e.val(b), e.st.guard, len(e.uncaught), a, e.cases))
        return NONE

    def sa_EQ(self, args, kw):
        """claim: the second argument is always the same value as the third"""
        return self.claim("eq", *args)

    def sa_POINTS(self, args, kw):
        """claim: the second argument is the same array as the third, compared at any single point of positive Q"""
        return self.claim("points", *args)

    def sa_TRUE(self, args, kw):
        return self.claim("true", args[0], self.e.truth(args[1]), TRUE)

    def sa_SAME(self, args, kw):
        """claim: the same object"""
        return self.claim("true", args[0], TRUE if args[1] is args[2] else FALSE, TRUE)

    def sa_OTHER(self, args, kw):
        """claim: two different objects"""
        return self.claim("true", args[0], FALSE if args[1] is args[2] and args[1].op == "ref" else TRUE, TRUE)

    def sa_NEVER(self, args, kw):
        """claim: this point is not reached"""
        return self.claim("never", args[0], FALSE, TRUE)

    def sa_FUN(self, args, kw):
        """SA_FUN(name, *values): an unknown function of these values, giving an array"""
        e = self.e
        return e.box(e.note(mk("call", "SA_fun:" + cval(args[0]), *[e.val(a) for a in args[1:]])))

    def sa_MARK(self, args, kw):
        e = self.e
        e.event("mark", name=cval(args[0]))
        if e.st is not None:
            e.marks[cval(args[0])] = {k: v for k, v in e.st.store.items() if k[0] == "H"}
        return NONE

    def sa_PATH(self, args, kw):
        return self.mkpath(args[0])

    def sa_YAML(self, args, kw):
        """the content of a configuration file: a function that makes it (a list of documents for load_all)"""
        e = self.e
        self.yaml[e.val(args[0])] = lambda: e.call(args[1], [], {}, e.fakenode())
        return NONE

    def sa_TABLE(self, args, kw):
        """the table in a csv file: a function of the arguments for the reader"""
        self.tables[self.e.val(args[0])] = args[1]
        return NONE

    def sa_ARGV(self, args, kw):
        """the command line: a mapping of options to their values"""
        c = self.e.content(args[0])
        self.argv = {cval(k): v for k, v in zip(c.a[::2], c.a[1::2])}
        return NONE

    def sa_FRESH(self, args, kw):
        self.e.fresh.add(self.e.val(args[0]))
        return NONE

    def sa_THERE(self, args, kw):
        """a file that is there"""
        self.there.add(self.e.val(self.topath(args[0])))
        return NONE

    def sa_MISSING(self, args, kw):
        """a file that is not there"""
        self.absent.add(self.e.val(self.topath(args[0])))
        return NONE

    def sa_ASSUME(self, args, kw):
        e = self.e
        c = e.truth(args[0])
        if c is FALSE:
            e.st = None
        elif c is not TRUE:
            e.st = type(e.st)(e.st.store, e.st.guard + (c,))
        return NONE

    def sa_CASES(self, args, kw):
        """the claims that follow are decided for every outcome of these conditions on its own"""
        self.e.cases = tuple(self.e.truth(a) for a in args)
        return NONE

    def sa_GIVEN(self, args, kw):
        """the claims that follow are decided for the case that all of these conditions hold"""
        self.e.cases = ("given", *[self.e.truth(a) for a in args])
        return NONE

    def sa_SPLIT(self, args, kw):
        """a value that is the first or the second, depending on an unknown condition"""
        return gamma(sym(cval(args[0]), "bool"), args[1], args[2])
