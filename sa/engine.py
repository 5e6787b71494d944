"""Flow-sensitive, interprocedural value-flow analysis of the Python sources of one package.

The source is interpreted over an abstract domain of value terms (terms.py): every variable, object
field and container content is a location of an abstract store, which holds the value term it has at
that program point.  Branches are analysed separately and joined where they meet again (a location
that differs becomes gamma(condition, value, other value)); containers of known shape are followed
element by element; loops over anything else are analysed with a fixpoint over the locations they
change and summarised (sum, map, build, ...).  Functions of the package are analysed at their call
sites, everything else is an uninterpreted operation or modelled in lib.py.  Nothing is executed,
no path is enumerated, and there is no solver.
"""

import ast
import os
import time

from .terms import *  # noqa: F403
from .terms import T, mk

MAXUNROLL = 64
MUTKINDS = {"array", "boolarray", "df", "series", "list", "dict", "set"}


class AnchorLost(Exception):
    """something that a rule is anchored at does not exist any more"""


class OutOfTime(Exception):
    pass


class Ev:
    """an effect met by the analysis"""

    __slots__ = ("kind", "d", "guard", "ctx", "pos", "stack", "held")

    def __init__(self, kind, d, guard, ctx, pos, stack):
        self.kind, self.d, self.guard, self.ctx, self.pos, self.stack = kind, d, guard, ctx, pos, stack

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def where(self):
        return "{}:{} ({})".format(*self.pos)

    def __repr__(self):
        return f"{self.kind} {self.d} at {self.where()}"


class St:
    __slots__ = ("store", "guard")

    def __init__(self, store, guard):
        self.store, self.guard = store, guard

    def fork(self, lit=None):
        return St(dict(self.store), self.guard if lit is None else self.guard + (lit,))


class Fr:
    """a frame: one activation of a function body, class body or module"""

    def __init__(self, fid, mod, qual, parent=None, cls=None):
        self.fid, self.mod, self.qual, self.parent, self.cls = fid, mod, qual, parent, cls
        self.names, self.globals_, self.nonlocals = set(), set(), set()
        self.exits, self.loops = [], []
        self.captured = False
        self.onyield = None
        self.selfref = None


class FuncInfo:
    def __init__(self, node, mod, qual, cls=None, parent=None):
        self.node, self.mod, self.qual, self.cls, self.parent = node, mod, qual, cls, parent
        self.kind = "plain"
        self.isgen = False
        self.iscm = False
        self.defaults = {}
        body = node.body if isinstance(node.body, list) else []
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.isgen = True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual = node, mod, qual
        self.bases = []
        self.attrs = False  # attrs.define or dataclass
        self.fields = []  # (name, value node or None)
        self.fieldv = {}  # name -> attrs field description
        self.own = set()


class LoopRec:
    def __init__(self, **kw):
        self.__dict__.update(kw)


EXC_PARENTS = {
    "AssertionError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception", "NotImplementedError": "RuntimeError",
    "RuntimeError": "Exception", "OSError": "Exception", "FileNotFoundError": "OSError", "IOError": "OSError", "StopIteration": "Exception",
    "ZeroDivisionError": "Exception", "FileExistsError": "OSError", "PermissionError": "OSError", "NameError": "Exception", "ImportError": "Exception",
    "UnicodeDecodeError": "ValueError", "Exception": "BaseException", "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException",
}


def exc_isa(name, sup):
    while name:
        if name == sup:
            return True
        name = EXC_PARENTS.get(name, "Exception" if name not in ("BaseException", "Exception") else EXC_PARENTS.get(name))
    return False


class Engine:
    def __init__(self, srcdir, package="mcsas3", overlay=None):
        self.srcdir, self.package = srcdir, package
        self.mods = {}  # module name -> (path, tree, source)
        self.funcs, self.classes, self.closures = {}, {}, {}
        self.nodes = 0
        self.uid = {}
        self.keys = {}  # context key -> number
        self.st = St({}, ())
        self.ctx = ()
        self.cc = 0
        self.stack = ()
        self.events = []
        self.loops = []
        self.handlers = []
        self.uncaught = []
        self.prov = {}
        self.depth = 0
        self.active = {}
        self.curpos = ("?", 0, "?")
        self.obs = {}
        self.claims = []
        self.cases = ()
        self.setting = []  # objects whose __setattr__ is running
        self.special, self.symkinds = {}, {}  # special values for symbols; the symbols seen
        self.stubs = {}
        self.hooks = {}
        self.called = set()
        self.callsites = set()
        self.stmts = 0
        self.unmodelled = set()
        self.pending = {}
        self.nloop = 0
        self.iterkey = ()
        self.cms = {}
        self.marks = {}  # content of the files at the marks
        self.fresh = set()
        from . import lib

        self.lib = lib.Lib(self)
        self.loaded = set()
        self.base_mods(overlay or {})

    # -- loading ---------------------------------------------------------------------------------

    def base_mods(self, overlay):
        pk = os.path.join(self.srcdir, self.package)
        for root, _, files in sorted(os.walk(pk)):
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(root, f)
                    rel = os.path.relpath(p, self.srcdir)[:-3].replace(os.sep, ".")
                    name = rel[: -len(".__init__")] if rel.endswith(".__init__") else rel
                    src = overlay.get(name) or open(p, encoding="utf-8").read()
                    self.addmod(name, p, src)
        for name in list(self.mods):
            if name.endswith("__main__"):
                continue
            self.load_module(name)

    def addmod(self, name, path, src):
        tree = ast.parse(src)
        for n in ast.walk(tree):
            self.nodes += 1
            n.uid = self.nodes
        self.mods[name] = (path, tree, src)

    def load_module(self, name):
        if name in self.loaded:
            return
        self.loaded.add(name)
        path, tree, _ = self.mods[name]
        fr = Fr(None, name, name + ".<module>")
        sv = self.stack, self.cc, self.curpos, self.handlers
        self.stack = ((name, 0),)
        self.handlers = []
        # "__main__" is only loaded to run it
        self.store_g(name, "__name__", const("__main__" if name.endswith(".__main__") else name))
        self.store_g(name, "__file__", const(path))
        self.block(tree.body, fr)
        self.stack, self.cc, self.curpos, self.handlers = sv

    def store_g(self, mod, name, v):
        self.st.store[("G", mod, name)] = v

    # -- contexts ----------------------------------------------------------------------------------

    def key(self, *k):
        n = self.keys.get(k)
        if n is None:
            n = self.keys[k] = len(self.keys) + 1
        return n

    def alloc(self, kind_, content=None, cls="", tag="", node=None):
        n = self.key("ref", self.cc, node.uid if node is not None else self.curuid, tag, self.iterkey, cls or kind_)
        # several objects made at the same place while it is evaluated once get numbers of their own
        r = mk("ref", n, kind_, cls)
        if content is not None and self.st is not None:
            self.st.store[("C", r)] = content
        return r

    def fresh_ref(self, kind_, content, cls=""):
        self.pending[(self.cc, self.curuid, self.iterkey)] = k = self.pending.get((self.cc, self.curuid, self.iterkey), 0) + 1
        return self.alloc(kind_, content, cls, tag=k)

    def box(self, t):
        """a value that can be modified in place gets an identity"""
        if t.op != "ref" and kind(t) in MUTKINDS and t.op != "gamma":
            return self.fresh_ref(kind(t), t)
        return t

    curuid = 0
    curframe = None

    def event(self, kind_, **d):
        e = Ev(kind_, d, self.st.guard if self.st else (), self.ctx, self.curpos, self.stack)
        e.held = tuple(
            (r, self.st.store.get(("C", r))) for r in self.lib.locks
        ) if self.st else ()
        self.events.append(e)
        return e

    def note(self, t):
        """where a term was first made by the analysed code"""
        if t not in self.prov and self.curpos[1] and self.curpos[0] != "driver":
            self.prov[t] = self.curpos
        return t

    def unsupported(self, why):
        self.unmodelled.add(f"{why} at {self.curpos[0]}:{self.curpos[1]}")
        return unk(why)

    # -- facts ---------------------------------------------------------------------------------------

    def fact(self, c):
        if c is TRUE or c is FALSE:
            return c
        if self.st is None:
            return c
        g = self.st.guard
        if c in g:
            return TRUE
        if neg(c) in g:
            return FALSE
        if c.op == "and":
            parts = [self.fact(x) for x in c.a]
            return conj(parts)
        if c.op == "not":
            return neg(self.fact(c.a[0]))
        return c

    def simp(self, t):
        while t.op == "gamma":
            f = self.fact(t.a[0])
            if f is TRUE:
                t = t.a[1]
            elif f is FALSE:
                t = t.a[2]
            else:
                break
        return t

    def truth(self, t):
        return self.fact(self._truth(self.simp(t)))

    def _truth(self, t):
        if t.op == "const":
            return const(bool(t.a[0]))
        if t.op == "gamma":
            return gamma(t.a[0], self._truth(t.a[1]), self._truth(t.a[2]))
        if t.op == "call" and len(t.a) == 2 and t.a[0] in ("numpy.isnan", "numpy.isinf", "numpy.isfinite"):
            k = special(t.a[1])
            if k:
                return const({"numpy.isnan": k == "nan", "numpy.isinf": k == "inf", "numpy.isfinite": k == "finite"}[t.a[0]])
        if is_bool(t):
            return t
        if t.op == "ref":
            c = self.st.store.get(("C", t))
            if t.a[1] in ("inst", "lock", "pool", "rng", "future", "process", "manager"):
                return TRUE
            if c is not None:
                if c.op == "gamma":
                    return gamma(c.a[0], self._truth(c.a[1]), self._truth(c.a[2]))
                if c.op in ("list", "dict", "set", "tuple"):
                    return const(bool(c.a))
                return mk("truth", self.val(t))
        if t.op in ("list", "dict", "set", "tuple"):
            return const(bool(t.a))
        if t.op in ("func", "bound", "class", "closure", "ext", "module", "partial", "bmeth", "P", "h5file", "h5node"):
            return TRUE
        if t.op == "strcat" and any(cstr(p) and cval(p) for p in t.a):
            return TRUE
        if kind(t) == "boolarray":
            return t
        return mk("truth", self.val(t))

    # -- store ---------------------------------------------------------------------------------------

    def content(self, r):
        if self.st is None:
            return unk("dead")
        c = self.st.store.get(("C", r))
        if c is None:
            return unk("content")
        s = self.simp(c)
        return s

    def setcontent(self, r, c):
        if self.st is None:
            return
        self.st.store[("C", r)] = c
        self.note_loc(("C", r))

    def note_loc(self, loc):
        self.wpos[loc] = self.curpos

    wpos = {}

    def val(self, t, seen=()):
        """the value with all container contents of this moment put in place of identities"""
        if t.op == "const" or t.op == "sym" or not isinstance(t, T):
            return t
        if t.op != "ref" and not self.hasref(t):
            return t
        return self.val_(t, seen, {})

    def val_(self, t, seen, done):
        if t.op == "const" or t.op == "sym":
            return t
        r = done.get(t)
        if r is None:
            r = done[t] = self.val1(t, seen, done)
        return r

    def val1(self, t, seen, done):
        if t.op == "ref":
            if t.a[1] == "inst" or t.a[1] in ("rng", "lock", "pool", "obj"):
                return t
            if t in seen:
                return unk("cyclic")
            c = self.st.store.get(("C", t))
            if c is None:
                return t
            return self.val_(c, seen + (t,), done)
        if not any(isinstance(k, T) for k in t.a):
            return t
        if t.op in ("bound", "closure", "func", "class"):
            return t
        memo = self.valmemo
        if memo.get(t) is t:
            return t
        if not self.hasref(t):
            memo[t] = t
            return t
        na = tuple(self.val_(k, seen, done) if isinstance(k, T) else k for k in t.a)
        return rebuild(t.op, na)

    valmemo = {}
    refmemo = {}

    def hasref(self, t):
        m = self.refmemo
        r = m.get(t)
        if r is None:
            r = t.op == "ref" or any(isinstance(k, T) and self.hasref(k) for k in t.a)
            m[t] = r
        return r

    def split(self, c, f, g):
        """analyse f() where c holds and g() elsewhere, join the states and the results"""
        c = self.fact(c)
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        s0 = self.st
        self.st = s0.fork(c)
        a = f()
        s1 = self.st
        self.st = s0.fork(neg(c))
        b = g()
        s2 = self.st
        self.st, v = self.join2(c, s1, a, s2, b, s0.guard)
        return v

    def join2(self, c, s1, a, s2, b, guard):
        if s1 is None and s2 is None:
            return None, unk("dead")
        if s1 is None:
            return s2, b
        if s2 is None:
            return s1, a
        return self.merge(c, s1, s2, guard), self.gamma(c, a, b)

    def gamma(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return gamma(c, a, b)

    def merge(self, c, s1, s2, guard):
        if s1 is None or s2 is None:
            return s1 or s2
        guard = self.joinguard(c, s1.guard, s2.guard, guard)
        a, b = s1.store, s2.store
        out = dict(a)
        for k, v in b.items():
            u = out.get(k)
            if u is None:
                if k[0] == "H":
                    out[k] = gamma(c, mk("h5init", k[1], k[2]), v)
                elif k[0] == "A":
                    out[k] = gamma(c, ABSENT if k[1] in self.fresh else mk("h5attr", *k[1:]), v)
                elif k[0] in ("HD",):
                    out[k] = v
                else:
                    out[k] = self.onlyone(c, None, v, k)
            elif u is not v:
                out[k] = self.mergeval(c, u, v, k)
        for k in a:
            if k not in b and k[0] == "H":
                out[k] = gamma(c, a[k], mk("h5init", k[1], k[2]))
            elif k not in b and k[0] == "A":
                out[k] = gamma(c, a[k], ABSENT if k[1] in self.fresh else mk("h5attr", *k[1:]))
            elif k not in b and k[0] == "F":
                out[k] = self.onlyone(c, a[k], None, k)
        return St(out, guard)

    def joinguard(self, c, g1, g2, p):
        """what is known after a join: c implies what held on its side, and so on"""
        n = len(p)
        if len(g1) < n or len(g2) < n or len(p) > 60:
            return p
        cs = set(c.a) if c.op == "and" else {c}
        nc = neg(c)
        out = []
        for x in g1[n:]:
            if x in cs or x in p or has_op(x, "inloop"):
                continue
            out.append(x if x in g2 else disj([nc, x]))
        for y in g2[n:]:
            if y is nc or y in p or has_op(y, "inloop") or y in g1:
                continue
            out.append(disj([c, y]))
        return p + tuple(dict.fromkeys(x for x in out if x is not TRUE and x is not FALSE))

    def onlyone(self, c, u, v, k):
        """an attribute set on one of two paths only: the other one still has that of the class"""
        x = u if v is None else v
        if k[0] == "F" and isinstance(k[1], T) and k[1].op == "ref" and k[1].a[2] in self.classes:
            w, _ = self.findattr(k[1].a[2], k[2])
            if isinstance(w, T) and w.op not in ("func", "closure", "bound") and not (w.op in ("call",)):
                return gamma(c, x, w) if v is None else gamma(c, w, x)
        return x

    def mergeval(self, c, u, v, loc):
        if u.op == "dict" and v.op == "dict" and u.a[::2] == v.a[::2]:
            r = []
            for i in range(0, len(u.a), 2):
                r += [u.a[i], gamma(c, u.a[i + 1], v.a[i + 1])]
            return mk("dict", *r)
        if u.op == "dfc" and v.op == "dfc" and u.a[0] is v.a[0] and u.a[1] is v.a[1]:
            cols = [tup(*[gamma(c, p, q) for p, q in zip(x.a, y.a)]) for x, y in zip(u.a[2:], v.a[2:])]
            return mk("dfc", u.a[0], u.a[1], *cols)
        return gamma(c, u, v)

    def joinexits(self, exs, i):
        """exits (state, value) of a structured region whose guards agree up to i -> (state, value)"""
        if not exs:
            return None, None
        if len(exs) == 1:
            return exs[0]
        gs = [e[0].guard for e in exs]
        if all(len(g) > i for g in gs):
            lit = gs[0][i]
            A = [e for e in exs if e[0].guard[i] is lit]
            B = [e for e in exs if e[0].guard[i] is neg(lit)]
            if len(A) + len(B) == len(exs):
                a = self.joinexits(A, i + 1)
                if not B:
                    return a
                b = self.joinexits(B, i + 1)
                return self.merge(lit, a[0], b[0], gs[0][:i]), self.gamma(lit, a[1], b[1])
        r = exs[-1]
        for e in reversed(exs[:-1]):
            c = conj(e[0].guard[i:])
            r = (self.merge(c, e[0], r[0], gs[0][:i]), self.gamma(c, e[1], r[1]))
        return r

    # -- names ---------------------------------------------------------------------------------------

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if f.fid is not None and name not in f.globals_:
                v = self.st.store.get(("L", f.fid, name))
                if v is not None and v is not UNDEF:
                    if f is not fr:
                        f.captured = True
                    return self.simp(v)
            if f.cls is not None and f is fr and f.fid is None:
                v = self.st.store.get(("K", f.cls, name))
                if v is not None:
                    return v
            f = f.parent
        v = self.st.store.get(("G", fr.mod, name))
        if v is not None:
            return self.simp(v)
        return self.lib.builtin(name)

    def bind(self, name, v, fr):
        if name in fr.globals_:
            loc = ("G", fr.mod, name)
        elif name in fr.nonlocals:
            f = fr.parent
            while f is not None and ("L", f.fid, name) not in self.st.store:
                f = f.parent
            loc = ("L", (f or fr).fid, name)
        elif fr.fid is None:
            loc = ("K", fr.cls, name) if fr.cls is not None else ("G", fr.mod, name)
        else:
            loc = ("L", fr.fid, name)
            fr.names.add(name)
        self.st.store[loc] = v
        self.note_loc(loc)

    # -- statements ----------------------------------------------------------------------------------

    def block(self, stmts, fr):
        for s in stmts:
            if self.st is None:
                return
            self.stmt(s, fr)

    deadline = None

    def stmt(self, s, fr):
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfTime(f"at {self.curpos[0]}:{self.curpos[1]}")
        self.stmts += 1
        self.at(s, fr)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported("statement " + type(s).__name__)
            return
        m(s, fr)

    def at(self, n, fr):
        self.curpos = (self.relpath(fr.mod), n.lineno, fr.qual)
        self.curframe = fr
        self.curuid = n.uid
        self.pending.pop((self.cc, n.uid, self.iterkey), None)

    def relpath(self, mod):
        if mod == "driver":
            return "driver"
        return os.path.relpath(self.mods[mod][0], os.path.dirname(self.srcdir)) if mod in self.mods else mod

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            v = self.import_(a.name)
            if a.asname:
                self.bind(a.asname, v, fr)
            else:
                self.bind(a.name.split(".")[0], self.import_(a.name.split(".")[0]), fr)

    def import_(self, name):
        if name in self.mods:
            s = self.st
            self.load_module(name)
            return mk("module", name)
        return ext(self.lib.canon(name))

    def s_ImportFrom(self, s, fr):
        mod = s.module or ""
        if s.level:
            base = fr.mod.split(".")
            path = self.mods.get(fr.mod, ("",))[0]
            up = s.level - (1 if path.endswith("__init__.py") else 0)
            base = base[: len(base) - up]
            mod = ".".join(base + ([mod] if mod else []))
        for a in s.names:
            if a.name == "*":
                self.unsupported("import *")
                continue
            if f"{mod}.{a.name}" in self.mods:
                v = self.import_(f"{mod}.{a.name}")
            elif mod in self.mods:
                self.load_module(mod)
                v = self.st.store.get(("G", mod, a.name))
                if v is None:
                    v = self.unsupported(f"name {a.name} of {mod}")
            else:
                v = ext(self.lib.canon(f"{mod}.{a.name}"))
            self.bind(a.asname or a.name, v, fr)

    def s_Global(self, s, fr):
        fr.globals_.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_FunctionDef(self, s, fr):
        self.bind(s.name, self.deffun(s, fr), fr)

    s_AsyncFunctionDef = s_FunctionDef

    def deffun(self, s, fr):
        name = getattr(s, "name", None) or f"<lambda:{s.lineno}:{s.col_offset}>"
        if fr.cls is not None and fr.fid is None:
            qual = fr.cls + "." + name
        elif fr.fid is None:
            qual = fr.mod + "." + name
        else:
            qual = fr.qual + "." + name
        info = FuncInfo(s, fr.mod, qual, cls=fr.cls if fr.fid is None else None)
        extra = []
        for d in getattr(s, "decorator_list", []):
            t = self.ev(d, fr)
            n = t.a[0] if t.op == "ext" else ""
            if n in ("staticmethod", "classmethod", "property"):
                info.kind = n
            elif n in ("functools.cached_property",):
                info.kind = "property"
            elif n in ("contextlib.contextmanager",):
                info.iscm = True
            elif t.op == "fieldvalidator":
                ci = self.classes.get(fr.cls)
                ci.fieldv[t.a[0]].setdefault("extra", []).append(mk("func", qual))
            elif t.op == "bmeth" and t.a[0] in ("setter", "getter"):
                qual += "." + t.a[0]
                info.qual = qual
                info.kind = t.a[0]
            elif n in ("functools.wraps", "typing.overload", "abc.abstractmethod", "typing.override", "numba.njit"):
                pass
            elif n in ("functools.lru_cache", "functools.cache") or (t.op == "call" and t.a[0] in ("functools.lru_cache",)):
                info.cached = True
                self.event("memo", func=qual)
            else:
                extra.append(t)
        a = s.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults) :], a.defaults):
            info.defaults[p.arg] = self.ev(d, fr)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                info.defaults[p.arg] = self.ev(d, fr)
        if fr.fid is None:
            if info.kind == "setter":
                self.funcs[info.qual] = info
                return self.lookup(s.name, fr)
            self.funcs[qual] = info
            f = mk("func", qual)
        else:
            fr.captured = True
            n = self.key("closure", fr.fid, s.uid)
            info.parent = fr
            self.closures[n] = info
            f = mk("closure", n)
        for d in reversed(extra):
            f = self.call(d, [f], {}, s)
        return f

    def s_ClassDef(self, s, fr):
        qual = (fr.mod if fr.fid is None and fr.cls is None else (fr.cls or fr.qual)) + "." + s.name
        ci = ClassInfo(s, fr.mod, qual)
        self.classes[qual] = ci
        for b in s.bases:
            ci.bases.append(self.ev(b, fr))
        for d in s.decorator_list:
            t = self.ev(d, fr)
            n = t.a[0] if t.op in ("ext", "call") else ""
            if n in ("attrs.define", "attr.s", "attr.define", "attrs.mutable", "attrs.frozen", "dataclasses.dataclass", "attr.attrs"):
                ci.attrs = True
        f2 = Fr(None, fr.mod, qual, parent=fr if fr.fid is not None else None, cls=qual)
        for st in s.body:
            self.at(st, f2)
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    v = self.ev(st.value, f2)
                    if v.op == "attrsfield":
                        ci.fields.append(st.target.id)
                        ci.fieldv[st.target.id] = self.lib.fieldinfo(v)
                        self.st.store[("K", qual, st.target.id)] = mk("fieldvar", st.target.id)
                        continue
                    if ci.attrs:
                        ci.fields.append(st.target.id)
                        ci.fieldv[st.target.id] = {"default": v}
                    self.bind(st.target.id, v, f2)
                elif ci.attrs:
                    ci.fields.append(st.target.id)
                    ci.fieldv[st.target.id] = {}
                continue
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                v = self.ev(st.value, f2)
                if v.op == "attrsfield":
                    ci.fields.append(st.targets[0].id)
                    ci.fieldv[st.targets[0].id] = self.lib.fieldinfo(v)
                    self.st.store[("K", qual, st.targets[0].id)] = mk("fieldvar", st.targets[0].id)
                    continue
                self.bind(st.targets[0].id, v, f2)
                continue
            self.stmt(st, f2)
        for n in ci.fields:
            if self.st.store.get(("K", qual, n), NONE).op == "fieldvar":
                del self.st.store[("K", qual, n)]
        self.bind(s.name, mk("class", qual), fr)

    def s_Return(self, s, fr):
        v = NONE if s.value is None else self.ev(s.value, fr)
        if self.st is None:
            return
        if fr.loops and fr.loops[-1].get("sym"):
            fr.loops[-1]["escapes"].append("return")
        fr.exits.append((self.st, v))
        self.st = None

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.bind(t.id, UNDEF, fr)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.index(t.slice, fr)
                self.lib.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if o.op == "ref":
                    self.st.store.pop(("F", o, t.attr), None)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        if self.st is None:
            return
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if self.st is None:
            return
        if isinstance(t, ast.Name):
            self.bind(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.index(t.slice, fr)
            self.setitem(o, k, v, t.value, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, len(t.elts), stars)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    def unpack(self, v, n, stars=()):
        v = self.simp(v)
        if v.op == "gamma":
            a, b = self.unpack(v.a[1], n, stars), self.unpack(v.a[2], n, stars)
            return [gamma(v.a[0], x, y) for x, y in zip(a, b)]
        ks = self.known(v)
        if ks is not None:
            if stars:
                i = stars[0]
                m = len(ks) - (n - 1)
                return ks[:i] + [self.fresh_ref("list", mk("list", *ks[i : i + m]))] + ks[i + m :]
            if len(ks) == n:
                return ks
            if v.op in ("list", "tuple") or v.op == "ref" and v.a[1] in ("list", "tuple"):
                self.raise_(self.st, "ValueError")
                self.st = None
                return [unk("dead")] * n
        elif v.op == "const" and not isinstance(cval(v), (str, bytes)):
            self.raise_(self.st, "TypeError")
            self.st = None
            return [unk("dead")] * n
        return [self.lib.getitem(v, const(i)) for i in range(n)]

    def s_AugAssign(self, s, fr):
        op = self.lib.OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            new = self.inplace(op, cur, self.ev(s.value, fr))
            if new is not None:
                self.bind(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            new = self.inplace(op, cur, self.ev(s.value, fr))
            self.setattr(o, t.attr, cur if new is None else new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.index(t.slice, fr)
            cur = self.lib.getitem(o, k)
            new = self.inplace(op, cur, self.ev(s.value, fr))
            if self.st is not None and (new is not None or o.op != "ref" or o.a[1] not in ("dict", "list")):
                self.setitem(o, k, cur if new is None else new, t.value, fr)

    def inplace(self, op, cur, v):
        """cur op= v: the new value, or None if the object was modified in place"""
        if self.st is None:
            return cur
        if cur.op == "gamma":
            a = b = None

            def do(x):
                r = self.inplace(op, x, v)
                return x if r is None else r

            return self.split(cur.a[0], lambda: do(cur.a[1]), lambda: do(cur.a[2]))
        if cur.op == "ref" and cur.a[1] in MUTKINDS:
            k = cur.a[1]
            if k == "list" and op == "+":
                self.lib.extend(cur, v)
                return None
            if k == "dict" and op == "|":
                self.lib.dict_update(cur, v)
                return None
            if k == "set":
                self.setcontent(cur, self.note(mk("bin", op, self.content(cur), self.val(v))))
                return None
            if k in ("array", "boolarray", "df", "series"):
                if k == "series":  # a copy on write container: other names keep the old values
                    return self.binop(op, cur, v)
                self.setcontent(cur, self.val(self.binop_(op, self.content(cur), self.val(v))))
                return None
        if op == "/" and kind(cur) == "path":
            return self.lib.pathdiv(cur, v)
        return self.binop(op, cur, v)

    def s_If(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        if self.st is None:
            return
        self.branch(c, lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr))

    def branch(self, c, f, g):
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        s0 = self.st
        ctx = self.ctx
        self.st = s0.fork(c)
        self.ctx = ctx + (("if", c),)
        f()
        s1 = self.st
        self.st = s0.fork(neg(c))
        self.ctx = ctx + (("if", neg(c)),)
        g()
        s2 = self.st
        self.ctx = ctx
        if s1 is not None and s2 is not None:
            self.st = self.merge(c, s1, s2, s0.guard)
        else:
            self.st = s1 or s2

    def s_Assert(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        if self.st is None:
            return
        self.check(c)

    def check(self, c, exc="AssertionError"):
        """go on only where c holds"""
        self.event("check", cond=c, exc=exc)
        if c is TRUE:
            return
        bad = self.st.fork(neg(c)) if c is not FALSE else self.st
        self.raise_(bad, exc)
        if c is FALSE:
            self.st = None
        else:
            self.st = St(self.st.store, self.st.guard + (c,))

    def raise_(self, st, exc, val=NONE):
        if self.handlers:
            self.handlers[-1].append((st, exc, val))
        else:
            self.uncaught.append((st.guard, exc, self.curpos, self.stack))

    def s_Raise(self, s, fr):
        exc = "Exception"
        if s.exc is not None:
            t = self.ev(s.exc, fr)
            if t.op in ("ext", "call"):
                exc = t.a[0]
            elif t.op == "sym" and t.a[0].startswith("exc:"):
                exc = t.a[0][4:]
        if self.st is None:
            return
        inh = next((c for c in reversed(self.ctx) if c[0] == "handler"), None)
        self.event("raise", exc=exc, reraise=inh)
        self.raise_(self.st, exc)
        self.st = None

    def s_Try(self, s, fr):
        tid = self.key("try", self.cc, s.uid, self.iterkey)
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append(["BaseException"])
            else:
                t = self.ev(h.type, fr)
                ts = t.a if t.op == "tuple" else (t,)
                names.append([str(x.a[0]) if x.a else "?" for x in ts])
        ctx0 = self.ctx
        s0 = self.st
        nexit = len(fr.exits)
        loopex = fr.loops[-1] if fr.loops else None
        nbr = (len(loopex["break"]), len(loopex["continue"])) if loopex else None
        self.handlers.append([])
        self.ctx = ctx0 + (("try", tid, tuple(x for n in names for x in n), bool(s.finalbody)),)
        self.block(s.body, fr)
        raised = self.handlers.pop()
        normal = self.st
        if normal is not None and s.orelse:
            self.ctx = ctx0 + (("tryelse", tid, (), bool(s.finalbody)),)
            self.handlers.append([])
            self.block(s.orelse, fr)
            raised += [(a, b, c) for a, b, c in self.handlers.pop()]
            normal = self.st
        outs = []
        rest = []
        explicit = {}
        for st, exc, v in raised:
            i = next((i for i, ns in enumerate(names) if any(exc_isa(exc, n) for n in ns)), None)
            if i is None:
                rest.append((st, exc, v))
            else:
                explicit.setdefault(i, []).append((st, exc, v))
        for i, h in enumerate(s.handlers):
            self.ctx = ctx0 + (("handler", tid, tuple(names[i]), bool(s.finalbody)),)
            # an exception may be raised by anything in the body, its state is not known: the handler
            # is analysed for its effects only, unless the body raises the exception itself
            runs = explicit.get(i, [])
            implicit = not runs
            if runs:
                st, _ = self.joinexits([(r[0], NONE) for r in runs], len(s0.guard))
                cond = disj([conj(r[0].guard[len(s0.guard) :]) for r in runs])
                st = St(st.store, s0.guard + ((cond,) if cond is not TRUE else ()))
            else:
                st = s0.fork()
                cond = TRUE
            self.st = st
            self.handlers.append([])
            n1 = len(fr.exits)
            if h.name:
                self.bind(h.name, sym("exc:" + (runs[0][1] if runs else names[i][0]), "any"), fr)
            self.event("handler", names=tuple(names[i]), tid=tid, explicit=bool(runs))
            self.block(h.body, fr)
            inner = self.handlers.pop()
            if implicit:
                del fr.exits[n1:]
                if self.st is not None:
                    self.event("handler_end", names=tuple(names[i]), tid=tid)
            else:
                rest += inner
                if self.st is not None:
                    outs.append((cond, self.st))
        self.ctx = ctx0
        self.st = normal
        for cond, st in outs:
            if self.st is None:
                self.st = st
            else:
                self.st = self.merge(cond, st, self.st, s0.guard)
        if s.finalbody:
            # returns and exceptions pass through the final block, too
            self.ctx = ctx0 + (("finally", tid, (), False),)
            ends = fr.exits[nexit:]
            del fr.exits[nexit:]
            cont = self.st
            first = True
            newex = []
            for st, v in ends:
                self.st = st
                n = len(self.events)
                self.block(s.finalbody, fr)
                if self.st is not None:
                    newex.append((self.st, v))
            fr.exits.extend(newex)
            newrest = []
            for st, exc, v in rest:
                self.st = st
                self.block(s.finalbody, fr)
                if self.st is not None:
                    newrest.append((self.st, exc, v))
            rest = newrest
            self.st = cont
            if cont is not None:
                self.block(s.finalbody, fr)
            elif not ends and not rest:
                self.st = s0.fork()
                self.block(s.finalbody, fr)
                self.st = None
            self.ctx = ctx0
        for st, exc, v in rest:
            self.raise_(st, exc, v)

    s_TryStar = s_Try

    def s_With(self, s, fr):
        self.with_items(list(s.items), s, fr)

    s_AsyncWith = s_With

    def with_items(self, items, s, fr):
        if not items:
            self.block(s.body, fr)
            return
        it, rest = items[0], items[1:]
        cm = self.ev(it.context_expr, fr)
        if self.st is None:
            return

        def body(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            self.with_items(rest, s, fr)

        self.enter(cm, body, s, fr)

    def enter(self, cm, body, s, fr):
        """with cm as v: body(v)"""
        ctx0 = self.ctx
        cm = self.simp(cm)
        if cm.op == "gamma":
            self.branch(cm.a[0], lambda: self.enter(cm.a[1], body, s, fr), lambda: self.enter(cm.a[2], body, s, fr))
            return
        if cm.op == "cmgen":
            info, args, kw, bself = self.cms[cm.a[0]]
            left = []

            def onyield(v):
                sv = self.ctx, self.stack, self.cc, self.curpos, self.depth, self.curuid, self.iterkey
                n = len(fr.exits)
                self.cc, self.iterkey = cc0, ik0
                body(v)
                self.ctx, self.stack, self.cc, self.curpos, self.depth, self.curuid, self.iterkey = sv
                # returns inside the body leave through the context manager: it goes on after them
                ends = fr.exits[n:]
                del fr.exits[n:]
                left.append(([(e[0].guard, e[1]) for e in ends], self.st.guard if self.st else None))
                outs = [(e[0], NONE) for e in ends] + ([(self.st, NONE)] if self.st else [])
                if outs:
                    self.st = self.joinexits(outs, len(g0))[0]

            cc0, ik0 = self.cc, self.iterkey
            g0 = self.st.guard
            self.run_body(info, args, kw, s, onyield=onyield)
            for ends, normal in left:
                if self.st is None:
                    break
                for g, v in ends:
                    fr.exits.append((St(dict(self.st.store), g), v))
                self.st = St(self.st.store, normal) if normal is not None else None
            return
        if cm.op == "ref" and cm.a[1] == "lock":
            was = self.st.store.get(("C", cm), const("free"))
            self.lib.lock_acquire(cm)
            n = len(fr.exits)
            self.ctx = ctx0 + (("with", cm, (), True),)
            self.handlers.append([])
            body(TRUE)
            raised = self.handlers.pop()
            self.ctx = ctx0
            for i in range(n, len(fr.exits)):
                st, v = fr.exits[i]
                st.store[("C", cm)] = was
            for st, e, v in raised:
                st.store[("C", cm)] = was
                self.raise_(st, e, v)
            if self.st is not None:
                self.lib.lock_release(cm)
            else:
                self.event("release", lock=cm, how="with")
            return
        if cm.op == "call" and cm.a[0] == "contextlib.suppress":
            tid = self.key("try", self.cc, s.uid, self.iterkey)
            self.ctx = ctx0 + (("try", tid, tuple(str(x.a[0]) for x in kids(cm)), False),)
            self.handlers.append([])
            s0 = self.st
            body(NONE)
            raised = self.handlers.pop()
            self.ctx = ctx0
            self.event("handler", names=tuple(str(x.a[0]) for x in kids(cm)), tid=tid, explicit=False)
            for st, e, v in raised:
                if any(exc_isa(e, str(x.a[0])) for x in kids(cm)):
                    self.st = self.merge(conj(st.guard[len(s0.guard) :]), st, self.st, s0.guard) if self.st else st
                else:
                    self.raise_(st, e, v)
            return
        if cm.op == "ref" and cm.a[1] == "inst" and self.findattr(cm.a[2], "__enter__")[0] is not None:
            v = self.callmethod(cm, "__enter__", [], {}, s)
            tid = self.key("try", self.cc, s.uid, self.iterkey)
            self.ctx = ctx0 + (("with", cm, (), True),)
            n = len(fr.exits)
            self.handlers.append([])
            body(v)
            raised = self.handlers.pop()
            self.ctx = ctx0 + (("finally", tid, (), False),)
            for i in range(n, len(fr.exits)):
                sv, self.st = self.st, fr.exits[i][0]
                self.callmethod(cm, "__exit__", [NONE, NONE, NONE], {}, s)
                self.st = sv
            for st, e, x in raised:
                sv, self.st = self.st, st
                self.callmethod(cm, "__exit__", [sym("exctype"), sym("exc"), sym("tb")], {}, s)
                self.raise_(self.st, e, x)
                self.st = sv
            if self.st is not None:
                self.callmethod(cm, "__exit__", [NONE, NONE, NONE], {}, s)
            self.ctx = ctx0
            return
        v = self.lib.enter(cm)
        self.ctx = ctx0 + (("with", cm, (), False),)
        body(v)
        self.ctx = ctx0
        if self.st is not None:
            self.lib.leave(cm)

    def s_Match(self, s, fr):
        subj = self.ev(s.subject, fr)

        def go(cases):
            if not cases:
                return
            c = cases[0]
            cond = self.pattern(c.pattern, subj, fr)
            if c.guard is not None and cond is not FALSE:
                cond = conj([cond, self.truth(self.ev(c.guard, fr))])
            self.branch(self.fact(cond), lambda: self.block(c.body, fr), lambda: go(cases[1:]))

        go(s.cases)

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("==", v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.is_none(v) if p.value is None else self.truth(self.compare("==", v, const(p.value)))
        if isinstance(p, ast.MatchOr):
            return disj([self.pattern(q, v, fr) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, v, fr)
            if p.name:
                self.bind(p.name, v, fr)
            return c
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.lib.isinstance_(v, self.ev(p.cls, fr))
        self.unsupported("pattern")
        return mk("truth", unk("pattern"))

    def s_Break(self, s, fr):
        fr.loops[-1]["break"].append((self.st, NONE))
        self.st = None

    def s_Continue(self, s, fr):
        fr.loops[-1]["continue"].append((self.st, NONE))
        self.st = None

    # -- loops ---------------------------------------------------------------------------------------

    def known(self, v):
        """elements of an iterable of known shape, else None"""
        return self.lib.known(v)

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        if self.st is None:
            return

        def assign(x):
            self.assign(s.target, x, fr)

        self.forloop(it, assign, lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr), s, fr)

    def forloop(self, it, assign, body, orelse, node, fr):
        if self.st is None:
            return
        it = self.simp(it)
        if it.op == "ref" and it.a[1] != "inst":
            c = self.content(it)
            if c.op == "gamma" and c.a[1].op in ("list", "dict", "tuple", "set", "gamma"):
                c0 = c.a[0]

                def side(lit):
                    def f():
                        self.forloop(it, assign, body, orelse, node, fr)

                    return f

                self.branch(c0, side(c0), side(neg(c0)))
                return
        if it.op == "gamma":
            self.branch(
                it.a[0],
                lambda: self.forloop(it.a[1], assign, body, orelse, node, fr),
                lambda: self.forloop(it.a[2], assign, body, orelse, node, fr),
            )
            return
        ks = self.known(it)
        if ks is not None and len(ks) <= MAXUNROLL:
            self.unrolled(ks, assign, body, orelse, node, fr)
            return
        sp = self.lib.space(it)
        if self.st is None:
            return
        self.symloop(sp, assign, body, orelse, node, fr)

    def unrolled(self, ks, assign, body, orelse, node, fr):
        ik0 = self.iterkey
        lp = {"break": [], "continue": [], "escapes": []}
        base = len(self.st.guard)
        g0 = self.st.guard
        breaks = []
        for i, x in enumerate(ks):
            if self.st is None:
                break
            self.iterkey = ik0 + ((node.uid, i),)
            lp = {"break": [], "continue": [], "escapes": []}
            fr.loops.append(lp)
            b0 = len(self.st.guard)
            assign(x)
            body()
            fr.loops.pop()
            outs = lp["continue"] + ([(self.st, NONE)] if self.st is not None else [])
            self.st = self.joinexits(outs, b0)[0] if outs else None
            breaks += lp["break"]
        self.iterkey = ik0
        if self.st is not None and orelse is not None:
            orelse()
        if breaks:
            outs = breaks + ([(self.st, NONE)] if self.st is not None else [])
            self.st = self.joinexits(outs, base)[0]

    def s_While(self, s, fr):
        # known number of turns?
        ik0 = self.iterkey
        test = s.test
        sv = self.snap()
        c = self.truth(self.ev(test, fr))
        if self.st is None:
            return
        if c is FALSE:
            self.block(s.orelse, fr)
            return
        if c is TRUE:
            # try to unroll: the condition stays decidable until it is false
            if self.unroll_while(s, fr):
                return
        self.restore(sv)
        if self.peel and self.peel_while(s, fr):
            return
        self.symloop(None, None, lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr), s, fr, test=test)

    peel = 0

    def peel_while(self, s, fr):
        """the first turns of a loop, one after the other; only if no path goes on after them"""
        ik0 = self.iterkey
        sv = self.snap()
        ncl = len(self.claims)
        nex = len(fr.exits)
        outs = []
        base = len(self.st.guard)
        done = False
        for i in range(self.peel):
            self.iterkey = ik0 + ((s.uid, i),)
            c = self.truth(self.ev(s.test, fr))
            if self.st is None:
                done = True
                break
            if c is not TRUE:
                outs.append((self.st.fork(neg(c)) if c is not FALSE else self.st, NONE, "else"))
                if c is FALSE:
                    self.st = None
                    done = True
                    break
                self.st = self.st.fork(c)
            lp = {"break": [], "continue": [], "escapes": []}
            fr.loops.append(lp)
            b0 = len(self.st.guard)
            self.block(s.body, fr)
            fr.loops.pop()
            o = lp["continue"] + ([(self.st, NONE)] if self.st is not None else [])
            self.st = self.joinexits(o, b0)[0] if o else None
            outs += [(x[0], NONE, "break") for x in lp["break"]]
            if self.st is None:
                done = True
                break
        self.iterkey = ik0
        if not done:
            self.restore(sv)
            del self.claims[ncl:]
            del fr.exits[nex:]
            return False
        fin = []
        for st, _, how in outs:
            self.st = st
            if how == "else":
                self.block(s.orelse, fr)
            if self.st is not None:
                fin.append((self.st, NONE))
        self.st = self.joinexits(fin, base)[0] if fin else None
        return True

    def snap(self):
        return (self.st.fork(), len(self.events), len(self.uncaught), [list(h) for h in self.handlers], len(self.loops), dict(self.obs))

    def restore(self, sv):
        self.st = sv[0].fork()
        del self.events[sv[1] :]
        del self.uncaught[sv[2] :]
        for h, o in zip(self.handlers, sv[3]):
            h[:] = o
        del self.loops[sv[4] :]

    def unroll_while(self, s, fr):
        ik0 = self.iterkey
        sv = self.snap()
        nex = len(fr.exits)
        breaks = []
        base = len(self.st.guard)
        for i in range(MAXUNROLL):
            self.iterkey = ik0 + ((s.uid, i),)
            c = self.truth(self.ev(s.test, fr))
            if self.st is None:
                break
            if c is FALSE:
                break
            if c is not TRUE:
                self.restore(sv)
                self.iterkey = ik0
                del fr.exits[nex:]
                return False
            lp = {"break": [], "continue": [], "escapes": []}
            fr.loops.append(lp)
            b0 = len(self.st.guard)
            self.block(s.body, fr)
            fr.loops.pop()
            outs = lp["continue"] + ([(self.st, NONE)] if self.st is not None else [])
            self.st = self.joinexits(outs, b0)[0] if outs else None
            breaks += lp["break"]
            if self.st is None:
                break
        else:
            self.restore(sv)
            self.iterkey = ik0
            del fr.exits[nex:]
            return False
        self.iterkey = ik0
        if self.st is not None:
            self.block(s.orelse, fr)
        if breaks:
            outs = breaks + ([(self.st, NONE)] if self.st is not None else [])
            self.st = self.joinexits(outs, base)[0]
        return True

    def symloop(self, sp, assign, body, orelse, node, fr, test=None):
        """a loop whose number of turns is not known: fixpoint over the locations that it changes"""
        lid = self.key("loop", self.cc, node.uid, self.iterkey)
        bv = mk("bv", lid)
        s0 = self.st
        base = s0.guard
        ctx0, ik0 = self.ctx, self.iterkey
        self.iterkey = ik0 + ((node.uid, "*"),)
        changed = {}
        nev, nunc, nlo = len(self.events), len(self.uncaught), len(self.loops)
        hs = [list(h) for h in self.handlers]
        nex = len(fr.exits)
        for pas in range(12):
            del self.events[nev:]
            del self.uncaught[nunc:]
            del self.loops[nlo:]
            for h, o in zip(self.handlers, hs):
                h[:] = o
            del fr.exits[nex:]
            st = s0.fork()
            for loc, init in changed.items():
                k = kind(init) if init is not None else "any"
                st.store[loc] = mk("mu", lid, loc, k if k != "none" else "any")
            self.st = st
            start = dict(st.store)
            lp = {"break": [], "continue": [], "escapes": [], "sym": True}
            fr.loops.append(lp)
            self.ctx = ctx0 + (("loop", lid, (), False),)
            c = TRUE
            if test is not None:
                c = self.truth(self.ev(test, fr))
                self.st = St(self.st.store, self.st.guard + ((c,) if c is not TRUE else ()))
            else:
                inr = mk("inloop", bv)
                self.st = St(self.st.store, self.st.guard + (inr,))
                assign(sp[1](bv))
            b0 = len(self.st.guard) if self.st is not None else 0
            if self.st is not None:
                body()
            fr.loops.pop()
            outs = lp["continue"] + ([(self.st, NONE)] if self.st is not None else [])
            end = self.joinexits(outs, b0)[0] if outs else None
            allends = [e for e in [end] if e] + [b[0] for b in lp["break"]]
            new = {}
            for e in allends:
                for loc, v in e.store.items():
                    if loc[0] == "L" and loc not in s0.store and loc[1] != fr.fid:
                        continue
                    if start.get(loc) is not v and not (loc[0] in ("C", "F") and loc not in s0.store):
                        if loc not in changed:
                            new[loc] = s0.store.get(loc)
            if not new:
                break
            changed.update(new)
        else:
            self.unsupported("loop without fixpoint")
        self.ctx, self.iterkey = ctx0, ik0
        rec = LoopRec(
            lid=lid, bv=bv, space=sp[0] if sp else None, test=c, init=dict(changed), node=node, pos=(self.relpath(fr.mod), node.lineno, fr.qual),
            next={loc: (end.store.get(loc) if end else None) for loc in changed}, breaks=len(lp["break"]),
            start=start, end=end.store if end else {}, events=(nev, len(self.events)), mu={loc: start.get(loc) for loc in changed}, guard=base,
            breakguards=[b[0].guard[len(base):] for b in lp["break"]],
        )
        self.loops.append(rec)
        # returns from inside the loop
        esc = fr.exits[nex:]
        del fr.exits[nex:]
        out = s0.fork()
        irregular = bool(lp["break"]) or bool(esc)
        self.close(rec, out, s0, end, irregular)
        for st, v in esc:
            cond = mk("truth", mk("loopexit", lid, conj(st.guard[len(base) :])))
            o2 = St(dict(out.store), base + (cond,))
            fr.exits.append((o2, mk("loopval", lid, self.val_in(v, st))))
            out = St(out.store, base + (neg(cond),))
        self.st = out
        if orelse is not None:
            orelse()

    def val_in(self, v, st):
        sv, self.st = self.st, st
        r = self.val(v)
        self.st = sv
        return r

    def close(self, rec, out, s0, end, irregular):
        """the value of every changed location after the loop"""
        lid, bv = rec.lid, rec.bv
        if end is None:
            for loc in rec.init:
                out.store[loc] = mk("loopval", lid, mk("loc", loc))
            return
        nxt = {}
        innerrefs = {loc[1] for loc in end.store if loc[0] == "C" and loc not in s0.store}
        for loc in rec.init:
            v = end.store.get(loc, UNDEF)
            nxt[loc] = self.reify(v, end, innerrefs)
        # new objects made inside the loop that survive through changed locations are put in by value
        n = None
        length = rec.space
        subs = {}
        # induction variables
        for loc, v in nxt.items():
            mu = rec.mu.get(loc)
            init = rec.init[loc]
            if mu is None or init is None or mu.op != "mu":
                continue
            if v.op == "bin" and v.a[0] in "+-" and v.a[1] is mu and not has_op(v.a[2], "mu", "bv") and kind(init) in ("int", "num", "float"):
                step = v.a[2]
                off = bv if cint(step) and cval(step) == 1 else mk("bin", "*", bv, step)
                subs[mu] = off if cint(init) and cval(init) == 0 and v.a[0] == "+" else binop(v.a[0], init, off)
        if length is None and not irregular:
            # while i < n: ... i += 1
            c = rec.test
            for loc, v in nxt.items():
                mu = rec.mu.get(loc)
                if mu in subs and c.op == "cmp" and c.a[1] is mu and not has_op(c.a[2], "mu") and v.op == "bin" and v.a[0] == "+" and cint(v.a[2]) and cval(v.a[2]) == 1:
                    init = rec.init[loc]
                    if c.a[0] == "<":
                        length = binop("-", c.a[2], init) if not (cint(init) and cval(init) == 0) else c.a[2]
                    elif c.a[0] == "<=":
                        length = binop("+", binop("-", c.a[2], init), const(1))
                    elif c.a[0] == "!=":
                        length = binop("-", c.a[2], init)
            rec.space = length
        for loc, v in nxt.items():
            mu = rec.mu.get(loc)
            init = rec.init[loc]
            if irregular or length is None:
                out.store[loc] = mk("loopval", lid, mk("loc", loc))
                continue
            if mu in subs:
                st = v.a[2]
                tot = length if cint(st) and cval(st) == 1 else mk("bin", "*", length, st)
                out.store[loc] = binop(v.a[0], init, tot) if not (cint(init) and cval(init) == 0 and v.a[0] == "+") else tot
                continue
            v = subst(v, subs) if subs else v
            out.store[loc] = self.summary(rec, loc, mu, init, v, length)

    def reify(self, v, st, inner):
        sv, self.st = self.st, st

        done = {}

        def go(t, seen):
            r = done.get(t)
            if r is None:
                r = done[t] = go1(t, seen)
            return r

        def go1(t, seen):
            if t.op == "ref":
                if t in inner and t not in seen:
                    return go(st.store[("C", t)], seen + (t,))
                return t
            if not self.hasref(t) or t.op in ("bound", "closure", "func", "class"):
                return t
            return rebuild(t.op, tuple(go(k, seen) if isinstance(k, T) else k for k in t.a))

        r = go(v, ())
        self.st = sv
        return r

    def summary(self, rec, loc, mu, init, v, length):
        bv, lid = rec.bv, rec.lid
        if mu is None or mu.op != "mu" or not has(v, mu):
            if any(x.op == "mu" and x.a[0] == lid for x in walk(v)):
                return mk("loopval", lid, v)
            if init is None:
                init = UNDEF
            # overwritten in every turn
            last = subst(v, {bv: binop("-", length, const(1))})
            if last is v:
                if init is UNDEF or loc[0] == "L":
                    return v
            if loc[0] == "L":
                return last
            return mk("last", length, bv, v, init)
        r = self.accum(mu, init, v, bv, length, TRUE)
        if r is not None and not has(r, mu):
            return r
        return mk("loopval", lid, v)

    def accum(self, mu, init, v, bv, length, cond):
        """closed form of: mu := init; for bv < length: mu := v"""
        if v is mu:
            return init
        if any(x.op == "mu" and x is not mu and x.a[0] == mu.a[0] for x in walk(v)):
            return None
        if v.op == "gamma" and cond is TRUE and not has(v.a[0], mu):
            if v.a[2] is mu:
                return self.accum(mu, init, v.a[1], bv, length, v.a[0])
            if v.a[1] is mu:
                return self.accum(mu, init, v.a[2], bv, length, neg(v.a[0]))
        g = v
        if v.op == "bin" and v.a[0] in ("+", "-"):
            terms = addends(v)
            mus = [t for s, t in terms if t is mu]
            if len(mus) == 1 and all(not has(t, mu) for s, t in terms if t is not mu) and all(s == 1 for s, t in terms if t is mu):
                tot = init
                for s, t in terms:
                    if t is mu:
                        continue
                    x = mk("sum", length, bv, t, cond)
                    tot = mk("bin", "+" if s > 0 else "-", tot, x) if not (cnum(tot) and cval(tot) == 0 and s > 0) else x
                return tot
        if v.op == "lappend" and v.a[0] is mu and not has(v.a[1], mu):
            m = mk("map", length, bv, v.a[1], cond)
            return m if init.op == "list" and not init.a else mk("concat", init, m)
        if v.op == "upd" and cond is TRUE:
            ups = []
            t = v
            while t.op == "upd" and t is not mu:
                if has(t.a[1], mu) or has(t.a[2], mu):
                    return None
                ups.append((t.a[1], t.a[2]))
                t = t.a[0]
            if t is mu:
                return mk("build", init, length, bv, tup(*[tup(k, x) for k, x in reversed(ups)]))
        if v.op == "rowset" and v.a[0] is mu and cond is TRUE and not has(v.a[1], mu) and not has(v.a[2], mu):
            return mk("rowbuild", init, length, bv, v.a[1], v.a[2])
        if v.op == "dset" and v.a[0] is mu and not has(v.a[1], mu) and not has(v.a[2], mu):
            return mk("dbuild", init, length, bv, v.a[1], v.a[2], cond)
        if v.op == "and" and mu in v.a and cond is TRUE:
            return conj([init, mk("all", length, bv, conj([x for x in v.a if x is not mu]))])
        return None

    # -- expressions ---------------------------------------------------------------------------------

    def ev(self, n, fr):
        if self.st is None:
            return unk("dead")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.unsupported("expression " + type(n).__name__)
        u0, p0 = self.curuid, self.curpos
        if hasattr(n, "uid"):
            self.curuid = n.uid
            if hasattr(n, "lineno"):
                self.curpos = (p0[0], n.lineno, p0[2])
        r = m(n, fr)
        self.curuid, self.curpos = u0, p0
        if r is None:
            r = NONE
        return r

    def e_Constant(self, n, fr):
        if n.value is Ellipsis:
            return ELL
        return const(n.value)

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Tuple(self, n, fr):
        return tup(*self.elts(n.elts, fr))

    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fr)
                ks = self.known(v)
                if ks is None:
                    out.append(mk("star", self.val(v)))
                else:
                    out += ks
            else:
                out.append(self.ev(e, fr))
        return out

    def e_List(self, n, fr):
        xs = self.elts(n.elts, fr)
        return self.alloc("list", mk("list", *xs), node=n)

    def e_Set(self, n, fr):
        xs = self.elts(n.elts, fr)
        return self.alloc("set", mk("set", *xs), node=n)

    def e_Dict(self, n, fr):
        r = self.alloc("dict", mk("dict"), node=n)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.lib.dict_update(r, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.setitem(r, kk, self.ev(v, fr))
        return r

    def e_JoinedStr(self, n, fr):
        return strcat(*[self.ev(v, fr) for v in n.values])

    def e_FormattedValue(self, n, fr):
        v = self.ev(n.value, fr)
        spec = self.ev(n.format_spec, fr) if n.format_spec is not None else const("")
        if n.conversion not in (-1, 115):
            return mk("call", "format", self.val(v), spec)
        return self.lib.spec(v, spec)

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr, n)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        k = self.index(n.slice, fr)
        if self.st is None:
            return unk("dead")
        return self.lib.getitem(o, k)

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s, fr)
        if isinstance(s, ast.Tuple):
            return tup(*[self.index(e, fr) for e in s.elts])
        return self.ev(s, fr)

    def e_Slice(self, s, fr):
        return mk("slice", *[NONE if x is None else self.val(self.ev(x, fr)) for x in (s.lower, s.upper, s.step)])

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.bind(n.target.id, v, fr)
        return v

    def e_Lambda(self, n, fr):
        return self.deffun(n, fr)

    def e_IfExp(self, n, fr):
        c = self.truth(self.ev(n.test, fr))
        if self.st is None:
            return unk("dead")
        return self.split(c, lambda: self.ev(n.body, fr), lambda: self.ev(n.orelse, fr))

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)

        def go(vals):
            v = self.ev(vals[0], fr)
            if len(vals) == 1 or self.st is None:
                return v
            c = self.truth(v)
            if isand:
                return self.split(c, lambda: go(vals[1:]), lambda: v if not (is_bool(v)) else FALSE)
            return self.split(c, lambda: v if not is_bool(v) else TRUE, lambda: go(vals[1:]))

        return go(n.values)

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return neg(self.truth(v))
        if isinstance(n.op, ast.USub):
            if cnum(v):
                return const(-cval(v))
            return self.box(self.note(mk("neg", self.val(v))))
        if isinstance(n.op, ast.UAdd):
            return v
        return self.lib.invert(v)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(self.lib.OPS[type(n.op)], a, b)

    def binop(self, op, a, b):
        if self.st is None:
            return unk("dead")
        a, b = self.simp(a), self.simp(b)
        if op == "/" and (kind(a) == "path" or (kind(b) == "path")):
            return self.lib.pathdiv(a, b)
        return self.box(self.binop_(op, a, b))

    def binop_(self, op, a, b):
        r = self.lib.binop_special(op, a, b)
        if r is not None:
            return r
        a, b = self.val(a), self.val(b)
        return self.note(binop(op, a, b))

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        cs = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fr)
            if self.st is None:
                return unk("dead")
            cs.append(self.compare(self.lib.CMP[type(op)], left, right))
            left = right
        if len(cs) == 1:
            return cs[0]
        return conj([self.truth(c) for c in cs])

    def compare(self, op, a, b):
        a, b = self.simp(a), self.simp(b)
        if op in ("is", "isnot", "==", "!=") and (a is NONE or b is NONE):
            x = b if a is NONE else a
            c = self.is_none(x)
            return c if op in ("is", "==") else neg(c)
        if op in ("in", "notin"):
            c = self.lib.contains(b, a)
            return c if op == "in" else neg(c)
        if op in ("is", "isnot"):
            c = TRUE if a is b and a.op in ("ref", "const", "class", "func") else self.compare_("==", a, b)
            return c if op == "is" else neg(c)
        return self.compare_(op, a, b)

    def compare_(self, op, a, b):
        if op == "!=":
            r = self.compare_("==", a, b)
            return self.box(neg(self.val(r))) if r.op == "ref" else neg(r)
        if a.op == "const" and b.op == "const":
            x, y = cval(a), cval(b)
            try:
                return const({"==": x == y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
            except Exception:
                return unk("compare")
        if op == "==":
            if a is b and a.op != "sym" and kind(a) not in ("any", "float", "num", "array", "boolarray", "series", "df"):
                return TRUE
            for x, y in ((a, b), (b, a)):
                if x.op == "gamma" and y.op == "const":
                    return gamma(x.a[0], self.compare_(op, x.a[1], y), self.compare_(op, x.a[2], y))
            ka, kb = kind(a), kind(b)
            disjoint = {"str", "int", "none", "list", "dict", "path", "func", "class", "inst"}
            if ka in disjoint and kb in disjoint and ka != kb:
                return FALSE
            if a.op in ("class", "ext") and b.op in ("class", "ext") and a is not b:
                return FALSE
            if a.op in ("class", "ext", "func") and b.op in ("const",) or b.op in ("class", "ext", "func") and a.op == "const":
                return FALSE
            if a.op in ("class", "ext", "func") and a is b:
                return TRUE
            if a.op == "strcat" and b.op == "const" and kb == "str":
                if cstr(a.a[0]) and not cval(b).startswith(cval(a.a[0])) or cstr(a.a[-1]) and not cval(b).endswith(cval(a.a[-1])):
                    return FALSE
        va, vb = self.val(a), self.val(b)
        if op == ">":
            op, va, vb = "<", vb, va
        elif op == ">=":
            op, va, vb = "<=", vb, va
        if va.op in ("list", "tuple") and vb.op in ("list", "tuple") and op == "==" and va.op == vb.op:
            if len(va.a) != len(vb.a):
                return FALSE
            return conj([self.compare_("==", x, y) for x, y in zip(va.a, vb.a)])
        if cint(va) and vb.op == "call" and vb.a[0] == "len" and op == "<=" and cval(va) <= 0:
            return TRUE
        if vb.op == "const" and cint(vb) and cval(vb) == 0 and va.op == "call" and va.a[0] == "len" and op == "<":
            return FALSE
        return self.box(self.note(mk("cmp", op, va, vb)))

    def is_none(self, x):
        x = self.simp(x)
        if x is NONE:
            return TRUE
        if x.op == "gamma":
            return self.fact(gamma(x.a[0], self.is_none(x.a[1]), self.is_none(x.a[2])))
        k = kind(x)
        if x.op in ("loopval", "mu", "unk", "last"):
            return self.fact(mk("isnone", x))
        if k.startswith("opt:") or (k == "any" and x.op in ("sym", "h5val", "item", "attr", "h5init", "call", "app")):
            if x.op == "call":
                return FALSE
            return self.fact(mk("isnone", x))
        return FALSE

    def e_ListComp(self, n, fr):
        return self.comp(n, fr, "list")

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr, "list")

    def e_SetComp(self, n, fr):
        r = self.comp(n, fr, "list")
        return self.fresh_ref("set", mk("set", *dict.fromkeys(self.known(r)))) if self.known(r) is not None else self.lib.call("set", [r], {})

    def e_DictComp(self, n, fr):
        return self.comp(n, fr, "dict")

    def comp(self, n, fr, what):
        res = self.alloc(what, mk(what), node=n, tag="comp")
        saved = {}
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    loc = ("L", fr.fid, x.id) if fr.fid is not None else (("K", fr.cls, x.id) if fr.cls else ("G", fr.mod, x.id))
                    saved[loc] = self.st.store.get(loc)

        def inner():
            if what == "dict":
                k = self.ev(n.key, fr)
                v = self.ev(n.value, fr)
                if self.st is not None:
                    self.setitem(res, k, v)
            else:
                v = self.ev(n.elt, fr)
                if self.st is not None:
                    self.lib.append(res, v)

        def gen(i):
            if i == len(n.generators):
                inner()
                return
            g = n.generators[i]
            it = self.ev(g.iter, fr)
            if self.st is None:
                return

            def body():
                cs = [1]

                def conds(j):
                    if j == len(g.ifs):
                        gen(i + 1)
                        return
                    c = self.truth(self.ev(g.ifs[j], fr))
                    self.branch(c, lambda: conds(j + 1), lambda: None)

                conds(0)

            self.forloop(it, lambda x: self.assign(g.target, x, fr), body, None, g, fr)

        for g in n.generators:
            if not hasattr(g, "uid"):
                self.nodes += 1
                g.uid = self.nodes
            g.lineno = n.lineno
        gen(0)
        if self.st is not None:
            for loc, v in saved.items():
                if v is None:
                    self.st.store.pop(loc, None)
                else:
                    self.st.store[loc] = v
        return res

    def e_Yield(self, n, fr):
        v = NONE if n.value is None else self.ev(n.value, fr)
        if fr.onyield is not None:
            fr.onyield(v)
        return NONE

    def e_YieldFrom(self, n, fr):
        v = self.ev(n.value, fr)
        if fr.onyield is not None:
            self.forloop(v, lambda x: fr.onyield(x), lambda: None, None, n, fr)
        return NONE

    def e_Await(self, n, fr):
        return self.ev(n.value, fr)

    # -- calls ---------------------------------------------------------------------------------------

    def e_Call(self, n, fr):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "super" and self.lookup("super", fr).op == "ext":
            return mk("super", self.owner(fr), self.selfof(fr))
        if isinstance(f, ast.Name) and f.id in ("locals", "vars") and not n.args and self.lookup(f.id, fr).op == "ext":
            items = []
            for nm in sorted(fr.names):
                v = self.st.store.get(("L", fr.fid, nm))
                if v is not None:
                    items += [const(nm), v]
            return self.fresh_ref("dict", mk("dict", *items))
        recv = None
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, fr)
            if self.st is None:
                return unk("dead")
        else:
            fv = self.ev(f, fr)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                ks = self.known(v)
                if ks is None:
                    args.append(mk("star", self.val(v)))
                else:
                    args += ks
            else:
                args.append(self.ev(a, fr))
        parts = []
        for k in n.keywords:
            parts.append((k.arg, self.ev(k.value, fr)))
        if self.st is None:
            return unk("dead")
        self.callsites.add((fr.mod, n.lineno, n.col_offset))

        def go(parts, kw):
            for i, (k, v) in enumerate(parts):
                if k is not None:
                    kw[k] = v
                    continue
                s = self.lib.spread(v, kw)
                if s is not None:
                    # a dictionary whose keys depend on a condition
                    c, x, y = s
                    rest = parts[i + 1 :]
                    return self.split(c, lambda: go([(None, x)] + rest, dict(kw)), lambda: go([(None, y)] + rest, dict(kw)))
            if self.st is None:
                return unk("dead")
            if recv is not None:
                return self.callmethod(recv, f.attr, args, kw, n)
            return self.call(fv, args, kw, n)

        return go(parts, kw)

    def owner(self, fr):
        f = fr
        while f is not None:
            if getattr(f, "owner", None):
                return f.owner
            f = f.parent
        return ""

    def selfof(self, fr):
        f = fr
        while f is not None:
            if f.selfref is not None:
                return f.selfref
            f = f.parent
        return NONE

    def callmethod(self, recv, name, args, kw, node):
        recv = self.simp(recv)
        if recv.op == "gamma":
            return self.split(
                recv.a[0],
                lambda: self.callmethod(recv.a[1], name, args, kw, node),
                lambda: self.callmethod(recv.a[2], name, args, kw, node),
            )
        if recv.op in ("module", "ext", "class", "super", "fieldvar") or (recv.op == "ref" and recv.a[1] == "inst"):
            if recv.op == "ref":
                v = self.st.store.get(("F", recv, name))
                if v is not None:
                    return self.call(v, args, kw, node)
                if name in ("__setattr__", "__getattribute__") and self.findattr(recv.a[2], name)[0] is None:
                    return self.lib.call("setattr" if name == "__setattr__" else "getattr", [recv] + list(args), kw, node)
            f = self.getattr(recv, name, node)
            return self.call(f, args, kw, node)
        return self.lib.method(recv, name, args, kw, node)

    def call(self, f, args, kw, node):
        if self.st is None:
            return unk("dead")
        f = self.simp(f)
        if f.op == "gamma":
            return self.split(f.a[0], lambda: self.call(f.a[1], args, kw, node), lambda: self.call(f.a[2], args, kw, node))
        if f.op == "func":
            return self.callfun(self.funcs[f.a[0]], args, kw, node)
        if f.op == "bound":
            info = self.funcs[f.a[0]]
            return self.callfun(info, [f.a[1]] + args, kw, node)
        if f.op == "closure":
            return self.callfun(self.closures[f.a[0]], args, kw, node)
        if f.op == "class":
            return self.instantiate(f.a[0], args, kw, node)
        if f.op == "partial":
            kw2 = {x.a[0]: x.a[1] for x in f.a[2].a}
            kw2.update(kw)
            return self.call(f.a[0], list(f.a[1].a) + args, kw2, node)
        if f.op == "bmeth":
            return self.callmethod(f.a[1], f.a[0], args, kw, node)
        if f.op == "ext":
            return self.lib.call(f.a[0], args, kw, node)
        if f.op == "ref" and f.a[1] == "inst":
            m, cls = self.findattr(f.a[2], "__call__")
            if m is not None:
                return self.callmethod(f, "__call__", args, kw, node)
        return self.note(mk("app", self.val(f), *[self.val(a) for a in args], *[mk("kw", k, self.val(kw[k])) for k in sorted(kw)]))

    def callfun(self, info, args, kw, node):
        stub = self.stubs.get(info.qual)
        if stub is not None:
            r = stub(self, info, args, kw, node)
            if r is not None:
                return r
        if info.iscm:
            n = self.key("cm", self.cc, node.uid, self.iterkey, info.qual)
            self.cms[n] = (info, args, kw, None)
            return mk("cmgen", n)
        if info.isgen:
            res = self.alloc("list", mk("list"), tag="gen" + info.qual, node=node)

            def onyield(v):
                self.lib.append(res, v)

            self.run_body(info, args, kw, node, onyield=onyield)
            return res
        return self.run_body(info, args, kw, node)

    def run_body(self, info, args, kw, node, onyield=None, owner=None):
        if self.depth > 60 or self.active.get(info.qual, 0) > 6 or (self.active.get(info.qual, 0) > 1 and any(k[1] == "*" for k in self.iterkey)):
            return self.unsupported("recursion " + info.qual)
        self.called.add(info.qual)
        sv = self.cc, self.stack, self.curpos, self.curuid, self.iterkey
        fid = self.key("frame", self.cc, node.uid, self.iterkey, info.qual)
        fr = Fr(fid, info.mod, info.qual, parent=info.parent)
        fr.owner = info.cls
        fr.onyield = onyield
        self.bindargs(info, args, kw, fr)
        if self.st is None:
            return unk("dead")
        if info.cls and info.kind not in ("staticmethod",) and args:
            fr.selfref = args[0]
        self.cc = self.key("cc", self.cc, node.uid, self.iterkey)
        self.iterkey = ()
        self.stack = self.stack + ((info.qual, node.lineno if hasattr(node, "lineno") else 0),)
        self.depth += 1
        self.active[info.qual] = self.active.get(info.qual, 0) + 1
        base = len(self.st.guard)
        if isinstance(info.node, ast.Lambda):
            v = self.ev_at(info.node.body, fr)
            if self.st is not None:
                fr.exits.append((self.st, v))
        else:
            self.block(info.node.body, fr)
            if self.st is not None:
                fr.exits.append((self.st, NONE))
        self.depth -= 1
        self.active[info.qual] -= 1
        self.cc, self.stack, self.curpos, self.curuid, self.iterkey = sv
        if fr.exits:
            self.st, v = self.joinexits(fr.exits, base)
        else:
            self.st, v = None, unk("dead")
        if self.st is not None and not fr.captured:
            for nme in fr.names:
                self.st.store.pop(("L", fid, nme), None)
        return v

    def ev_at(self, n, fr):
        self.at(n, fr)
        return self.ev(n, fr)

    def bindargs(self, info, args, kw, fr):
        a = info.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        rest = list(args)
        for p in pos:
            if rest:
                if rest[0].op == "star":
                    s = rest[0].a[0]
                    i = pos.index(p)
                    vals[p] = item(s, const(sum(1 for q in pos[:i] if q in vals and getattr(self, "_star", None))))
                    vals[p] = mk("item", s, const(i - len([x for x in args if x.op != "star"])))
                    continue
                vals[p] = rest.pop(0)
        kw = dict(kw)
        for p in pos + [q.arg for q in a.kwonlyargs]:
            if p in kw and p not in vals:
                vals[p] = kw.pop(p)
        bad = None
        if a.vararg:
            vals[a.vararg.arg] = tup(*rest)
        elif rest and not any(r.op == "star" for r in rest):
            bad = "too many positional arguments"
        if a.kwarg:
            items = []
            for k, v in kw.items():
                items += [const(k), v]
            vals[a.kwarg.arg] = self.alloc("dict", mk("dict", *items), tag="kwargs" + info.qual)
        elif kw:
            bad = "unexpected keyword argument " + ", ".join(kw)
        for p in pos + [q.arg for q in a.kwonlyargs]:
            if p not in vals:
                if p in info.defaults:
                    vals[p] = info.defaults[p]
                elif "**" in kw:
                    vals[p] = unk("keyword")
                else:
                    bad = bad or f"missing argument {p}"
                    vals[p] = unk("missing argument")
        if bad and "**" not in kw:
            self.event("badcall", func=info.qual, why=bad)
            self.raise_(self.st, "TypeError")
            self.st = None
            return
        for k, v in vals.items():
            self.st.store[("L", fr.fid, k)] = v
            fr.names.add(k)

    # -- classes -------------------------------------------------------------------------------------

    def mro(self, qual):
        out = [qual]
        ci = self.classes.get(qual)
        if ci:
            for b in ci.bases:
                if b.op == "class":
                    out += [x for x in self.mro(b.a[0]) if x not in out]
        return out

    def findattr(self, qual, name, after=None):
        mro = self.mro(qual)
        if after is not None:
            mro = mro[mro.index(after) + 1 :] if after in mro else []
        for c in mro:
            v = self.st.store.get(("K", c, name))
            if v is not None:
                return v, c
        return None, None

    def instantiate(self, qual, args, kw, node):
        ci = self.classes[qual]
        stub = self.stubs.get(qual)
        if stub is not None:
            r = stub(self, ci, args, kw, node)
            if r is not None:
                return r
        r = self.alloc("inst", None, cls=qual, tag="new", node=node)
        self.event("new", cls=qual, ref=r)
        for k in [k for k in self.st.store if k[0] == "F" and k[1] is r]:
            del self.st.store[k]
        init, c = self.findattr(qual, "__init__")
        if init is not None:
            self.call(self.bindto(init, r), args, kw, node)
        elif any(self.classes[c].attrs for c in self.mro(qual) if c in self.classes):
            self.lib.attrs_init(qual, r, args, kw, node)
        else:
            for b in self.mro(qual):
                for x in self.classes[b].bases:
                    if x.op == "ext" and x.a[0] not in ("object",):
                        self.st.store[("F", r, "__base__")] = mk("call", "new", x, *[self.val(a) for a in args])
        return r if self.st is not None else unk("dead")

    def bindto(self, f, r):
        if f.op == "func":
            info = self.funcs[f.a[0]]
            if info.kind == "staticmethod":
                return f
            if info.kind == "classmethod":
                return mk("bound", f.a[0], mk("class", r.a[2]) if r.op == "ref" else r)
            return mk("bound", f.a[0], r)
        return f

    def getattr(self, o, name, node=None, default=None):
        o = self.simp(o)
        if self.st is None:
            return unk("dead")
        if o.op == "gamma":
            return self.split(
                o.a[0], lambda: self.getattr(o.a[1], name, node, default), lambda: self.getattr(o.a[2], name, node, default)
            )
        if o.op == "module":
            if f"{o.a[0]}.{name}" in self.mods:
                return mk("module", f"{o.a[0]}.{name}")
            v = self.st.store.get(("G", o.a[0], name))
            if v is not None:
                return v
            return default if default is not None else self.unsupported(f"{o.a[0]}.{name}")
        if o.op == "fieldvar" and name == "validator":
            return mk("fieldvalidator", o.a[0])
        if o.op == "ext":
            return self.lib.extattr(o.a[0], name)
        if o.op == "class":
            v, c = self.findattr(o.a[0], name)
            if v is not None:
                if v.op == "func" and self.funcs[v.a[0]].kind == "classmethod":
                    return mk("bound", v.a[0], o)
                return v
            if name in ("__name__", "__qualname__"):
                return const(o.a[0].split(".")[-1])
            if name == "__new__":
                return mk("ext", "object.__new__")
            return default if default is not None else self.unsupported(f"{o.a[0]}.{name}")
        if o.op == "super":
            me = o.a[1]
            cls = me.a[2] if me.op == "ref" else me.a[0]
            v, c = self.findattr(cls, name, after=o.a[0])
            if v is not None:
                return self.bindto(v, me)
            if name == "__init__":
                after = self.mro(cls)
                after = after[after.index(o.a[0]) + 1 :] if o.a[0] in after else []
                for c in after:
                    if c in self.classes and self.classes[c].attrs:
                        return mk("bmeth", "__attrs_init__", tup(me, mk("class", c)))
                return ext("noop")
            return ext("noop")
        if o.op == "ref" and o.a[1] == "inst":
            p, c = self.findattr(o.a[2], name)
            if p is not None and p.op == "func" and self.funcs[p.a[0]].kind == "property":
                return self.callfun(self.funcs[p.a[0]], [o], {}, node or self.fakenode())
            v = self.st.store.get(("F", o, name))
            if v is not None and v is not UNDEF:
                return self.simp(v)
            if p is not None:
                return self.bindto(p, o)
            if name == "__class__":
                return mk("class", o.a[2])
            if name == "__dict__":
                return mk("instdict", o)
            g, _ = self.findattr(o.a[2], "__getattr__")
            if g is not None:
                return self.call(self.bindto(g, o), [const(name)], {}, node or self.fakenode())
            if default is not None:
                return default
            b = self.st.store.get(("F", o, "__base__"))
            if b is not None:
                return mk("attr", b, name)
            return self.unsupported(f"attribute {name} of {o.a[2]}")
        return self.lib.attr(o, name)

    class _N:
        uid = -1
        lineno = 0
        col_offset = 0

    def fakenode(self):
        n = Engine._N()
        n.uid = self.curuid
        n.lineno = self.curpos[1]
        return n

    def setattr(self, o, name, v):
        o = self.simp(o)
        if self.st is None:
            return
        if o.op == "gamma":
            self.split(
                o.a[0],
                lambda: (self.setattr(o.a[1], name, v), NONE)[1],
                lambda: (self.setattr(o.a[2], name, v), NONE)[1],
            )
            return
        if o.op == "ref" and o.a[1] == "inst":
            own, _ = self.findattr(o.a[2], "__setattr__")
            if own is not None and own.op == "func" and o not in self.setting:
                self.setting.append(o)
                try:
                    self.callfun(self.funcs[own.a[0]], [o, const(name), v], {}, self.fakenode())
                finally:
                    self.setting.pop()
                return
            p, c = self.findattr(o.a[2], name)
            if p is not None and p.op == "func" and self.funcs[p.a[0]].kind == "property":
                s = self.funcs.get(p.a[0] + ".setter")
                if s is not None:
                    self.callfun(s, [o, v], {}, self.fakenode())
                    return
            self.lib.attrs_validate(o, name, v)
            if self.st is None:
                return
            self.st.store[("F", o, name)] = v
            self.note_loc(("F", o, name))
            self.event("setattr", obj=o, name=name, value=v)
            return
        if o.op == "class":
            self.st.store[("K", o.a[0], name)] = v
            self.event("classwrite", cls=o.a[0], name=name, value=v)
            return
        if o.op == "module":
            self.st.store[("G", o.a[0], name)] = v
            return
        if o.op == "ref" and o.a[1] == "df" and name == "columns":
            self.lib.set_columns(o, v)
            return
        if o.op == "ref" and o.a[1] == "df":
            c = self.content(o)
            if c.op in ("dfc", "fr") and const(name) in c.a[1].a:
                self.setitem(o, const(name), v)
                return
        self.event("extset", obj=self.val(o), name=name, value=v)

    def setitem(self, o, k, v, onode=None, fr=None):
        o = self.simp(o)
        if self.st is None:
            return
        if o.op == "gamma":
            self.split(
                o.a[0],
                lambda: (self.setitem(o.a[1], k, v), NONE)[1],
                lambda: (self.setitem(o.a[2], k, v), NONE)[1],
            )
            return
        if o.op == "ref" and o.a[1] == "inst":
            self.callmethod(o, "__setitem__", [k, v], {}, self.fakenode())
            return
        r = self.lib.setitem(o, k, v)
        if r is not None and onode is not None and fr is not None:
            # a value without identity was modified: the place it came from gets the new value
            if isinstance(onode, (ast.Name, ast.Attribute)):
                self.assign(onode, r, fr)
            elif isinstance(onode, ast.Subscript):
                o2 = self.ev(onode.value, fr)
                k2 = self.index(onode.slice, fr)
                self.setitem(o2, k2, r)

    # -- drivers -------------------------------------------------------------------------------------

    def run(self, src, name="driver"):
        """analyse a driver: a function sequence starting from the public entry points"""
        self.addmod(name, name, src)
        path, tree, _ = self.mods[name]
        fr = Fr(None, name, name)
        self.loaded.add(name)
        self.stack = ((name, 0),)
        self.block(tree.body, fr)
        return self


def addends(t, s=1):
    if t.op == "bin" and t.a[0] in ("+", "-"):
        return addends(t.a[1], s) + addends(t.a[2], s if t.a[0] == "+" else -s)
    if t.op == "neg":
        return addends(t.a[0], -s)
    return [(s, t)]
