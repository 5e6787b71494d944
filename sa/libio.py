"""Models of the HDF5 file interface, of processes and of locks.

The content of a file is part of the abstract store: one location per (file, path).
"""

from .terms import *  # noqa: F403
from .terms import T, mk


class IoMixin:
    faults = None  # an error that opening a file may raise in a worker process
    nfault = 0

    # -- files ------------------------------------------------------------------------------------------

    def f_h5py_File(self, args, kw):
        e = self.e
        f = e.val(self.topath(args[0] if args else kw["name"]))
        mode = e.val(args[1] if len(args) > 1 else kw.get("mode", const("r")))
        e.event("h5open", file=f, mode=mode)
        if self.gone(f) and mode.op == "const" and cval(mode) in ("r", "r+"):
            return self.notfound()
        if self.faults and any(c[0] == "worker" for c in e.ctx):
            self.nfault += 1
            e.check(neg(mk("cmp", "==", sym("the access that fails", "int"), const(self.nfault))), self.faults)
            if e.st is None:
                return unk("dead")
        if mode.op == "const" and cval(mode) in ("w", "w-", "x"):
            for k in [k for k in e.st.store if k[0] == "H" and k[1] is f]:
                e.st.store[k] = ABSENT
            e.fresh.add(f)
        return mk("h5file", f, mode)

    def h5path(self, o, k):
        """(file, absolute path) of entry k below o"""
        f = o.a[0]
        base = o.a[1] if o.op == "h5node" else const("/")
        t = self.ptext(k) if k is not None else const("")
        p = base if cstr(t) and cval(t) == "" else pathjoin(base, t)
        cs = components(p)
        return f, from_components(cs, True)

    def h5locs(self, f, p):
        """locations of file f at or below path p: [(relative components, loc)]"""
        out = []
        pc = components(p)
        for k in self.e.st.store:
            if k[0] == "H" and k[1] is f:
                kc = components(k[2])
                if kc[: len(pc)] == pc:
                    out.append((kc[len(pc) :], k))
        return out

    def h5get(self, f, p):
        """content at exactly p: value, or None if there is no location"""
        return self.e.st.store.get(("H", f, p))

    def h5children(self, t, mode):
        e = self.e
        t = e.simp(t)
        if t.op == "h5attrs" or t.op not in ("h5node", "h5file"):
            return None
        f, p = self.h5path(t, None)
        if f not in e.fresh:
            return None
        names = []
        for rel, loc in self.h5locs(f, p):
            if rel and e.st.store[loc] is not ABSENT and rel[0] not in names:
                v = e.st.store[loc]
                if v.op == "gamma" and has(v, ABSENT):
                    return None
                names.append(rel[0])
        if not names:
            e.event("h5missing", file=f, path=p)
        # HDF5 lists entries by name
        if all(cstr(n) for n in names):
            names.sort(key=cval)
        kids_ = [self.h5node(f, pathjoin(p, n) if p is not const("/") else strcat(const("/"), n)) for n in names]
        if mode == 0:
            return names
        if mode == 1:
            return kids_
        return [tup(n, c) for n, c in zip(names, kids_)]

    def h5attrget(self, o, k):
        """the attribute, ABSENT, or None if it is not known"""
        e = self.e
        f, p, k = o.a[0], o.a[1], e.val(k)
        v = e.st.store.get(("A", f, p, k))
        if v is None and f in e.fresh and cstr(k) and all(cstr(x[3]) for x in e.st.store if x[0] == "A" and x[1] is f):
            return ABSENT
        return v

    def h5node(self, f, p):
        return mk("h5node", f, from_components(components(p), True))

    def h5contains(self, c, k):
        e = self.e
        if c.op == "h5attrs":
            v = self.h5attrget(c, k)
            if v is None:
                return mk("h5in", e.val(c), e.val(k))
            return self.present(v)
        f, p = self.h5path(c, k)
        locs = [e.st.store[l] for _, l in self.h5locs(f, p)]
        if locs:
            cs = [self.present(v) for v in locs]
            known_ = f in e.fresh or any(rel == [] for rel, _ in self.h5locs(f, p))
            r = disj(cs)
            if r is TRUE or known_:
                return r
            return disj([r, mk("h5in", mk("h5init", f, const("/")), p)])
        # an entry below a known dataset, or in a file without unknown content
        if f in e.fresh:
            e.event("h5absent", file=f, path=p)
            return FALSE
        return mk("h5in", mk("h5init", f, const("/")), p)

    def present(self, v):
        if v is ABSENT:
            return FALSE
        if v.op == "gamma":
            return gamma(v.a[0], self.present(v.a[1]), self.present(v.a[2]))
        if v.op == "h5init":
            return mk("h5in", mk("h5init", v.a[0], const("/")), v.a[1])
        return TRUE

    def h5isgroup(self, v):
        e = self.e
        f, p = self.h5path(v, None)
        c = self.h5get(f, p)
        if c is not None and c.op != "h5init":
            r = self.groupish(c)
            if r is not None:
                return r
        if any(rel for rel, _ in self.h5locs(f, p)):
            return TRUE
        return mk("isinstance", v, "h5py.Group")

    def groupish(self, c):
        if c.op == "gamma":
            a, b = self.groupish(c.a[1]), self.groupish(c.a[2])
            return None if a is None or b is None else gamma(c.a[0], a, b)
        return None if c is ABSENT or c.op == "h5init" else const(c.op == "h5group")

    def h5getitem(self, o, k):
        e = self.e
        if o.op == "h5attrs":
            e.event("h5attr", file=o.a[0], path=o.a[1], name=e.val(k))
            v = self.h5attrget(o, k)
            if v is None:
                return e.note(mk("h5attr", o.a[0], o.a[1], e.val(k)))
            e.check(self.present(v), "KeyError")
            if e.st is None:
                return unk("dead")
            v = e.simp(v)
            if v.op in ("list", "tuple"):
                v = mk("call", "numpy.array", mk("list", *v.a))
            return e.box(v) if v.op != "gamma" or not has(v, ABSENT) else unk("attribute")
        if o.op == "h5node" and (k is tup() or k is ELL or k.op == "slice" and all(x is NONE for x in k.a)):
            return self.h5read(o)
        kk = e.simp(k)
        if kk.op == "gamma":
            return gamma(kk.a[0], self.h5getitem(o, kk.a[1]), self.h5getitem(o, kk.a[2]))
        if o.op == "h5node" and kind(k) not in ("str", "path", "any", "opt:str") and k.op != "strcat":
            return e.box(item(self.h5read(o), e.val(k)))
        f, p = self.h5path(o, k)
        if f in e.fresh and self.h5contains(o, k) is FALSE:
            e.event("h5missing", file=f, path=p)
            e.raise_(e.st, "KeyError")
            e.st = None
            return unk("dead")
        return mk("h5node", f, p)

    def h5read(self, o):
        e = self.e
        f, p = self.h5path(o, None)
        c = self.h5get(f, p)
        e.event("h5read", file=f, path=p)
        if c is None:
            return e.note(mk("h5val", f, p))
        c = e.simp(c)
        if c.op == "gamma":
            return self.readgamma(c, f, p)
        return self.readval(c, f, p)

    def readgamma(self, c, f, p):
        if c.op == "gamma":
            a, b = self.readgamma(c.a[1], f, p), self.readgamma(c.a[2], f, p)
            return gamma(c.a[0], a, b)
        return self.readval(c, f, p)

    def readval(self, c, f, p):
        """what reading gives for a stored value"""
        e = self.e
        if c.op == "h5init":
            return mk("h5val", f, p)
        if c is ABSENT or c.op == "h5group":
            return unk("no dataset")
        k = kind(c)
        if k in ("str",) or c.op == "strcat":
            return mk("conv", "bytes", c)
        if k == "strarray" or (c.op == "call" and c.a[0] == "astype" and c.a[2].op == "call" and "special_dtype" in c.a[2].a[0]):
            return e.box(mk("conv", "bytesarray", c.a[1] if c.op == "call" else c))
        if k == "path":
            return mk("conv", "bytes", mk("call", "str", c))
        ks = self.known(c)
        if ks and all(kind(x) == "str" for x in ks):
            return e.box(mk("conv", "bytesarray", c))
        return e.box(c)

    def h5attr(self, o, name):
        e = self.e
        if name == "attrs" and o.op != "h5attrs":
            f, p = self.h5path(o, None)
            return mk("h5attrs", f, p)
        if name == "name":
            return self.h5path(o, None)[1]
        if name == "value":
            return self.h5read(o)
        if name in ("shape", "dtype", "size", "ndim"):
            return mk("attr", e.val(self.h5read(o)), name)
        if name == "parent":
            f, p = self.h5path(o, None)
            return mk("h5node", f, from_components(components(p)[:-1], True))
        if name == "file":
            return mk("h5file", o.a[0], const("?"))
        return mk("bmeth", name, o)

    def h5method(self, o, name, args, kw):
        e = self.e
        if o.op == "h5attrs":
            if name == "get":
                return e.split(
                    e.fact(self.h5contains(o, args[0])),
                    lambda: self.h5getitem(o, args[0]),
                    lambda: args[1] if len(args) > 1 else NONE,
                )
            if name in ("keys", "items", "values"):
                return mk("call", "." + name, o)
            if name in ("create", "modify", "__setitem__"):
                self.h5setitem(o, args[0], args[1] if len(args) > 1 else kw.get("data", kw.get("value", unk("attribute"))))
                return NONE
        if name == "keys":
            return mk("dkeys", o)
        if name == "items":
            return mk("ditems", o)
        if name == "values":
            return mk("dvalues", o)
        if name == "get":
            return e.split(
                e.fact(self.h5contains(o, args[0])),
                lambda: self.h5getitem(o, args[0]),
                lambda: args[1] if len(args) > 1 else NONE,
            )
        if name == "__contains__":
            return self.h5contains(o, args[0])
        if name in ("require_group", "create_group"):
            f, p = self.h5path(o, args[0])
            if p is not const("/") and ("H", f, p) not in e.st.store and not any(r for r, _ in self.h5locs(f, p)):
                pass
            return mk("h5node", f, p)
        if name in ("create_dataset", "require_dataset"):
            data = kw.get("data", args[3] if len(args) > 3 else None)
            n = args[0] if args else kw.get("name")
            f, p = self.h5path(o, n)
            if name == "require_dataset":
                if data is None or self.h5contains(o, n) is not FALSE:
                    # an existing dataset of the same shape and type keeps its values
                    c = self.h5contains(o, n)
                    new = e.val(data) if data is not None else unk("empty dataset")
                    old = self.h5get(f, p)
                    if old is None:
                        old = mk("h5init", f, p)
                    self.h5put(f, p, gamma(c, gamma(mk("truth", mk("call", "samedataset", old, new)), old, unk("error")), new), "require")
                    return mk("h5node", f, p)
            if data is None:
                data = unk("empty dataset")
            if name == "create_dataset":
                c = self.h5contains(o, n)
                if c is not FALSE:
                    e.event("h5exists", file=f, path=p, cond=c)
                    e.check(neg(c), "ValueError")
                    if e.st is None:
                        return unk("dead")
            self.h5put(f, p, e.val(data), "create")
            return mk("h5node", f, p)
        if name in ("close", "flush"):
            return NONE
        if name in ("visit", "visititems", "copy", "move"):
            e.event("h5other", fn=name, obj=o)
            return unk("h5." + name)
        if name == "pop":
            v = self.h5getitem(o, args[0])
            self.h5delete(o, args[0])
            return v
        if name in ("astype", "asstr"):
            v = self.h5read(o)
            if name == "asstr" and v.op == "conv":
                return mk("h5str", v.a[1])
            return v
        if name == "read_direct":
            return unk("read_direct")
        return self.generic("h5." + name, [o] + args, kw)

    def h5put(self, f, p, v, how):
        e = self.e
        v = self.stored(v)
        for rel, loc in self.h5locs(f, p):
            if rel:
                e.st.store[loc] = ABSENT
        e.st.store[("H", f, p)] = v
        e.note_loc(("H", f, p))
        e.event("h5write", file=f, path=p, value=v, how=how)

    def stored(self, v):
        if v.op == "gamma":
            return gamma(v.a[0], self.stored(v.a[1]), self.stored(v.a[2]))
        if v.op == "call" and v.a[0] == "numpy.array" and len(v.a) == 2 and v.a[1].op in ("list", "tuple"):
            return v
        return v

    def h5setitem(self, o, k, v):
        e = self.e
        if o.op == "h5attrs":
            e.event("h5attrwrite", file=o.a[0], path=o.a[1], name=e.val(k), value=e.val(v))
            e.st.store[("A", o.a[0], o.a[1], e.val(k))] = e.val(v)
            return
        if o.op == "h5node" and (k is tup() or k is ELL or k.op == "slice"):
            f, p = self.h5path(o, None)
            old = self.h5get(f, p)
            if old is None:
                old = mk("h5init", f, p)
            # the values are converted to the type of the existing dataset
            self.h5put(f, p, mk("call", "castlike", e.val(v), old), "assign")
            return
        f, p = self.h5path(o, k)
        c = self.h5contains(o, k)
        if c is not FALSE:
            e.event("h5exists", file=f, path=p, cond=c)
            e.check(neg(c), "ValueError")
            if e.st is None:
                return
        self.h5put(f, p, e.val(v), "create")

    def h5delete(self, o, k):
        e = self.e
        f, p = self.h5path(o, k)
        for rel, loc in self.h5locs(f, p):
            e.st.store[loc] = ABSENT
        e.st.store[("H", f, p)] = ABSENT
        e.event("h5delete", file=f, path=p)

    def enter(self, cm):
        e = self.e
        if cm.op == "ref" and cm.a[1] == "pool":
            return cm
        if cm.op == "call" and cm.a[0] == "contextlib.nullcontext":
            return cm.a[1] if len(cm.a) > 1 else NONE
        if cm.op == "ext":
            return NONE
        return cm

    def leave(self, cm):
        e = self.e
        if cm.op == "ref" and cm.a[1] == "pool":
            e.event("poolexit", pool=cm)

    def f_h5py_special_dtype(self, args, kw):
        return mk("call", "h5py.special_dtype")

    def f_h5py_string_dtype(self, args, kw):
        return mk("call", "h5py.special_dtype")

    # -- configuration files -------------------------------------------------------------------------------

    def f_yaml_safe_load(self, args, kw):
        e = self.e
        src = e.val(args[0])
        e.event("yaml", src=src)
        h = self.yamlfile(src)
        if h is not None:
            return h()
        return self.yamldefault(src)

    def yamlfile(self, src):
        for x in walk(src):
            if x in self.yaml:
                return self.yaml[x]
        return None

    def yamldefault(self, src):
        if "default" in self.yaml:
            return self.yaml["default"](src)
        return self.e.fresh_ref("dict", mk("call", "yaml", src))

    def f_yaml_load(self, args, kw):
        return self.f_yaml_safe_load(args, kw)

    def f_yaml_safe_load_all(self, args, kw):
        e = self.e
        src = e.val(args[0])
        e.event("yaml", src=src)
        h = self.yamlfile(src)
        if h is not None:
            return h()
        return mk("call", "yaml_all", src)

    # -- locks and processes ----------------------------------------------------------------------------------

    def newlock(self, what, n=None):
        e = self.e
        r = e.fresh_ref("lock", const("free"))
        self.locks.append(r)
        if what == "RLock":
            self.reentrant.add(r)
        e.event("lock", ref=r, what=what, n=n)
        return r

    def f_multiprocessing_Lock(self, args, kw):
        return self.newlock("Lock")

    def f_multiprocessing_RLock(self, args, kw):
        return self.newlock("RLock")

    def f_multiprocessing_Semaphore(self, args, kw):
        return self.newlock("Semaphore", args[0] if args else kw.get("value", const(1)))

    f_multiprocessing_BoundedSemaphore = f_multiprocessing_Semaphore

    def f_threading_Lock(self, args, kw):
        return self.newlock("threading")

    f_threading_RLock = f_threading_Semaphore = f_threading_BoundedSemaphore = f_threading_Lock

    def lock_acquire(self, r, sure=TRUE):
        e = self.e
        was = e.st.store.get(("C", r), const("free"))
        e.event("acquire", lock=r, was=was, sure=sure)
        n = const("held")
        if r in self.reentrant and cstr(was) and cval(was).startswith("held"):
            n = const(cval(was) + "+")
        e.st.store[("C", r)] = gamma(sure, n, was)

    def lock_release(self, r):
        e = self.e
        was = e.st.store.get(("C", r), const("free"))
        e.event("release", lock=r, was=was)
        e.st.store[("C", r)] = const(cval(was)[:-1]) if cstr(was) and cval(was).endswith("+") else const("free")

    def m_lock(self, o, name, args, kw):
        e = self.e
        if name == "acquire":
            a = dict(enumerate(args))
            block = e.val(a.get(0, kw.get("block", kw.get("blocking", TRUE))))
            timeout = e.val(a.get(1, kw.get("timeout", NONE)))
            if block is TRUE and (timeout is NONE or timeout is const(-1)):
                self.lock_acquire(o)
                return TRUE
            self.nacquired = getattr(self, "nacquired", 0) + 1
            got = mk("truth", sym(f"lock acquired {self.nacquired}", "int"))
            self.lock_acquire(o, got)
            return got
        if name == "release":
            self.lock_release(o)
            return NONE
        if name == "__enter__":
            self.lock_acquire(o)
            return TRUE
        if name == "__exit__":
            self.lock_release(o)
            return NONE
        return None

    def f_multiprocessing_Manager(self, args, kw):
        return self.e.fresh_ref("manager", mk("list"))

    def m_manager(self, o, name, args, kw):
        if name in ("Lock", "RLock"):
            return self.newlock(name)
        return None

    def f_multiprocessing_get_context(self, args, kw):
        return ext("multiprocessing")

    def f_multiprocessing_Pool(self, args, kw):
        e = self.e
        n = args[0] if args else kw.get("processes", kw.get("max_workers", NONE))
        init = args[1] if len(args) > 1 else kw.get("initializer", NONE)
        ia = args[2] if len(args) > 2 else kw.get("initargs", tup())
        r = e.fresh_ref("pool", tup(e.val(n), init, ia))
        e.event("pool", n=e.val(n), ref=r)
        return r

    f_multiprocessing_pool_Pool = f_multiprocessing_Pool

    def f_concurrent_futures_ProcessPoolExecutor(self, args, kw):
        e = self.e
        n = args[0] if args else kw.get("max_workers", NONE)
        r = e.fresh_ref("pool", tup(e.val(n), kw.get("initializer", NONE), kw.get("initargs", tup())))
        e.event("pool", n=e.val(n), ref=r)
        return r

    def f_multiprocessing_Process(self, args, kw):
        e = self.e
        return e.fresh_ref("process", tup(kw.get("target", NONE), kw.get("args", tup()), kw.get("kwargs", NONE)))

    def m_process(self, o, name, args, kw):
        e = self.e
        if name == "start":
            c = e.content(o)
            e.event("pool", n=const(1), ref=o)
            pool = e.fresh_ref("pool", tup(const(1), NONE, tup()))
            d = {}
            if c.a[2] is not NONE:
                if self.spread(c.a[2], d) is not None:
                    d["**"] = e.val(c.a[2])
            self.task(pool, c.a[0], self.known(c.a[1]) or [], d, True)
            return NONE
        if name == "join":
            e.event("pooljoin", ref=o)
        return NONE

    def m_pool(self, o, name, args, kw):
        e = self.e
        if name in ("starmap", "map", "imap", "imap_unordered", "starmap_async", "map_async"):
            star = name.startswith("starmap")
            f = args[0]
            it = args[1] if len(args) > 1 else kw.get("iterable")
            ks = [self.known(a) for a in args[1:]] if not star else [self.known(it)]
            if ks[0] is None:
                return self.symtasks(o, f, it, star)
            out = []
            if star:
                tasks = [self.known(x) or [x] for x in ks[0]]
            elif len(args) > 2 and all(k is not None for k in ks):
                tasks = [list(t) for t in zip(*ks)]
            else:
                tasks = [[x] for x in ks[0]]
            for t in tasks:
                if e.st is None:
                    return unk("dead")
                out.append(self.task(o, f, t, {}, name.endswith("_async") or name.startswith("imap")))
            if e.st is None:
                return unk("dead")
            r = e.fresh_ref("list", mk("list", *out))
            return e.fresh_ref("future", r) if name.endswith("_async") else r
        if name in ("apply", "apply_async", "submit"):
            if name == "submit":
                v = self.task(o, args[0], args[1:], kw, True)
            else:
                a = self.known(args[1]) if len(args) > 1 else (self.known(kw["args"]) if "args" in kw else [])
                d = {}
                kk = args[2] if len(args) > 2 else kw.get("kwds")
                if kk is not None:
                    if self.spread(kk, d) is not None:
                        d["**"] = e.val(kk)
                v = self.task(o, args[0], a or [], d, name != "apply")
            return v if name == "apply" else e.fresh_ref("future", v)
        if name in ("close", "join", "terminate", "shutdown"):
            e.event("pool" + name, ref=o)
            return NONE
        return None

    def m_future(self, o, name, args, kw):
        self.e.event("future" + name, ref=o)
        if name in ("get", "result"):
            return self.e.content(o)
        return NONE

    def f_concurrent_futures_as_completed(self, args, kw):
        return args[0]

    def symtasks(self, pool, f, it, star):
        e = self.e
        res = e.fresh_ref("list", mk("list"))
        cur = {}
        node = e.fakenode()
        node.uid = ("tasks", e.curuid)
        fr = type("F", (), {"loops": [], "exits": [], "fid": None, "mod": next(iter(e.mods)), "qual": "tasks"})()

        def body():
            x = cur["x"]
            if star:
                ks = self.known(x)
                a = ks if ks is not None else [mk("star", e.val(x))]
            else:
                a = [x]
            v = self.task(pool, f, a, {})
            if e.st is not None:
                self.append(res, v)

        e.forloop(it, lambda x: cur.update(x=x), body, None, node, fr)
        return res

    def task(self, pool, f, args, kw, later=False):
        """a call in another process: it works on copies, only files and locks are shared"""
        e = self.e
        c = e.content(pool)
        n = self.ntask = getattr(self, "ntask", 0) + 1
        before = e.st
        guard = e.st.guard
        e.st = e.st.fork()
        ctx = e.ctx
        e.ctx = ctx + (("worker", n, (), False),)
        if c.a[1] is not NONE:
            e.call(c.a[1], self.known(c.a[2]) or [], {}, e.fakenode())
        e.event("task", fn=f, args=[e.val(a) for a in args], pool=pool, n=c.a[0], later=later)
        node = e.fakenode()
        node.uid = ("task", e.curuid, n)
        e.handlers.append([])
        v = e.call(f, args, kw, node) if e.st is not None else unk("dead")
        raised = e.handlers.pop()
        after = e.st
        for st, exc in [(x[0], x[1]) for x in raised] + ([(after, None)] if after is not None else []):
            e.st = st
            e.event("taskend", exc=exc, fn=f)
        e.st = after
        v = e.val(v) if e.st is not None else unk("dead")
        e.ctx = ctx
        after = e.st
        if not later:  # an exception ends the call in this process as well
            for x in raised:
                p = before.fork()
                p.guard = x[0].guard
                self.fromtask(p, x[0])
                e.raise_(p, *x[1:])
        e.st = before
        if after is not None:
            self.fromtask(e.st, after)
            if not later:
                e.st.guard = after.guard
        elif not later:
            e.st = None
        return e.box(v)

    def fromtask(self, st, after):
        for k, x in after.store.items():
            if k[0] == "H":
                st.store[k] = x
        for r in self.locks:
            k = ("C", r)
            if k in after.store:
                st.store[k] = after.store[k]
