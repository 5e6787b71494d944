"""Models of attrs/dataclass classes and of the command line parser."""

from .terms import *  # noqa: F403
from .terms import T, mk


class AttrMixin:
    # -- attrs ---------------------------------------------------------------------------------------

    def f_attrs_field(self, args, kw):
        n = self.e.key("attrsfield", self.e.curuid, self.e.cc)
        self.fields_ = getattr(self, "fields_", {})
        self.fields_[n] = dict(kw)
        if args:
            self.fields_[n].setdefault("default", args[0])
        return mk("attrsfield", n)

    f_attrs_ib = f_attr_ib = f_attr_field = f_attrs_attrib = f_dataclasses_field = f_attrs_field

    def f_attrs_Factory(self, args, kw):
        return mk("factory", args[0])

    def f_attrs_define(self, args, kw):
        return mk("call", "attrs.define")

    f_attr_s = f_attrs_s = f_attrs_frozen = f_attrs_mutable = f_attr_define = f_attrs_define

    def f_dataclasses_dataclass(self, args, kw):
        return mk("call", "dataclasses.dataclass")

    def fieldinfo(self, v):
        return dict(self.fields_[v.a[0]])

    def attrsfields(self, qual):
        e = self.e
        out = {}
        for c in reversed(e.mro(qual)):
            ci = e.classes.get(c)
            if ci and ci.attrs:
                for n in ci.fields:
                    out.pop(n, None)
                    out[n] = (ci.fieldv.get(n, {}), c)
        return out

    def attrs_init(self, qual, r, args, kw, node):
        e = self.e
        fs = self.attrsfields(qual)
        args = list(args)
        kw = dict(kw)
        for n, (d, c) in fs.items():
            if d.get("init") is FALSE:
                key = None
            else:
                key = n.lstrip("_")
            alias = d.get("alias")
            if alias is not None and cstr(alias):
                key = cval(alias)
            if key is not None and key in kw:
                v = kw.pop(key)
            elif args and d.get("kw_only") is not TRUE and key is not None:
                v = args.pop(0)
            elif "default" in d:
                v = d["default"]
                if v.op == "factory":
                    v = e.call(v.a[0], [], {}, node)
            elif "factory" in d or "default_factory" in d:
                v = e.call(d.get("factory") or d["default_factory"], [], {}, node)
            elif "**" in kw:
                v = mk("item", kw["**"], const(key))
            else:
                e.event("badcall", func=qual, why=f"missing {n}")
                e.raise_(e.st, "TypeError")
                e.st = None
                return
            conv = d.get("converter")
            if conv is not None and conv is not NONE:
                v = e.call(conv, [v], {}, node)
            if e.st is None:
                return
            e.st.store[("F", r, n)] = v
            e.event("setattr", obj=r, name=n, value=v)
        left = [k for k in kw if k != "**"]
        if left or args:
            e.event("badcall", func=qual, why="unexpected argument " + ", ".join(left))
            e.raise_(e.st, "TypeError")
            e.st = None
            return
        for n, (d, c) in fs.items():
            self.runvalidators(r, n, d, e.st.store[("F", r, n)])
            if e.st is None:
                return
        post, _ = e.findattr(qual, "__attrs_post_init__")
        if post is None:
            post, _ = e.findattr(qual, "__post_init__")
        if post is not None:
            e.call(e.bindto(post, r), [], {}, node)

    def attrs_validate(self, o, name, v):
        e = self.e
        for c in e.mro(o.a[2]):
            ci = e.classes.get(c)
            if ci and ci.attrs:
                fs = self.attrsfields(c)
                if name in fs:
                    self.runvalidators(o, name, fs[name][0], v)
                return

    def runvalidators(self, o, name, d, v):
        e = self.e
        vs = []
        if d.get("validator") is not None and d["validator"] is not NONE:
            vs.append(d["validator"])
        vs += d.get("extra", [])
        for x in vs:
            self.validate(x, o, name, v)
            if e.st is None:
                return

    def validate(self, val, o, name, v):
        e = self.e
        ks = self.known(val) if val.op in ("ref", "tuple", "list") else None
        if ks is not None:
            for k in ks:
                self.validate(k, o, name, v)
                if e.st is None:
                    return
            return
        if val.op == "call" and val.a[0].startswith("attrs.validators."):
            f = val.a[0].split(".")[-1]
            a = [x for x in val.a[1:] if x.op != "kw"]
            if f == "instance_of":
                e.check(e.truth(self.isinstance_(v, a[0])), "TypeError")
            elif f in ("ge", "gt", "le", "lt"):
                e.check(e.truth(e.compare({"ge": ">=", "gt": ">", "le": "<=", "lt": "<"}[f], v, a[0])), "ValueError")
            elif f == "in_":
                e.check(e.truth(self.contains(a[0], v)), "ValueError")
            elif f == "optional":
                e.branch(e.truth(e.is_none(e.simp(v))), lambda: None, lambda: self.validate(a[0], o, name, v))
            elif f == "and_":
                for x in a:
                    self.validate(x, o, name, v)
                    if e.st is None:
                        return
            else:
                e.event("validator", fn=f, value=v)
            return
        if val.op in ("func", "closure", "bound"):
            e.call(val, [o, mk("attribute", name), v] if val.op != "bound" else [mk("attribute", name), v], {}, e.fakenode())
            return
        e.event("validator", fn=str(val), value=v)

    def f___attrs_init__(self, args, kw):
        return NONE

    # -- argparse ---------------------------------------------------------------------------------------

    def f_argparse_ArgumentParser(self, args, kw):
        r = self.e.fresh_ref("parser", mk("list"))
        self.argparsers[r] = []
        return r

    def m_parser(self, o, name, args, kw):
        e = self.e
        opts = self.argparsers[o]
        if name == "add_argument":
            flags = [cval(a) for a in args if cstr(a)]
            pos = [f for f in flags if not f.startswith("-")]
            longs = [f for f in flags if f.startswith("--")]
            dest = kw.get("dest")
            n = cval(dest) if dest is not None and cstr(dest) else (pos[0] if pos else (longs or flags)[0].lstrip("-").replace("-", "_"))
            opts.append((n, flags, dict(kw)))
            e.event("option", dest=n, flags=flags, kw=dict(kw))
            return mk("call", "action", const(n))
        if name in ("add_argument_group", "add_mutually_exclusive_group"):
            return o
        if name in ("parse_args", "parse_known_args"):
            items = []
            for n, flags, k in opts:
                act = cval(k["action"]) if "action" in k and cstr(k["action"]) else "store"
                if act in ("version", "help"):
                    continue
                d = k.get("default", FALSE if act == "store_true" else TRUE if act == "store_false" else NONE)
                on = max([f for f in flags if f.startswith("-")] or [n], key=len).lstrip("-")
                given = sym("given:" + on, "bool")
                if self.argv is not None:
                    raw = next((self.argv[f] for f in flags if f in self.argv), None)
                    given = const(raw is not None)
                else:
                    raw = None
                if act == "store_true":
                    v = gamma(given, TRUE, d)
                elif act == "store_false":
                    v = gamma(given, FALSE, d)
                elif act == "store_const":
                    v = gamma(given, k.get("const", NONE), d)
                else:
                    ty = k.get("type")
                    typed = raw is not None and kind(raw) in ("int", "float")
                    if raw is None:
                        raw = sym("arg:" + on, "str")
                    if ty is None or ty is NONE or typed and ty.op == "ext":
                        x = raw
                    elif ty.op == "ext" and ty.a[0] == "int":
                        x = sym("arg:" + on, "int")
                    elif ty.op == "ext" and ty.a[0] == "float":
                        x = sym("arg:" + on, "float")
                    else:
                        x = e.call(ty, [raw], {}, e.fakenode())
                        if e.st is None:
                            return unk("dead")
                    if "nargs" in k and not (cstr(k["nargs"]) and cval(k["nargs"]) == "?"):
                        x = unk("nargs")
                    if cstr(d) and ty is not None and ty is not NONE:
                        d = e.call(ty, [d], {}, e.fakenode())
                    v = x if k.get("required") is TRUE or not flags[0].startswith("-") else gamma(given, x, d)
                items += [const(n), e.val(v) if v.op != "ref" else v]
            dct = e.fresh_ref("dict", mk("dict", *items))
            r = e.fresh_ref("argns", dct)
            return tup(r, e.fresh_ref("list", mk("list"))) if name == "parse_known_args" else r
        return NONE

    def attr_argns(self, o, name):
        e = self.e
        return e.simp(self.dict_lookup(e.content(e.content(o)), const(name)))

    def attr_parser(self, o, name):
        return mk("bmeth", name, o)
