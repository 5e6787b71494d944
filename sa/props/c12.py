"""C12: worker processes write the result file one at a time."""
from ..decide import compare
from ..terms import *  # noqa: F403
from .common import HAT, HATARGS, STUBS, WRITING, live

RUN = HAT + f'''
h = McHat({HATARGS}, nCores=NCORES)
h.run(md, f)
'''
HELD = {const("held" + "+" * n) for n in range(5)}


ENV = ("exists", "isfile", "isdir", "samefile", "path.stat", "os.path.getsize")


def decided(t, want, guard):
    return compare(locked(t), const(want), [locked(g) for g in guard])


def inworker(x):
    return any(c[0] == "worker" for c in x.ctx)


def writes(x):
    if x.kind == "h5open":
        return not (x.mode.op == "const" and cval(x.mode) == "r")
    return x.kind in WRITING


def locked(t):
    """the content of a lock with every way of holding it as one; what the file system says can be anything"""
    def one(x):
        if x.op == "call" and isinstance(x.a[0], str) and x.a[0].endswith("cpu_count"):
            return sym("the number of cores", "int")
        return const("held") if x in HELD else sym(show(x, 6), "bool") if x.op == "call" and x.a[0] in ENV else x

    return transform(t, one)


def check(cx):
    for nc, nrep in ((4, 3), (2, 2), (0, 3)):
        name = f"{nrep} repetitions in {nc} processes" if nc else "as many processes as there are cores"
        src = RUN.replace("NCORES", str(nc)).replace("nRep=3", f"nRep={nrep}")
        e = cx.drive(name, src, STUBS)
        if e is not None:
            exclusive(cx, e, name)
    # the same if any one access of the result file fails
    for exc in ("OSError", "ValueError", "KeyError") if cx.tier == "quick" else ("OSError", "ValueError", "KeyError", "RuntimeError", "TypeError", "MemoryError"):
        src = RUN.replace("NCORES", "4").replace("nRep=3", "nRep=2")
        name = f"any access of the file fails with {exc}"
        e = cx.drive(name, src, STUBS, setup=lambda e: setattr(e.lib, "faults", exc))
        if e is not None:
            released(cx, e, name)


def exclusive(cx, e, name):
    rule = "every write happens while one shared lock is held"
    made = {x.ref: x for x in e.events if x.kind == "lock"}
    n = 0
    pending = None
    for x in e.events:
        if x.kind == "task" and x.later:
            pending = x
        elif x.kind in ("pooljoin", "poolexit", "futureget", "futureresult"):
            pending = None
        if not writes(x) or not (inworker(x) or pending is not None) or not live(x):
            continue
        n += 1
        text = f"{name}: {x.kind[2:]} of {show(x.path if x.kind != 'h5open' else x.file, 4)[:100]}"
        best = None
        for r, c in x.held:
            if c is None:
                continue
            m = made.get(r)
            if m is None or inworker(m):
                continue  # a lock of this process alone
            s = decided(c, "held", x.guard).status
            if m.what == "threading" or m.what == "Semaphore" and m.n is not const(1) and not has_op(m.n, "unk", "loopval", "mu"):
                continue  # lets several processes in
            if m.what == "Semaphore" and m.n is not const(1) and s == "ok":
                s = "undecided"
            if s == "ok" and len(m.stack) <= 1:
                s = "undecided"  # created while a module is loaded: whether processes share it depends on the platform
            if s == "ok" or s == "undecided" and best != "ok":
                best = s
        if best == "ok":
            cx.ok(rule, pos=x.pos)
        elif best == "undecided" or has_op(conj(list(x.guard)), "unk") and not x.held:
            cx.und(rule, text)
        else:
            cx.bad(rule, text + " without holding a lock that is shared by the processes" + ("" if inworker(x) else ", while workers may write"), x.pos)
    if not n:
        cx.und(rule, f"{name}: no write in a worker process was seen")
        return
    released(cx, e, name)


def released(cx, e, name):
    rule = "the lock is released on every way out"
    n = 0
    for x in e.events:
        if x.kind == "taskend":
            for r, c in x.held:
                if c is None:
                    continue
                n += 1
                s = decided(c, "free", x.guard)
                text = f"{name}: a repetition ends {'with ' + x.exc if x.exc else 'normally'} and still holds the lock"
                if s.status == "ok":
                    cx.ok(rule)
                elif s.status == "bad":
                    cx.bad(rule, text, acquired(e, r))
                else:
                    cx.und(rule, text + ": " + s.why, acquired(e, r))
        elif x.kind == "acquire" and inworker(x) and live(x):
            what = next((m.what for m in e.events if m.kind == "lock" and m.ref is x.lock), None)
            s = decided(x.was, "free", x.guard)
            if what == "RLock":
                continue
            n += 1
            if s.status == "bad" and x.sure is TRUE:
                cx.bad("no process waits for itself", f"{name}: the lock is held by the same process already", x.pos)
            elif s.status == "ok":
                cx.ok("no process waits for itself")
    if not n:
        cx.und(rule, f"{name}: no lock was seen")


def acquired(e, r):
    return next((x.pos for x in reversed(e.events) if x.kind == "acquire" and x.lock is r), None)
