"""C26: notifications reach exactly the connected listeners, in order."""
from vp.ctx import H
import contextlib
from parce.util import Observable, Switch

ASSUMPTIONS = [
    "whether a listener that is connected during an emission is called in that emission is left open",
    "connecting a listener that is already connected changes nothing",
]


class Ref:
    """What is connected: [priority, listener, once] in order of priority and time."""
    def __init__(self): self.c = {}; self.n = 0
    def connect(self, e, f, once, prio):
        l = self.c.setdefault(e, [])
        if any(x[1] == f for x in l): return
        i = len(l)
        while i > 0 and l[i-1][0] > prio: i -= 1
        l.insert(i, [prio, f, once])
        self.n += 1
    def disconnect(self, e, f):
        l = self.c.get(e, [])
        l[:] = [x for x in l if x[1] != f]
    def disconnect_all(self, e=None):
        if e is None: self.c = {}
        else: self.c[e] = []
    def has(self, e, x): return any(y is x for y in self.c.get(e, []))


def verify(sx, o, r, hs, events, label):
    for e in events:
        l = r.c.get(e, [])
        sx.check(bool(o.has_connections(e)) == bool(l), label + ": has_connections")
        for i, h in enumerate(hs):
            sx.check(bool(o.is_connected(e, h)) == any(x[1] == i for x in l), label + ": is_connected")


def history(sx, ops, handlers, events, P):
    """Plain listeners: every history of operations."""
    o = Observable(); r = Ref()
    log = []
    def mk(i): return lambda *a, **k: log.append((i, a, k))
    hs = [mk(i) for i in range(handlers)]
    out = []
    for s in range(ops):
        e = sx.choice("e%d" % s, events)
        op = sx.choice("op%d" % s, ["connect", "once", "disconnect", "all", "everything", "emit"] if s else ["connect", "once"])
        if op in ("connect", "once", "disconnect"):
            i = sx.fixed(sx.int("h%d" % s, 0, handlers - 1))
            if op == "disconnect":
                o.disconnect(e, hs[i]); r.disconnect(e, i)
            else:
                p = sx.int("p%d" % s, 0, P)
                o.connect(e, hs[i], once=op == "once", priority=p)
                r.connect(e, i, op == "once", p)
        elif op == "all": o.disconnect_all(e); r.disconnect_all(e)
        elif op == "everything": o.disconnect_all(); r.disconnect_all()
        else:
            log.clear()
            o.emit(e, s, k=e)
            l = list(r.c.get(e, []))
            sx.check(log == [(x[1], (s,), {"k": e}) for x in l], "an emission calls the connected listeners in order")
            r.c[e] = [x for x in l if not x[2]]
            out.append(len(log))
    verify(sx, o, r, hs, events, "after a history")
    log.clear()
    for e in events:
        o.emit(e)
        sx.check([x[0] for x in log] == [x[1] for x in r.c.get(e, [])], "the last emission")
        log.clear()
    return out


ACTS = ["nothing", "disconnect", "connect", "connect_once", "clear", "clear_all", "emit"]


def reentrant(sx, handlers, acting):
    """Listeners that connect, disconnect and emit while they are called."""
    o = Observable(); r = Ref()
    log = []            # what happened
    exp = []            # what should
    depth = [0]
    acts = {}           # listener -> (action, target); performed at its first call
    for i in acting:
        a = sx.choice("act%d" % i, ACTS)
        j = sx.fixed(sx.int("on%d" % i, 0, handlers - 1)) if a in ("disconnect", "connect", "connect_once") else 0
        acts[i] = (a, j)
    def act(ob, todo, i, emit):
        a, j = todo.pop(i, ("nothing", 0))
        if a == "disconnect": ob.disconnect("e", hs[j] if ob is o else j)
        elif a in ("connect", "connect_once"):
            if ob is o: ob.connect("e", hs[j], once=a == "connect_once", priority=1)
            else: ob.connect("e", j, a == "connect_once", 1)
        elif a == "clear": ob.disconnect_all("e")
        elif a == "clear_all": ob.disconnect_all()
        elif a == "emit": emit()
    todo = dict(acts)
    def mk(i):
        def f():
            log.append(i)
            act(o, todo, i, lambda: o.emit("e"))
        return f
    hs = [mk(i) for i in range(handlers)]
    ref_todo = dict(acts)
    fresh = set()
    def ref_emit():
        for x in list(r.c.get("e", [])):
            if not r.has("e", x): continue
            if x[2]: r.disconnect("e", x[1])
            exp.append(x[1])
            a = ref_todo.get(x[1])
            if a and a[0] in ("connect", "connect_once") and not any(y[1] == a[1] for y in r.c.get("e", [])): fresh.add(a[1])
            act(r, ref_todo, x[1], ref_emit)
    for i in range(handlers):
        once = sx.bool("once%d" % i)
        once = True if once else False
        conn = sx.bool("conn%d" % i)
        if conn:
            p = sx.int("p%d" % i, 0, 2)
            o.connect("e", hs[i], once=once, priority=p); r.connect("e", i, once, p)
    o.emit("e"); ref_emit()
    sx.check([x for x in log if x not in fresh] == [x for x in exp if x not in fresh], "an emission with listeners that change the connections")
    if not fresh: verify(sx, o, r, hs, ["e"], "after the emission")
    return log


class Obj:
    def __init__(self, log, n): self.log = log; self.n = n
    def m(self, *a, **k): self.log.append((self.n, a, k))


def methods(sx, n):
    """Methods are called as long as their object lives; the observable itself can be an argument."""
    o = Observable(); log = []
    objs = [Obj(log, i) for i in range(n)]
    pre = []; once = []
    for i in range(n):
        pre.append(bool(sx.bool("self%d" % i))); once.append(bool(sx.bool("once%d" % i)))
        o.connect("e", objs[i].m, once=once[i], prepend_self=pre[i])
    o.connect("e", objs[0].m)
    o.connect("e", objs[0].m, priority=-1)
    for i in range(n): sx.check(o.is_connected("e", objs[i].m) and not o.is_connected("f", objs[i].m), "a connected method")
    fpre = bool(sx.bool("function"))
    def func(*a, **k): log.append(("f", a, k))
    o.connect("e", func, prepend_self=fpre)
    gone = sx.fixed(sx.int("gone", 0, n))
    if gone < n: objs[gone] = None
    for k in range(2):
        o.emit("e", k, kw=k)
        exp = [(i, (o, k) if pre[i] else (k,), {"kw": k}) for i in range(n) if i != gone and not (k and once[i])]
        exp.append(("f", (o, k) if fpre else (k,), {"kw": k}))
        sx.check(log == exp, "methods of living objects")
        log.clear()
    o.disconnect("e", func)
    if gone < n and all(once[i] for i in range(n) if i != gone): sx.check(not o.has_connections("e"), "dead listeners are removed")
    return gone


def contexts(sx, n):
    """Contexts are entered in order and left in the reverse order, also when an exception passes."""
    o = Observable(); log = []
    def mk(i, kind):
        @contextlib.contextmanager
        def cm():
            log.append(("enter", i))
            try: yield
            finally: log.append(("exit", i))
        if kind == 0: return cm
        def plain(): log.append(("call", i)); return None if kind == 1 else i
        return plain
    kinds = [sx.choice("kind%d" % i, [0, 1, 2]) for i in range(n)]
    prios = [sx.int("p%d" % i, 0, 2) for i in range(n)]
    fs = [mk(i, k) for i, k in enumerate(kinds)]
    order = []
    for i in range(n):
        o.connect("e", fs[i], priority=prios[i])
        j = len(order)
        while j > 0 and prios[order[j-1]] > prios[i]: j -= 1
        order.insert(j, i)
    fail = bool(sx.bool("fail"))
    try:
        with o.emit("e"):
            log.append("body")
            if fail: raise ValueError("x")
    except ValueError: log.append("raised")
    exp = [("enter" if kinds[i] == 0 else "call", i) for i in order] + ["body"] + [("exit", i) for i in reversed(order) if kinds[i] == 0]
    if fail: exp.append("raised")
    sx.check(log == exp, "order of entering and leaving")
    return order


def failing(sx, n):
    """A listener that raises does not make an earlier one-shot listener be called twice."""
    o = Observable(); log = []
    bad = sx.fixed(sx.int("bad", 0, n - 1))
    once = [bool(sx.bool("once%d" % i)) for i in range(n)]
    state = [True]
    def mk(i):
        def f():
            log.append(i)
            if i == bad and state[0]: raise ValueError("x")
        return f
    for i in range(n): o.connect("e", mk(i), once=once[i])
    try: o.emit("e"); sx.check(False, "the exception is not hidden")
    except ValueError: pass
    state[0] = False
    o.emit("e")
    for i in range(n):
        c = log.count(i)
        if once[i]: sx.check(c == 1 or (i == bad and c == 2) or (i > bad and c == 1), "a one-shot listener was called more than once")
        elif i <= bad: sx.check(c == 2, "listener called twice")
    return log


def switch(sx, ops):
    """A switch is on exactly while at least one context is open; per instance in a class."""
    class A:
        s = Switch()
    a, b = A(), A()
    free = Switch()
    n = [0, 0, 0]
    get = lambda i: (a.s, b.s, free)[i]
    for k in range(ops):
        i = sx.fixed(sx.int("i%d" % k, 0, 2))
        if sx.bool("enter%d" % k): get(i).__enter__(); n[i] += 1
        elif n[i]: get(i).__exit__(None, None, None); n[i] -= 1
        for j in range(3): sx.check(bool(get(j)) == (n[j] > 0), "state of a switch")
    return n


def harnesses(tier):
    q = tier == "quick"
    K = 4 if q else 5
    return [
        H("history", history, [dict(ops=k, handlers=2, events=["e", "f"], P=1) for k in range(1, K)] + [dict(ops=K, handlers=3, events=["e"], P=2)],
          bounds="histories of <=%d operations with <=3 listeners, 1-2 events, every priority" % K, split=7, eager_ok=lambda c: c["ops"] <= 3),
        H("reentrant", reentrant, [dict(handlers=2, acting=[0, 1]), dict(handlers=3, acting=[0]), dict(handlers=3, acting=[1])] + ([] if q else [dict(handlers=3, acting=[0, 1])]),
          bounds="2-3 listeners of which <=2 connect, disconnect or emit", split=7, eager_ok=lambda c: c["handlers"] == 2),
        H("methods", methods, [dict(n=n) for n in (1, 2, 3)], bounds="1-3 objects", split=5),
        H("contexts", contexts, [dict(n=n) for n in (1, 2, 3)], bounds="1-3 listeners", split=5),
        H("failing", failing, [dict(n=n) for n in (1, 2, 3)], bounds="1-3 listeners", split=5),
        H("switch", switch, [dict(ops=k) for k in range(1, 5 if q else 6)], bounds="<=%d operations" % (4 if q else 5), split=5, eager_ok=lambda c: c["ops"] <= 3),
    ]
