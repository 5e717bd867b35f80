"""C33: dispatchers, switches, caches and the helpers for streams."""
from vp.ctx import H
import os
from parce import util, Language, lexicon
from parce.tree import Context, Token
import parce.action as act

ASSUMPTIONS = [
    "keys are integers or texts; a file's modification time is what os.path.getmtime() says (replaced by a symbolic one), not before 1970",
    "whether a new Dispatcher inherits the default function of the one it extends is not documented, and outside",
]


# -- Dispatcher -----------------------------------------------------------------

def classes(kind, default):
    """A class with a dispatcher, and classes that inherit it in the documented ways."""
    if default:
        class A:
            @util.Dispatcher
            def d(self, key, *args): return ("default", key, args)
            @d(1, 2)
            def one(self, *args): return ("one", self, args)
            @d(3)
            def three(self, *args): return ("three", self, args)
    else:
        class A:
            d = util.Dispatcher()
            @d(1, 2)
            def one(self, *args): return ("one", self, args)
            @d(3)
            def three(self, *args): return ("three", self, args)
    table = {1: "one", 2: "one", 3: "three"}
    if kind == "plain": return A, table, default
    if kind == "override":
        class B(A):
            def three(self, *args): return ("three-B", self, args)
        return B, {1: "one", 2: "one", 3: "three-B"}, default
    if kind == "extend":
        class B(A):
            d = util.Dispatcher()
            @d(4, 2)
            def four(self, *args): return ("four", self, args)
        return B, {1: "one", 2: "four", 3: "three", 4: "four"}, None
    if kind == "twice":
        class B(A):
            d = util.Dispatcher()
            @d(4, 2)
            def four(self, *args): return ("four", self, args)
            def one(self, *args): return ("one-B", self, args)
        class C(B):
            d = util.Dispatcher()
            @d(5, 3)
            def five(self, *args): return ("five", self, args)
            def four(self, *args): return ("four-C", self, args)
        return C, {1: "one-B", 2: "four-C", 3: "five", 4: "four-C", 5: "five"}, None
    if kind == "mixed":
        class M:
            d = util.Dispatcher()
            @d(3, 6)
            def six(self, *args): return ("six", self, args)
        class B(M, A): pass
        return B, {1: "one", 2: "one", 3: "six", 6: "six"}, None
    if kind == "base-override":
        class B(A):
            def three(self, *args): return ("three-B", self, args)
        B().d(1); B().d(3)
        return A, table, default
    # the class it is inherited from is used as before
    class B(A):
        d = util.Dispatcher()
        @d(1, 7)
        def seven(self, *args): return ("seven", self, args)
        def three(self, *args): return ("three-B", self, args)
    B().d(1); B().d(3)
    return A, table, default


def dispatch(sx, kind, default):
    cls, table, dflt = classes(kind, default)
    i, j = cls(), cls()
    for n in "ab":
        k = sx.int("key" + n, -1, 8)
        o = i if sx.bool("obj" + n) else j
        args = tuple(range(sx.choice("args" + n, [0, 2])))
        got = o.d(k, *args)
        exp = None
        for x in table:
            if k == x: exp = table[x]
        m = o.d.get(k)
        if exp is not None:
            sx.check(got is not None and got[0] == exp and got[1] is o and got[2] == args, "method that is called")
            sx.check(m is not None and m(*args) == got, "method of a key")
        else:
            sx.check(m is None, "method of a key that has none")
            if dflt is not None:
                if dflt: sx.check(got is not None and got[0] == "default" and got[1] == k and got[2] == args, "default function")
                else: sx.check(got is None, "no method")
                sx.check((o.d.default is not None) == bool(dflt), "default of the dispatcher")
                if dflt: sx.check(o.d.default(k, 9) == ("default", k, (9,)), "default called directly")
    return [exp]


# -- Switch -----------------------------------------------------------------

class Stop(Exception): pass

def switches(sx, n):
    class A:
        s = util.Switch()
        t = util.Switch()
    objs = [A(), A()]
    alone = util.Switch()
    on = {}
    def get(k): return alone if k == 4 else getattr(objs[k // 2], "st"[k % 2])
    def look():
        for k in range(5): sx.check(bool(get(k)) == (on.get(k, 0) > 0), "state of a switch")
    def go(i):
        look()
        if i == n: return
        k = sx.fixed(sx.int("switch%d" % i, 0, 4))
        how = sx.choice("how%d" % i, ["with", "raise", "after"])
        on[k] = on.get(k, 0) + 1
        try:
            with get(k):
                look()
                if how != "after": go(i + 1)
                if how == "raise": raise Stop()
        except Stop: pass
        on[k] -= 1
        look()
        if how == "after": go(i + 1)
    go(0)
    return [n]


# -- caches -----------------------------------------------------------------

def caches(sx, n, kind):
    """The function is called once for every key."""
    calls = []
    none = kind in ("dict-none", "dict-nonone", "unpack-nonone")
    def value(*k):
        calls.append(k)
        return None if none and k[0] == 1 else () if none and k[0] == 2 else ("v",) + k
    if kind == "func":
        f = util.cached_func(value); get = lambda o, k: f(k)
    elif kind == "func2":
        f = util.cached_func(value); get = lambda o, k: f(k, 5)
    elif kind == "dict": d = util.caching_dict(value); get = lambda o, k: d[k]
    elif kind == "dict-unpack": d = util.caching_dict(value, True); get = lambda o, k: d[k, 7]
    elif kind == "dict-none": d = util.caching_dict(value); get = lambda o, k: d[k]
    elif kind == "dict-nonone": d = util.caching_dict(value, cache_none=False); get = lambda o, k: d[k]
    elif kind == "unpack-nonone": d = util.caching_dict(value, True, False); get = lambda o, k: d[k, 7]
    else:
        class A:
            @util.cached_method
            def m(self, k): return value(k) + (id(self),)
            @util.cached_property
            def p(self): return value(9)
        objs = [A(), A()]
        get = lambda o, k: objs[o].m(k)
    seen = []
    for i in range(n):
        k = sx.int("key%d" % i, 0, 2)
        o = sx.choice("obj%d" % i, [0, 1] if kind == "method" else [0])
        before = len(calls)
        got = get(o, k)
        known = False
        for a, b in seen:
            if a == o and b == k: known = True
        isnone = none and k == 1
        again = isnone and kind in ("dict-nonone", "unpack-nonone")
        sx.check((len(calls) == before) == (known and not again) and len(calls) <= before + 1, "number of calls")
        if isnone: sx.check(got is None, "cached None")
        elif none and k == 2: sx.check(got == (), "cached empty value")
        else:
            sx.check(got is not None and got[0] == "v" and got[1] == k, "cached value")
            if kind in ("dict-unpack", "func2"): sx.check(got[2] == (7 if kind == "dict-unpack" else 5), "unpacked key")
            if kind == "method": sx.check(got[2] == id(objs[o]), "value of this object")
        seen.append((o, k))
    if kind == "method":
        before = len(calls)
        x = objs[0].p; y = objs[0].p; z = objs[1].p
        sx.check(x is y and x == ("v", 9) and len(calls) == before + 2, "cached property")
    return [len(calls)]


def files(sx, n, top=1000000):
    """A file is read again when it was changed."""
    times = {}; calls = []
    real = os.path.getmtime
    def getmtime(name):
        t = times[name]
        if t is None: raise OSError(name)
        return t
    def read(name):
        calls.append(name)
        return (name, len(calls))
    d = util.file_cache(read)
    have = {}
    os.path.getmtime = getmtime
    try:
        for i in range(n):
            name = sx.choice("file%d" % i, ["a", "b"])
            times[name] = None if sx.bool("missing%d" % i) else sx.int("time%d" % i, 0, top)
            before = len(calls)
            got = d[name]
            t = times[name]
            fresh = t is None or name not in have or not have[name][0] == t
            sx.check(len(calls) == before + (1 if fresh else 0), "file read when needed")
            if fresh: sx.check(got == (name, len(calls)), "value that was read")
            else: sx.check(got == have[name][1], "cached value")
            if t is not None: have[name] = (t, got)
    finally:
        os.path.getmtime = real
    return [len(calls)]


# -- streams -----------------------------------------------------------------

class L1(Language):
    @lexicon
    def root(cls): yield "a", act.Text
class L2(Language):
    @lexicon
    def root(cls): yield "a", act.Text


def actions(sx, n, top=None):
    """Adjacent tokens with the same action (and language) are merged, and nothing else."""
    root = Context(L1.root, None); sub = Context(L2.root, root)
    toks = []; pos = sx.int("start", 0, top)
    for i in range(n):
        a = sx.choice("action%d" % i, [act.Text, act.Name])
        l = sx.choice("lang%d" % i, [root, sub])
        size = sx.int("size%d" % i, 1, 3 if top is None else 2)
        toks.append(Token(l, pos, "abc"[:sx.fixed(size)], a))
        pos = pos + size + sx.int("gap%d" % i, 0, top)
    for lang in (False, True):
        got = list(util.merge_adjacent_actions_with_language(toks) if lang else util.merge_adjacent_actions(toks))
        exp = []
        for t in toks:
            key = (t.action, t.parent.lexicon.language) if lang else (t.action,)
            if exp and exp[-1][1] == t.pos and exp[-1][2] == key: exp[-1] = (exp[-1][0], t.pos + len(t.text), key)
            else: exp.append((t.pos, t.pos + len(t.text), key))
        sx.check(len(got) == len(exp), "number of ranges")
        for g, (p, e, k) in zip(got, exp):
            sx.check(g[0] == p and g[1] == e and tuple(g[2:]) == k, "merged range")
    return [len(got)]


def lists(sx, n):
    """unroll() and split_list()"""
    def nested(name, depth):
        k = sx.choice(name, ["int", "empty", "list", "tuple", "text"] if depth else ["int", "text"])
        if k == "int": x = sx.int(name + ".i", 0, 2); return x, [x]
        if k == "text": return "ab", ["ab"]
        if k == "empty": return (), []
        a, fa = nested(name + "a", depth - 1); b, fb = nested(name + "b", depth - 1)
        return ([a, b] if k == "list" else (a, b)), fa + fb
    if n < 0:       # deeper, of one shape
        a, b, c, e = [sx.int(y, 0, 2) for y in "abce"]
        x, flat = (a, [(b, [[c], a], e), b], (c,)), [a, b, c, a, e, b, c]
        n = 0
    else: x, flat = nested("x", n)
    got = list(util.unroll(x))
    sx.check(len(got) == len(flat) and all([g is f for g, f in zip(got, flat)]), "unrolled")
    l = [sx.int("l%d" % i, 0, 2) for i in range(n + 1)]
    parts = list(util.split_list(l, 1))
    exp = [[]]
    for y in l:
        if y == 1: exp.append([])
        else: exp[-1].append(y)
    sx.check(len(parts) == len(exp), "number of parts")
    for p, q in zip(parts, exp): sx.check(len(p) == len(q) and all([u is v for u, v in zip(p, q)]), "part")
    return [len(got), len(parts)]


def symbols(sx):
    a = sx.choice("a", ["x", "y"]); b = sx.choice("b", ["x", "y"])
    s, t = util.Symbol(a), util.Symbol(b)
    sx.check((s is t) == (a == b) and repr(s) == a, "symbol")
    return [a]


def harnesses(tier):
    q = tier == "quick"
    return [
        H("dispatch", dispatch, [dict(kind=k, default=d) for k in ("plain", "override", "extend", "twice", "mixed", "base", "base-override") for d in (False, True)], split=4, bounds="seven ways of inheriting, two calls with any integer key"),
        H("switches", switches, [dict(n=m) for m in range(4 if q else 5)], split=4, bounds="up to %d nested or consecutive uses of five switches, with or without exception" % (3 if q else 4)),
        H("caches", caches, [dict(n=m, kind=k) for k in ("func", "func2", "dict", "dict-unpack", "dict-none", "dict-nonone", "unpack-nonone", "method") for m in range(1, 5 if q else 6)], split=4, bounds="up to %d requests" % (4 if q else 5)),
        H("files", files, [dict(n=m) for m in range(1, 5 if q else 6)], eager_cases=[dict(n=m, top=1) for m in (1, 2, 3)], split=4, bounds="up to %d requests, any modification times" % (4 if q else 5)),
        H("actions", actions, [dict(n=m) for m in range(4 if q else 5)], eager_cases=[dict(n=m, top=1) for m in range(4)], split=4, bounds="up to %d tokens at any positions" % (3 if q else 4)),
        H("lists", lists, [dict(n=m) for m in range(-1, 3 if q else 4)], eager_ok=lambda c: c["n"] < 2, split=4, bounds="lists nested up to %d deep" % (2 if q else 3)),
        H("symbols", symbols, bounds="two names"),
    ]
