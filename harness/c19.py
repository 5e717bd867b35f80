"""C19: dynamic rule items evaluate to their documented value."""
from vp.ctx import H
import re
from parce import Language, lexicon, default_action, default_target, skip
from parce.rule import *
from parce import ruleitem, introspect
from parce.lexer import Lexer
import parce.action as act

ASSUMPTIONS = [
    "predicates given to call() are total functions of their arguments; a group whose text is sliced always takes part in the match",
]

T, N, S, C = act.Text, act.Name, act.String, act.Comment
K = [act.Keyword, act.Number, act.Delimiter, act.Escape, act.Literal, act.Operator]


def language():
    """A new language for every path: derived lexicons are cached."""
    class L(Language):
        @lexicon
        def one(cls): pass
        @lexicon
        def two(cls): pass
    return L

L = None


RX = [
    re.compile("(?P<g_0>z)|(?P<g_1>(a?)(b)?(c)?)"),
    re.compile("(?P<g_0>(a?)(b)?(?:c|(c))?)"),
]


class Env:
    """What an expression can depend on."""
    def __init__(self, arg, text, groups):
        self.arg = arg; self.text = text; self.groups = groups


def string(sx, name, few):
    """A string expression (which may be None), with its meaning."""
    opts = ["const", "text", "arg", "group1", "group2", "head", "tail", "grouphead", "chosen"]
    if few: opts = ["const"] if name.endswith(".b") else ["arg", "text", "group2"]
    k = sx.choice(name, opts)
    if k == "const": return "a", lambda e: "a"
    if k == "text": return TEXT, lambda e: e.text
    if k == "arg": return ARG, lambda e: e.arg
    if k == "group1": return MATCH[1], lambda e: e.groups[0]
    if k == "group2": return MATCH[2], lambda e: e.groups[1]
    if k == "head": return TEXT[:1], lambda e: e.text[:1]
    if k == "chosen":
        f = lambda x: int(x is None or x == "a")
        return select(call(f, ARG), TEXT, MATCH[2]), lambda e: e.groups[1] if f(e.arg) else e.text
    if k == "tail": return TEXT[1:], lambda e: e.text[1:]
    return MATCH[1][:1], lambda e: e.groups[0][:1]


class Leaf:
    """Results that are all different."""
    def __init__(self): self.n = 0
    def new(self):
        a = K[self.n % len(K)]; self.n += 1
        v = [a, (a, L.one, -1), [a, [2, (L.two("x"),)]], (), L.one][self.n % 5]
        return v, lambda e: v


KINDS = ["ifeq", "ifneq", "ifmember", "ifgroup", "gselect", "dselect", "findmember", "findmember-dict", "select", "call", "target", "target-tuple", "derive", "using", "static"]


def item(sx, name, leaf, depth, few=False):
    """An item with its meaning (a function of the environment)."""
    k = sx.choice(name + ".kind", KINDS)
    slots = dict(ifeq=2, ifneq=2, ifmember=2, ifgroup=2, gselect=3, dselect=3, findmember=3, select=3, call=3).get(k, 3 if k == "findmember-dict" else 0)
    sub = []
    deep = sx.choice(name + ".slot", list(range(slots))) if depth and slots else -1
    for i in range(slots):
        sub.append(item(sx, "%s.%d" % (name, i), leaf, depth - 1, True) if i == deep else leaf.new())
    it = [s[0] for s in sub]; fn = [s[1] for s in sub]
    if k in ("ifeq", "ifneq"):
        (a, fa), (b, fb) = string(sx, name + ".a", few), string(sx, name + ".b", few)
        if k == "ifeq": return ifeq(a, b, *it), lambda e: fn[0](e) if fa(e) == fb(e) else fn[1](e)
        return ifneq(a, b, *it), lambda e: fn[1](e) if fa(e) == fb(e) else fn[0](e)
    if k == "ifmember":
        a, fa = string(sx, name + ".a", few)
        return ifmember(a, ["a", "bc"], *it), lambda e: fn[0](e) if fa(e) == "a" or fa(e) == "bc" else fn[1](e)
    if k == "ifgroup":
        n = sx.choice(name + ".group", [1, 2, 3])
        return ifgroup(n, *it), lambda e: fn[1](e) if e.groups[n - 1] is None else fn[0](e)
    if k == "gselect":
        return gselect(it[0] if it[0] is not None else (), None, it[1], default=it[2]), lambda e: fn[0](e) if e.groups[0] is not None else fn[1](e) if e.groups[2] is not None else fn[2](e)
    if k == "dselect":
        a, fa = string(sx, name + ".a", few)
        return dselect(a, {"a": it[0], "b": it[1]}, it[2]), lambda e: fn[0](e) if fa(e) == "a" else fn[1](e) if fa(e) == "b" else fn[2](e)
    if k == "findmember":
        a, fa = string(sx, name + ".a", few)
        return findmember(a, [(["a", "b"], it[0]), (["b"], N), (["b", "c"], it[1])], it[2]), \
            lambda e: fn[0](e) if fa(e) == "a" or fa(e) == "b" else fn[1](e) if fa(e) == "c" else fn[2](e)
    if k == "findmember-dict":
        a, fa = string(sx, name + ".a", few)
        return findmember(a, {("a", "b"): it[0], ("c",): it[1]}, it[2]), \
            lambda e: fn[0](e) if fa(e) == "a" or fa(e) == "b" else fn[1](e) if fa(e) == "c" else fn[2](e)
    if k == "select":
        i = sx.choice(name + ".index", [0, 1, 2])
        return select(i, *it), lambda e: fn[i](e)
    if k == "call":
        a, fa = string(sx, name + ".a", few)
        b, fb = string(sx, name + ".b", few)
        f = lambda x, y: 2 if x is None or y is None else int(x == y)
        return select(call(f, a, b), *it), lambda e: fn[f(fa(e), fb(e))](e)
    if k == "target":
        a, fa = string(sx, name + ".a", few)
        f = lambda x: -2 if x is None else (1, x) if x == "a" else (0, None) if x == "b" else 3
        def value(e):
            v = f(fa(e))
            if isinstance(v, int): return v
            return L.two(v[1]) if v[0] else L.one
        return target(call(f, a), L.one, L.two), value
    if k == "target-tuple":
        i = sx.choice(name + ".index", ["text", "one"] if few else ["text", "one", "chosen"])
        a, fa = string(sx, name + ".a", few)
        f = lambda x: int(x == "a")
        if i == "chosen":
            b, fb = string(sx, name + ".b", few)
            def value4(e):
                l = L.two if fb(e) == "a" else L.one
                return l if fa(e) is None else l(fa(e))
            return target((1, a), skip, ifeq(b, "a", L.two, L.one)), value4
        index = call(f, TEXT) if i == "text" else 1
        def value2(e):
            l = [L.one, L.two][f(e.text) if i == "text" else 1]
            return l if fa(e) is None else l(fa(e))
        return target((index, a), L.one, L.two), value2
    if k == "derive":
        a, fa = string(sx, name + ".a", few)
        l = sx.choice(name + ".lexicon", ["plain", "chosen"])
        if l == "plain": return derive(L.two, a), lambda e: L.two if fa(e) is None else L.two(fa(e))
        b, fb = string(sx, name + ".b", few)
        def value3(e):
            l = L.two if fb(e) == "a" else L.one
            return l if fa(e) is None else l(fa(e))
        return derive(ifeq(b, "a", L.two, L.one), a), value3
    if k == "using":
        a, fa = string(sx, name + ".a", few)
        return using(derive(L.one, a)), lambda e: Using(L.one if fa(e) is None else L.one(fa(e)))
    return skip, lambda e: skip


class Using:
    def __init__(self, lexicon): self.lexicon = lexicon


def flat(v):
    if isinstance(v, (list, tuple)):
        out = []
        for x in v: out.extend(flat(x))
        return out
    return [v]


def same_items(got, exp):
    if len(got) != len(exp): return False
    for g, x in zip(got, exp):
        if isinstance(x, Using):
            if not isinstance(g, ruleitem.DelegateAction) or g._lexicon is not x.lexicon: return False
        elif isinstance(x, int):
            if not isinstance(g, int) or not g == x: return False
        elif g is not x: return False
    return True


def outcome(variation, exp):
    """The outcome is one of those the variation stands for."""
    if len(variation) != len(exp): return False
    for v, x in zip(variation, exp):
        if isinstance(x, Using):
            if not v == x.lexicon: return False
        elif v is ruleitem.a_number:
            if not isinstance(x, int): return False
        elif isinstance(x, int):
            if not (isinstance(v, int) and v == x): return False
        elif not v == x: return False
    return True


def expand(tree):
    """All rules a variations tree stands for."""
    for i, x in enumerate(tree):
        if isinstance(x, frozenset) or type(x) is tuple:
            out = []
            for b in (x if isinstance(x, frozenset) else [x]):
                for c in expand(b):
                    for d in expand(tree[i + 1:]):
                        out.append(tree[:i] + c + d)
            return out
    return [tree]


def an_arg(sx):
    k = sx.choice("arg", ["none", "empty", "str"])
    return None if k == "none" else "" if k == "empty" else sx.str("argument", 1, "abz")


def values(sx, depth, n, rx):
    global L
    L = language()
    leaf = Leaf()
    it, fn = item(sx, "item", leaf, depth, depth > 0)
    arg = an_arg(sx)
    text = sx.str("text", n, "abc")
    m = RX[rx].match(text)
    e = Env(arg, m.group(), [m.group(m.lastindex + i) for i in (1, 2, 3)])
    exp = flat(fn(e))
    # directly
    ns = {"arg": arg, "text": m.group(), "match": m}
    got = flat(ruleitem.evaluate(it, ns))
    sx.check(same_items(got, exp), "value of the item")
    # in two phases
    rule = ("p", it, N, (it, 1))
    full = ["p"] + exp + [N] + exp + [1]
    pre = ruleitem.pre_evaluate_rule(rule, arg)
    sx.check(same_items(list(ruleitem.evaluate_rule(pre, m)), full), "value in two phases")
    # a rule that needs no evaluation is already complete
    if not ruleitem.needs_evaluation(pre):
        sx.check(same_items(list(pre), full), "rule that needs no evaluation")
    # possible outcomes
    for r in (("p", it), ruleitem.pre_evaluate_rule(("p", it), arg)):
        vs = list(ruleitem.variations(r))
        ok = False
        for v in vs:
            if outcome(v, ["p"] + exp): ok = True; break
        sx.check(ok, "possible outcomes of a rule")
        tree = expand(ruleitem.variations_tree(r))
        ok = False
        for v in tree:
            if outcome(v, ["p"] + exp): ok = True; break
        sx.check(ok, "tree of possible outcomes")
    return [len(exp), str(len(vs))]


# in a lexer

_langs = []
def lang():
    """The language is made per path: derived lexicons keep what they computed."""
    class M(Language):
        @lexicon
        def root(cls):
            yield arg(prefix="<", suffix=">", default="<q>"), ifeq(ARG, "x", N, S), target(call(lambda t: -1 if t is None else 1 if len(t) else 0, ARG))
            yield "(a)(b)?(c*)", bygroup(ifeq(ARG, "x", K[0], K[1]), using(cls.sub), ifeq(TEXT, "cc", skip, ifgroup(2, K[2], K[3])))
            yield "b+", using(derive(cls.sub, ARG))
            yield "c", skip, derive(cls.sub, TEXT)
            yield ifarg("d", "e"), dselect(TEXT, {"d": (K[4], cls.sub)}, K[5])
            yield default_action, ifmember(TEXT, ["z"], K[0], T)
        @lexicon
        def sub(cls):
            yield "b", select(call(len, TEXT), T, C)
            yield arg(), S, -1
            yield "a", N, -1
            yield default_action, ifneq(TEXT, "zz", K[1], K[2])
    return M


def lexer(sx, n, start):
    M = lang()
    if start == "none": a = None
    elif start == "empty": a = ""
    else: a = sx.str("arg", 1, "xb")
    lex = M.root(a)
    text = sx.str("text", n, "abcdez<>q" if n < 3 else "abcdez")
    got = []
    stack = [lex]
    for ev in Lexer([lex]).events(text):
        if ev.target: stack = (stack[:ev.target.pop] if ev.target.pop else stack) + list(ev.target.push)
        for p, t, ac in ev.lexemes: got.append((p, t, ac, stack[-1]))
    exp = []
    reference(M, a, text, exp)
    sx.check(len(got) == len(exp), "number of tokens")
    for (p, t, ac, lx), (q, u, bc, ly) in zip(got, exp):
        sx.check(p == q and t == u and ac is bc, "token")
        sx.check(lx is ly, "lexicon of a token")
    return [[g[0], str(g[2]), repr(g[3])] for g in got]


def sub_tokens(text, pos, a):
    """Tokens of the lexicon sub; ends after the token that leaves it. Returns tokens, end, left."""
    out = []; start = pos; n = len(text)
    def other(i):
        if i > start: out.append((start, text[start:i], K[2] if text[start:i] == "zz" else K[1]))
    while pos < n:
        c = text[pos]
        if c == "b":
            other(pos); out.append((pos, c, C)); pos += 1; start = pos
        elif a is not None and len(a) and c == a:
            other(pos); out.append((pos, c, S)); return out, pos + 1, True
        elif c == "a":
            other(pos); out.append((pos, c, N)); return out, pos + 1, True
        else: pos += 1
    other(n)
    return out, n, False


def sub_all(text, a):
    """The lexicon on its own: it can not be left."""
    out = []; pos = 0
    while True:
        o, pos, left = sub_tokens(text, pos, a)
        out.extend(o)
        if not left: return out


def reference(M, a, text, exp):
    root = M.root(a)
    n = len(text); pos = 0; start = 0
    q = "q" if a is None else a
    stack = [root]
    def other(i):
        if i > start: exp.append((start, text[start:i], K[0] if text[start:i] == "z" else T, stack[-1]))
    while pos < n:
        c = text[pos]
        if text[pos:pos + 2 + len(q)] == "<" + q + ">":
            other(pos)
            e = pos + 2 + len(q)
            # the token belongs to the lexicon in which it was found
            exp.append((pos, text[pos:e], N if a is not None and a == "x" else S, stack[-1]))
            if a is None: pass                          # the root remains
            elif len(a): stack.append(stack[-1])
            pos = e; start = pos
        elif c == "a":
            other(pos)
            exp.append((pos, c, K[0] if a is not None and a == "x" else K[1], stack[-1]))
            pos += 1
            b = pos < n and text[pos] == "b"
            if b: exp.append((pos, "b", C, stack[-1])); pos += 1
            i = pos
            while pos < n and text[pos] == "c": pos += 1
            if pos > i and pos - i != 2: exp.append((i, text[i:pos], K[2] if b else K[3], stack[-1]))
            start = pos
        elif c == "b":
            other(pos)
            i = pos
            while pos < n and text[pos] == "b": pos += 1
            for p, t, ac in sub_all(text[i:pos], a): exp.append((i + p, t, ac, stack[-1]))
            start = pos
        elif c == "c" or (c == "d" and a is not None and len(a)):
            other(pos)
            if c == "d": exp.append((pos, c, K[4], stack[-1]))
            sub = M.sub(c) if c == "c" else M.sub
            o, pos, left = sub_tokens(text, pos + 1, "c" if c == "c" else None)
            for p, t, ac in o: exp.append((p, t, ac, sub))
            start = pos
        elif c == "e" and not (a is not None and len(a)):
            other(pos); exp.append((pos, c, K[5], stack[-1])); pos += 1; start = pos
        else: pos += 1
    other(n)


def any_of(sx, n):
    """anyof() takes over exactly the rules without a target and adds one."""
    kinds = []
    for i in range(n): kinds.append(sx.choice("rule%d" % i, ["plain", "dynamic", "zero", "pop", "push", "back", "target", "default"]))
    tg = sx.choice("target", ["none", "zero", "pop", "two"])
    class A(Language):
        @lexicon
        def other(cls):
            for i, k in enumerate(kinds):
                p = "p%d" % i
                if k == "plain": yield p, K[i]
                elif k == "dynamic": yield p, ifeq(TEXT, "p", K[i], K[i + 1])
                elif k == "zero": yield p, K[i], 0
                elif k == "pop": yield p, K[i], -1
                elif k == "push": yield p, K[i], cls.root
                elif k == "back": yield p, K[i], cls.root, -1
                elif k == "target": yield p, K[i], derive(cls.root, TEXT)
                elif k == "default": yield default_action, K[i]
            yield default_target, -1
        @lexicon
        def root(cls):
            yield "r", T
            yield from anyof(cls.other, *dict(none=(), zero=(0,), pop=(-1,), two=(1, cls.other))[tg])
    add = dict(none=(A.other,), zero=(0,), pop=(-1,), two=(1, A.other))[tg]
    got = list(A.root)
    exp = [("r", T)] + [("p%d" % i, None if k == "dynamic" else K[i]) + add for i, k in enumerate(kinds) if k in ("plain", "dynamic", "zero", "back")]
    sx.check(len(got) == len(exp), "rules taken over")
    for g, x in zip(got, exp):
        sx.check(len(g) == len(x) and g[0] == x[0] and (x[1] is None or g[1] is x[1]), "rule")
        for a, b in zip(g[2:], x[2:]): sx.check(a is b or a == b, "target")
    return [len(got)]


def harnesses(tier):
    q = tier == "quick"
    t = 2 if q else 3
    return [
        H("values", values, [dict(depth=0, n=m, rx=r) for m in range(0, t + 1) for r in (0, 1)] + [dict(depth=1, n=m, rx=0) for m in ((1,) if q else (0, 1, 2))],
          split=6, bounds="expressions of one and two levels over all item types, texts of up to %d characters, arguments None, '' and one character" % t),
        H("lexer", lexer, [dict(n=m, start=s) for m in range(0, t + 2) for s in ("none", "empty", "str")], split=6, eager_ok=lambda c: c["n"] <= 3,
          bounds="a language with dynamic patterns, actions, targets, subgroups, delegation; texts of up to %d characters" % (t + 1)),
        H("anyof", any_of, [dict(n=m) for m in range(0, 4)], split=6, bounds="lexicons of up to 3 rules of 8 kinds, 4 targets"),
    ]
