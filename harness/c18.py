"""C18: derived lexicons are identified by their argument and language."""
from vp.ctx import H
from parce import Language, lexicon, default_action
from parce.lexicon import Lexicon
from parce.rule import arg as rule_arg, ifarg, derive, TEXT
from parce.lexer import Lexer
import parce
import parce.action as act

ASSUMPTIONS = ["arguments are strings, integers, standard actions or None (documented: simple, hashable singleton objects)"]

T, N, S, C = act.Text, act.Name, act.String, act.Comment


def langs():
    class Base(Language):
        @lexicon
        def one(cls):
            yield rule_arg(default="x"), N, -1
            yield ifarg("p", "q"), S, cls.two
            yield default_action, T
        @lexicon(consume=True)
        def two(cls):
            yield "a", T, -1
            yield "b", N, derive(cls.one, TEXT)
            yield "z", S, cls.one
    class Sub(Base):
        @lexicon(consume=True)
        def two(cls):
            yield "c", C, cls.one
            yield from super().two
    class Other(Base):
        pass
    return Base, Sub, Other


class Kind:
    """An argument with its kind, to tell equal ones from different ones."""
    def __init__(self, kind, value): self.kind = kind; self.value = value
    def same(self, o): return self.kind == o.kind and (self.value is o.value if self.kind in ("none", "action") else self.value == o.value)


def an_arg(sx, name, strlen=1):
    k = sx.choice(name + ".kind", ["none", "str", "empty", "int", "action"])
    if k == "none": return Kind(k, None)
    if k == "str": return Kind(k, sx.str(name + ".str", strlen, "ab"))
    if k == "empty": return Kind("str", "")
    if k == "int": return Kind(k, sx.int(name + ".int", -1, 1))
    return Kind(k, sx.choice(name + ".action", [T, N]))


def identity(sx, chain):
    """Two derivations give the same lexicon exactly when language, name and argument are the same."""
    L = langs()
    out = []
    for i in "01":
        l = sx.choice("lang" + i, [0, 1, 2]); m = sx.choice("lex" + i, ["one", "two"])
        lex = getattr(L[l], m)
        a = Kind("none", None)
        for j in range(chain):
            b = an_arg(sx, "arg%s%d" % (i, j))
            lex = lex(b.value)
            if b.kind != "none": a = b
        out.append((l, m, a, lex))
    (l0, m0, a0, x), (l1, m1, a1, y) = out
    sx.check((x is y) == (l0 == l1 and m0 == m1 and a0.same(a1)), "identity")
    sx.check((x == y) == (l0 == l1 and m0 == m1), "equality")
    sx.check((x != y) == (not (l0 == l1 and m0 == m1)), "inequality")
    for l, m, a, lex in out:
        sx.check(lex.language is L[l], "language")
        sx.check(lex.name == m and lex.fullname == L[l].__name__ + "." + m, "name")
        sx.check(lex.qualname == L[l].__module__ + "." + lex.fullname, "qualified name")
        if a.kind in ("none", "action"): sx.check(lex.arg is a.value, "argument")
        else: sx.check(lex.arg == a.value, "argument")
        sx.check(repr(lex) == lex.fullname + ("*" if a.kind != "none" else ""), "repr")
        sx.check(lex.consume == (m == "two") and lex.re_flags == 0, "flags")
        sx.check(lex(None) is lex, "no argument")
        sx.check(getattr(L[l], m) is (lex if a.kind == "none" else getattr(L[l], m)), "vanilla lexicon")
        sx.check(isinstance(lex, Lexicon), "type")
        sx.check((lex == 3) is False, "equality with something else")
    sx.check((x.descriptor is y.descriptor) == (m0 == m1 and (m0 == "one" or (l0 == 1) == (l1 == 1))), "definition")
    return [l0, m0, l1, m1, x is y]


def rules(sx, n):
    """Inherited lexicons refer to the lexicons of the language they are accessed from; parsing uses the argument."""
    L = langs()
    l = sx.choice("lang", [0, 1, 2])
    a = an_arg(sx, "arg", 1)
    if a.kind == "action" or a.kind == "int": sx.assume(False)
    lex = L[l].one(a.value)
    text = sx.str("text", n, "abpqxz")
    # the tokens up to the first target
    got = []
    for pos, txt, m, action, target in lex.parse(text, 0):
        got.append((pos, txt, action, target))
        if target: break
    ending = a.value if a.kind == "str" else "x"
    sec = "p" if a.kind == "str" and len(a.value) else "q"
    exp = []
    if not (a.kind == "str" and len(a.value) == 0):
        start = 0
        for i in range(n):
            c = text[i]
            if c == ending or c == sec:
                if i > start: exp.append((start, text[start:i], T, None))
                exp.append((i, c, N if c == ending else S, "pop" if c == ending else "two"))
                break
        else:
            if n: exp.append((0, text, T, None))
        sx.check(len(got) == len(exp), "number of tokens")
        for (p, t, ac, tg), (q, u, bc, ug) in zip(got, exp):
            sx.check(p == q and t == u and ac is bc, "token")
            if ug is None: sx.check(tg is None, "target")
            elif ug == "pop": sx.check(tg.pop == -1 and not tg.push, "target")
            else: sx.check(tg.pop == 0 and len(tg.push) == 1 and tg.push[0] is L[l].two, "target")
    # the lexicon reached from the other one belongs to the same language
    two = list(L[l].two)
    sx.check(len(two) == (4 if l == 1 else 3), "rules of the inherited lexicon")
    sx.check(two[-1][2] is L[l].one, "target of an inherited rule")
    if l == 1: sx.check(two[0][2] is L[1].one, "target of an own rule")
    # a lexicon derived while parsing
    lx = Lexer([L[l].two])
    for ev in lx.events("ba"): pass
    sx.check(len(lx.lexicons) == 2, "derived while parsing")
    sx.check(lx.lexicons[1] is L[l].one("b"), "derived while parsing")
    sx.check(L[l].one("b").arg == "b", "argument of the derived lexicon")
    return [len(got), len(two)]


def cached(sx, n):
    """The rules function is called once per lexicon."""
    calls = []
    class X(Language):
        @lexicon
        def one(cls):
            calls.append(cls)
            yield ifarg("a", "b"), T
    lexs = []
    for i in range(n):
        a = an_arg(sx, "arg%d" % i)
        lexs.append((X.one(a.value), a))
    for lex, a in lexs:
        r = list(lex); s = list(lex)
        sx.check(len(r) == 1 and r[0] is s[0], "rules")
        t = lex.rules
        sx.check(lex.rules is t, "rules are the same every time")
        if a.kind != "none" and (a.kind == "action" or a.value): sx.check(tuple(t[0]) == ("a", T), "evaluated rule")
        elif a.kind == "none": sx.check(tuple(t[0]) == ("b", T), "evaluated rule")
    diff = []
    for lex, a in lexs:
        if not any(lex is x for x in diff): diff.append(lex)
    sx.check(len(calls) <= 2 * len(diff), "rules function called again")
    return len(diff)


def harnesses(tier):
    q = tier == "quick"
    return [
        H("identity", identity, [dict(chain=c) for c in ((1, 2) if q else (1, 2, 3))], split=7, eager_ok=lambda c: c["chain"] == 1, bounds="every two derivations from 3 languages (one overrides a lexicon, one inherits all), 2 lexicons, up to 2 successive arguments: none, strings of up to 1 character, integers -1..1, actions"),
        H("rules", rules, [dict(n=n) for n in range(0, 4 if q else 5)], split=6, bounds="texts of up to 3 characters, every language and string argument"),
        H("cached", cached, [dict(n=n) for n in (1, 2)], split=6, bounds="up to 2 derivations"),
    ]
