"""C32: introspection and validation of languages tell what parsing does."""
from vp.ctx import H
from parce import Language, lexicon, default_action, default_target, skip
from parce.rule import *
from parce import introspect
from parce.validate import LexiconValidator
from parce.lexer import Lexer
from parce.lexicon import Lexicon
from parce.standardaction import StandardAction
from parce.treebuilder import build_tree
import parce.action as act

ASSUMPTIONS = [
    "rules are tuples or lists, actions are valid (the validator documents that it does not look at actions)",
    "circular default targets of a length of up to 100 contexts are recognized (constant of the validator)",
]

T, N, S, C, D, K, O = act.Text, act.Name, act.String, act.Comment, act.Delimiter, act.Keyword, act.Operator


# -- what a language can give -----------------------------------------------

def language():
    class Other(Language):
        @lexicon
        def start(cls):
            yield "y", act.Escape, -1
            yield default_action, act.Literal
        @lexicon
        def unused(cls):
            yield "z", act.Number

    class Third(Language):
        @lexicon
        def start(cls):
            yield "a", act.Pseudo, -1

    class Base(Language):
        @lexicon
        def root(cls):
            yield "a", O
            yield "b", T, cls.sub
            yield "c", T, cls.more
        @lexicon
        def more(cls):
            yield "c", act.Alert, Third.start("k")
            yield "a", T, -1
        @lexicon
        def sub(cls):
            yield "b", act.Bracket, -1

    class M(Base):
        @lexicon
        def root(cls):
            yield "(a)(b)?", bygroup(ifgroup(2, K, N), using(cls.opt))
            yield "a?c", dselect(TEXT, {"ac": (S, cls.sub("q")), "c": [S.Start, [cls.opt]]}, C)
            yield "x", ifeq(ARG, "p", D, O), target(call(lambda t: (1, None), TEXT), cls.sub, Other.start)
            yield "b", skip, derive(cls.opt, TEXT)
            yield default_action, ifmember(TEXT, ["y"], act.Invalid, T)
        @lexicon
        def opt(cls):
            yield "b", T, findmember(TEXT, [(["b"], -1)], 1)
            yield "c", select(call(len, TEXT), act.Character, act.Bold), cls.sub, cls.more
            yield default_target, -1
        @lexicon
        def sub(cls):
            yield from super().sub
            yield "c", using(Other.start), -1
            yield ifarg("a"), act.Quoted, Other.start
            yield "(x)", gselect(act.Template), 1
    return Base, M, Other, Third


USED = {     # the actions that parsing can give, and no others
    "Base": [O, T, act.Bracket, act.Alert],
    "M": [K, N, S, S.Start, C, D, O, act.Invalid, T, act.Character, act.Bold, act.Bracket, act.Quoted, act.Template, act.Alert],
    "Other": [act.Escape, act.Literal, act.Number],
    "Third": [act.Pseudo],
}


def walk(ctx, lang, out):
    for x in ctx:
        if x.is_context:
            out.append((x.lexicon, lang)); walk(x, x.lexicon.language, out)
        else: out.append((x.action, lang))


def possible(sx, n, start, alphabet):
    """Everything that occurs in a tree is what introspection says."""
    Base, M, Other, Third = language()
    text = sx.str("text", n, alphabet)
    root = [M.root, M.root("p"), M.sub("q"), M.opt, Base.root][start]
    langs = [Base, M, Other, Third]
    actions = [introspect.standardactions(l) for l in langs]
    names = [introspect.lexicons(l) for l in langs]
    refers = [introspect.languages(l) for l in langs]
    out = []
    walk(build_tree(root, text), root.language, out)
    for x, lang in out:
        i = langs.index(lang)
        if isinstance(x, StandardAction):
            ok = x in actions[i]
            for l in refers[i]:                     # a delegated piece of text
                ok = ok or x in actions[langs.index(l)]
            sx.check(ok, "action that introspection does not know")
        else:
            sx.check(x.language is lang or x.language in refers[i], "language that introspection does not know")
            j = langs.index(x.language)
            ok = False
            for y in names[j]: ok = ok or x == y
            sx.check(ok, "lexicon that introspection does not know")
    # and it says nothing else
    for i, l in enumerate(langs):
        exp = USED[l.__name__]
        sx.check(len(actions[i]) == len(exp) and all([a in actions[i] for a in exp]), "actions of a language")
        sx.check(len(set(actions[i])) == len(exp), "number of actions")
        sx.check(refers[i] == ({Other, Third} if l is M else {Third} if l is Base else set()), "languages of a language")
        sx.check([y.name for y in names[i]] == [["more", "root", "sub"], ["more", "opt", "root", "sub"], ["start", "unused"], ["start"]][i], "lexicons of a language")
        for y in names[i]: sx.check(y.language is l, "language of a lexicon")
    return [len(out)]


# -- validation -----------------------------------------------------------------

GOOD = ["plain", "two", "push", "pop", "dynamic", "number", "choice", "nested"]
BAD = ["target", "dynamic-target", "second-target", "late-target", "none-target", "expression", "short", "not-text", "default-dynamic"]
WARN = ["nopattern", "repeated", "empty"]
DEFAULT = ["default-action", "default-target"]


def rule(kind, i, cls):
    """Rule number i of that kind."""
    p = "abc"[i]
    if kind == "plain": return p, T
    if kind == "two": return p, ifeq(TEXT, "a", T, N), ifeq(TEXT, "a", -1, cls.other)
    if kind == "push": return p, N, cls.other, cls.other("x")
    if kind == "pop": return p, N, -1
    if kind == "dynamic": return p, T, ifeq(TEXT, "a", cls.other, -1)
    if kind == "number": return p, T, target(call(lambda t: -1, TEXT), cls.other)
    if kind == "choice": return p, dselect(TEXT, {"a": (T, cls.other), "b": (N, -1)}, C)
    if kind == "nested": return p, ifeq(TEXT, "a", (T, [cls.other, (1,)]), N)
    if kind == "target": return p, T, "x"
    if kind == "dynamic-target": return p, T, ifeq(TEXT, "a", cls.other, S)
    if kind == "second-target": return p, T, -1, ifeq(TEXT, "zz", (1, C), 1)
    if kind == "late-target": return p, ifeq(TEXT, "a", T, N), ifeq(TEXT, "a", -1, S)
    if kind == "none-target": return p, T, None
    if kind == "expression": return p + "(", T
    if kind == "short": return (p,)
    if kind == "not-text": return 5, T
    if kind == "default-dynamic": return default_target, ifeq(TEXT, "a", -1, 1)
    if kind == "nopattern": return None, T
    if kind == "repeated": return "d", N
    if kind == "empty": return p + "*", T
    if kind == "default-action": return default_action, C
    return default_target, -1


def make(kinds):
    class V(Language):
        @lexicon
        def lex(cls):
            yield "d", T
            for i, k in enumerate(kinds): yield rule(k, i, cls)
        @lexicon
        def other(cls):
            yield "a", S, -1
            yield default_action, O
    return V


def validate(sx, n, few):
    """Errors for exactly the languages that are wrong; a language without errors can be used for any text."""
    opts = GOOD + BAD + WARN + DEFAULT
    if few: opts = ["push", "dynamic", "nested", "second-target", "dynamic-target", "expression", "repeated", "empty"] + DEFAULT
    kinds = [sx.choice("kind%d" % i, opts) for i in range(n)]
    V = make(kinds)
    v = LexiconValidator(V.lex)
    ok = v.validate()
    acts = kinds.count("default-action"); tgts = kinds.count("default-target") + kinds.count("default-dynamic")
    wrong = acts > 1 or tgts > 1 or (acts and tgts) or any([k in BAD for k in kinds])
    sx.check(ok == (not wrong) and (len(v.errors) == 0) == ok, "errors")
    warn = any([k in WARN for k in kinds])
    if not wrong: sx.check((len(v.warnings) > 0) == bool(warn), "warnings")
    # twice the same
    e = set(v.errors); w = set(v.warnings)
    sx.check(v.validate() == ok and v.errors == e and v.warnings == w, "validated again")
    v.lexicon = V.other
    sx.check(v.validate() and not v.errors and not v.warnings, "another lexicon validated")
    if ok:
        text = sx.str("text", 2, "abcz")
        pos = 0
        for ev in Lexer([V.lex]).events(text):
            for p, t, a in ev.lexemes:
                sx.check(p >= pos and len(t) > 0, "token of a valid language"); pos = p + len(t)
    return [len(e), len(w)]


TARGETS = ["none", "pop", "pop2", "stay", "again", "A", "B", "C", "pop-A", "pop-B", "pop-C", "B-pop", "BC", "again-pop2", "pop-BB"]

def targets(k, cls):
    return dict(none=None, pop=(-1,), pop2=(-2,), stay=(0,), again=(1,), A=(cls.A,), B=(cls.B,), C=(cls.C,))[k] if "-" not in k and k != "BC" else \
        {"pop-A": (-1, cls.A), "pop-B": (-1, cls.B), "pop-C": (-1, cls.C), "B-pop": (cls.B, -1), "BC": (cls.B, cls.C), "pop-BB": (-1, cls.B, cls.B), "again-pop2": (2, -1)}[k]


def defaults(sx, few):
    """Default targets that do not end are found."""
    o = ["none", "pop", "again", "C", "pop-A", "pop-B", "BC", "pop-BB"] if few else TARGETS
    ka, kb, kc = sx.choice("A", TARGETS), sx.choice("B", o), sx.choice("C", ["none", "pop", "A", "pop-BB", "pop2"] if few else TARGETS)
    class W(Language):
        @lexicon
        def A(cls):
            yield "a", T
            if ka != "none": yield (default_target,) + targets(ka, cls)
        @lexicon
        def B(cls):
            yield "b", T
            if kb != "none": yield (default_target,) + targets(kb, cls)
        @lexicon
        def C(cls):
            yield "c", T
            if kc != "none": yield (default_target,) + targets(kc, cls)
    kinds = {"A": ka, "B": kb, "C": kc}
    v = LexiconValidator(W.A)
    ok = v.validate()
    every = ok and LexiconValidator(W.B).validate() and LexiconValidator(W.C).validate()
    # follow the default targets: a context is a number and a lexicon
    state = [(0, "A")]; count = 1; seen = []; result = "runaway"
    for step in range(101):
        seen.append(state[-1])
        tg = targets(kinds[state[-1][1]], W)
        if tg is None: result = "ends"; break
        top = state[-1]
        for t in tg:
            if isinstance(t, Lexicon): state.append((count, t.name)); count += 1
            elif t >= 0:
                for _ in range(t): state.append((count, top[1])); count += 1
            else: state = state[:t] if len(state) + t > 0 else []
        if not state: result = "ends"; break
        if state[-1] == top: result = "stays"; break
        if state[-1] in seen: result = "comes back"; break
    sx.check(ok == (result in ("ends", "comes back")), "error for the default target")
    if result == "ends": sx.check(not v.warnings, "warning for a default target that ends")
    # with a valid language lexing always ends
    text = sx.str("text", 2, "abc")
    if every:
        for ev in Lexer([W.A]).events(text): pass
    return [result]


def harnesses(tier):
    q = tier == "quick"
    N_ = 4 if q else 6
    return [
        H("possible", possible, [dict(n=m, start=s, alphabet="abcxy" if m < 4 else "abcx") for m in range(N_ + 1) for s in range(5)], split=6,
          eager_ok=lambda c: c["n"] <= 3, bounds="texts <=%d in a language with every kind of rule item, an inherited and a referred language" % N_),
        H("validate", validate, [dict(n=m, few=False) for m in (1, 2)] + [dict(n=3, few=True)], split=6, eager_ok=lambda c: c["n"] <= 2,
          bounds="lexicons of up to 4 rules, %d kinds of rules; valid ones on every text of 2 characters" % len(GOOD + BAD + WARN + DEFAULT)),
        H("defaults", defaults, [dict(few=q)], split=6, bounds="three lexicons, default targets out of %d kinds" % len(TARGETS)),
    ]
