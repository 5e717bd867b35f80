"""C02: lexing is faithful, well nested and terminates."""
from vp.ctx import H
import re
from parce.lexer import Lexer
from parce import root as parce_root
from parce.treebuilder import build_tree
from harness.langlib import *

ASSUMPTIONS = [
    "the languages are those of the harness: rule sets of the shapes listed in the bounds; default targets and empty matches that push contexts for ever without a way back are excluded, as documented",
]

T, N, S, C = act.Text, act.Name, act.String, act.Comment


# every way a lexicon can be compiled: no, one literal, several patterns; with the four defaults
def defaults():
    return [None, ("action", C), ("target", "two"), ("target", -1)]


def kinds():
    return [
        (),                                     # no pattern
        (("ab", T),), (("a", T, "two"),), (("b", T, -1),), ((r"\(", T, 1),),       # a literal
        (("a", T), ("b", N, "two")),
        (("a+", T), ("ab", N, -1), ("b", S, "two", "eat")),
        (("ab", T, -2), ("a", N, "eat"), ("a", S)),
        (("a(?=b)", T, "eat"), ("([bc])", (N,)), ("a", S, 2)),
        (("(a)(b)?", (N, S), "eat"), ("b(c)?", (T,), -1)),
        (("(a)(?:(b)|(c))", (N, S, C)), ("c", T, -1, "two")),
    ]


TWO = [
    Lex("two", ("b", N, -1), ("a", S), default=("target", -1)),
    Lex("two", ("c", N, -1), default=("action", T)),
    Lex("two", (r"a*", N, -1)),
    Lex("two", default=("target", -1)),
]
EAT = [
    Lex("eat", ("c", C, -1), ("a", N, "eat"), default=("action", S), consume=True),
    Lex("eat", ("[ab]+", C, -2), consume=True),
]

_made = {}
def language(k, d, t, e):
    key = (k, d, t, e)
    if key not in _made:
        _made[key] = make("L%d_%d_%d_%d" % key, Lex("root", *kinds()[k], default=defaults()[d]), TWO[t], EAT[e])
    return _made[key]


def faithful(sx, text, events, covers):
    """Order, no overlap, non-empty, inside the text, text equal to the source."""
    last = 0
    for e in events:
        sx.check(len(e.lexemes) > 0, "event without lexemes")
        for pos, txt, action in e.lexemes:
            sx.check(pos >= last, "tokens overlap or are out of order")
            if covers: sx.check(pos == last, "text is not covered")
            sx.check(len(txt) > 0, "empty token")
            sx.check(pos + len(txt) <= len(text), "token outside of the text")
            sx.check(text[pos:pos+len(txt)] == txt, "token text differs from the source")
            last = pos + len(txt)
    if covers: sx.check(last == len(text), "text is not covered at the end")


def compare(sx, L, text, lexer, events, ref, stack):
    got = fold(L.root, events)
    sx.check(len(got) == len(ref), "number of events")
    for (st, lx), (rst, rlx) in zip(got, ref):
        sx.check([l.name for l in st] == rst, "contexts of a token")
        sx.check(len(lx) == len(rlx), "number of lexemes")
        for (p, t, a), (rp, rt, ra) in zip(lx, rlx):
            sx.check(sx.all(p == rp, len(t) == len(rt)) and t == rt, "token text or position")
            sx.check(a is ra, "token action")
    if stack is not None:
        sx.check([l.name for l in lexer.lexicons] == stack, "open lexicons at the end")


def run(sx, L, text, covers=False, ref=True):
    lexer = Lexer([L.root])
    events = list(lexer.events(text))
    faithful(sx, text, events, covers)
    sx.check(lexer.lexicons[0] is L.root, "root lexicon left")
    if ref:
        r, stack = ref_lex(L, "root", text)
        compare(sx, L, text, lexer, events, r, stack)
        # and the tree holds the same tokens in contexts nested likewise
        tree = build_tree(L.root, text)
        toks = flat(tree, ["root"])
        exp = []
        for st, lx in r: exp.extend((st, x) for x in lx)
        sx.check(len(toks) == len(exp), "number of tokens in the tree")
        for (st, t), (rst, (p, txt, a)) in zip(toks, exp):
            sx.check(st == rst, "ancestry of a token in the tree")
            sx.check(sx.all(t.pos == p, len(t.text) == len(txt)) and t.text == txt, "token in the tree")
            sx.check(t.action is a, "action in the tree")
    return [[str(l) for l in e.target.push] + [e.target.pop] if e.target else None for e in events]


def flat(context, stack):
    out = []
    for n in context:
        if n.is_token: out.append((stack, n))
        else: out.extend(flat(n, stack + [n.lexicon.name]))
    return out


def family(sx, k, d, n):
    """All combinations of rule sets of the family."""
    t = sx.choice("two", [0, 1, 2, 3])
    e = sx.choice("eat", [0, 1])
    pushy = d == 2 and t in (0, 3)          # root and two point at each other: circular
    # "two" that only goes back, entered by default: circular, other semantics
    L = language(k, d, t, e)
    text = sx.str("text", n, "abc(")
    if d == 3: covers = False
    else: covers = False
    # the default target of the root cannot leave the root
    circ = d == 3 or d == 2 and t in (0, 2, 3)
    return run(sx, L, text, covers, ref=not circ)


def covering(sx, k, n):
    """Every lexicon has a default action: the tokens cover the text."""
    key = "cover%d" % k
    if key not in _made:
        _made[key] = make(key, Lex("root", *kinds()[k], default=("action", C)),
            Lex("two", ("b", N, -1), ("a", S), default=("action", T)),
            Lex("eat", ("c", C, -1), ("a", N, "eat"), default=("action", S), consume=True))
    L = _made[key]
    # a match with groups that leave out text is no full cover
    return run(sx, L, sx.str("text", n, "abc("), covers=k not in (8, 9, 10), ref=True)


CIRC = [
    make("Circ0", Lex("root", ("a", T), default=("target", "one")), Lex("one", ("b", N), default=("target", "two")),
         Lex("two", ("c", S), default=("target", -1))),
    make("Circ1", Lex("root", ("a", T), default=("target", "one")), Lex("one", ("b", N), default=("target", "two")),
         Lex("two", ("c", S), default=("target", -2))),
    make("Circ2", Lex("root", ("a", T), default=("target", "one", "two")), Lex("one", default=("target", -1)),
         Lex("two", ("c", S), default=("target", -1))),
    make("Circ3", Lex("root", ("a", T), default=("target", "one")), Lex("one", (r"b?", N, -1), ("c", S)),),
    make("Circ4", Lex("root", ("a", T), ("", T, "one")), Lex("one", ("b", S), ("", N, -1))),
    make("Circ5", Lex("root", ("a", T), ("(?=b)", T, "one", "two"), default=("target", "two")), Lex("one", ("b", S, -1), default=("target", -1)),
         Lex("two", ("c", S), default=("target", -1))),
    make("Circ6", Lex("root", ("a", T, "one"), default=("target", -1)), Lex("one", ("b", S), default=("target", -1))),
    make("Circ7", Lex("root", ("a", T, "one")), Lex("one", ("b", S), default=("target", "two")), Lex("two", ("c", N), default=("target", -1, "three")),
         Lex("three", ("a", S), default=("target", -2))),
    # patterns that match the empty string and don't change the lexicon
    make("Circ8", Lex("root", ("a*", T), ("b", N, "one"), default=("target", "one")), Lex("one", ("c?", S), ("x", N), default=("target", -1))),
    make("Circ9", Lex("root", ("a", T, "one")), Lex("one", ("b*", S), default=("target", -1))),
    make("Circ10", Lex("root", ("a|", T), default=("action", S)), ),
    make("Circ11", Lex("root", ("a?", T), ("b", N, "one")), Lex("one", ("(?=b)", S), ("c|", T), default=("target", -1))),
]


def circular(sx, i, n):
    """Default targets that come back to the same place: lexing ends and is faithful, and every
    character that some lexicon on the way can match becomes a token."""
    L = CIRC[i]
    text = sx.str("text", n, "abcx")
    return run(sx, L, text, ref=False)


def all_seen(sx, i, n, seen):
    """Circular default targets do not make the lexer skip text that can be matched."""
    L = CIRC[i]
    text = sx.str("text", n, "abcx")
    lexer = Lexer([L.root])
    events = list(lexer.events(text))
    lim = 0
    got = []
    for e in events:
        for p, t, a in e.lexemes:
            if t in seen: got.append((p, t))
    # in these languages each of these characters can be matched from the root on
    want = []
    for p in range(n):
        if text[p] in seen: want.append((p, text[p]))
    sx.check(len(got) == len(want), "a character that can be matched was skipped")
    for (p, t), (q, u) in zip(got, want):
        sx.check(sx.all(p == q, len(t) == len(u)) and t == u, "a character that can be matched was skipped")
    return len(got)


def start_pos(sx, k, n):
    """Lexing from a position: only text from there on, as if lexing started there."""
    L = language(k, 1, 1, 0)
    text = sx.str("text", n, "abc(")
    pos = sx.choice("pos", list(range(n + 1)))
    lexer = Lexer([L.root])
    events = list(lexer.events(text, pos))
    r, stack = ref_lex(L, "root", text, pos)
    compare(sx, L, text, lexer, events, r, stack)
    return len(events)


def harnesses(tier):
    q = tier == "quick"
    n = 5 if q else 6
    ks = range(len(kinds()))
    return [
        H("family", family, [dict(k=k, d=d, n=m) for k in ks for d in range(4) for m in ((0, 2, n) if q else range(n + 1))], split=4,
          eager_ok=lambda c: c["n"] <= 2, bounds="%d root rule sets x 4 defaults x 4 x 2 further lexicons; every text of up to %d characters from {a, b, c, (}" % (len(kinds()), n)),
        H("covering", covering, [dict(k=k, n=n) for k in ks], split=4, eager_ok=lambda c: c["n"] <= 4, bounds="%d rule sets with a default action everywhere; every text of %d characters" % (len(kinds()), n)),
        H("circular", circular, [dict(i=i, n=m) for i in range(len(CIRC)) for m in range(n + 1)], split=4, eager_ok=lambda c: c["n"] <= 4,
          bounds="%d languages with circular default targets; every text of up to %d characters from {a, b, c, x}" % (len(CIRC), n)),
        H("all_seen", all_seen, [dict(i=i, n=m, seen=c) for i, c in ((1, "abc"), (2, "ac"), (5, "abc"), (6, "a")) for m in range(n + 1)], split=4, eager_ok=lambda c: c["n"] <= 4, bounds="as circular"),
        H("start_pos", start_pos, [dict(k=k, n=n - 1) for k in ks], split=4, eager_ok=lambda c: c["n"] <= 4, bounds="every start position, texts of %d characters" % (n - 1)),
    ]
