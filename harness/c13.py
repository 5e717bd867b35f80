"""C13: formatting covers the selection without overlap."""
from vp.ctx import H
from parce import Language, lexicon
from parce.formatter import AbstractFormatter, Formatter, FormatCache, FormatRange, FormatContext, SimpleFormatter
from parce.util import merge_adjacent, fix_boundaries, merge_adjacent_actions
import parce.action as act
from harness.treelib import build, below, ACTIONS, Lang

ASSUMPTIONS = [
    "token positions increase, tokens are not empty and do not overlap (C01, C02)",
]


class Other(Language):
    @lexicon
    def x(cls):
        yield "x", act.Text

LEXICONS = [[Lang.one, Other.x, Lang.two], [Other.x, Lang.one], [Other.x, Other.x], [Lang.one, Lang.two]]


class Fmt:
    """A text format; formats with the same key are equal."""
    def __init__(self, *key): self.key = key
    def __eq__(self, other): return self.key == other.key
    def __ne__(self, other): return self.key != other.key
    def __bool__(self): return len(self.key) > 0
    def __add__(self, other): return Fmt(*(self.key + other.key))
    def __repr__(self): return "Fmt" + repr(self.key)


class Theme:
    """Formats for the actions, some of them empty."""
    def __init__(self, name, formats, unparsed=(), base=("base",)):
        self.name = name; self.formats = formats; self.unparsed = unparsed; self.base = base
    def textformat(self, action):
        if str(action) == "_Unparsed": return Fmt(*self.unparsed)
        f = self.formats[ACTIONS.index(action)]
        return Fmt() if f is None else Fmt(f)
    def baseformat(self, role="window", state="default"): return Fmt(*self.base)


def merged(items):
    out = []
    for pos, end, f in items:
        if out and out[-1][2] == f and out[-1][1] == pos: out[-1] = (out[-1][0], end, f)
        else: out.append((pos, end, f))
    return out


class Log(FormatContext):
    def __init__(self): self.log = []
    def start(self, fc): self.log.append(("start", fc.theme.name if fc.theme else None))
    def switch(self, fc): self.log.append(("switch", fc.theme.name))
    def done(self): self.log.append(("done", None))


def selection(sx, t, n, how):
    hi = None if not sx.eager else 2 * n + 1
    a, b = 0, None
    if how in ("both", "tail"): a = sx.int("a", 0, hi)
    if how in ("both", "head"):
        b = sx.int("b", 0, hi)
        sx.assume(b > a)
    return a, b


def ranges(sx, n, depth, how, kind):
    """kind: plain (one theme), multi (another theme for a language), base, unparsed, none (no theme)."""
    lx = LEXICONS[sx.choice("lexicons", [0, 1] if n > 2 else [0, 1, 2])] if kind == "multi" else None
    t = build(sx, n, depth, lexicons=lx)
    a, b = selection(sx, t, n, how)
    fs = sx.choice("formats", [["A", "B", "C"], ["A", "A", None]] if n > 2 else [["A", "B", "C"], ["A", "A", None], [None, "A", None]])
    main = Theme("main", fs, ("U",) if kind == "unparsed" else ())
    other = Theme("other", ["X", "A", "Y"])
    f = Formatter(main if kind != "none" else None)
    if kind == "base": f.add_theme(main, None, True)
    if kind == "multi": f.add_theme(other, Other)
    exp = []
    prev = a
    last = None
    for tok, pos, end, tr in t.tokens:
        if not (end > a and (b is None or pos < b)): continue
        if kind == "none": continue
        theme = other if kind == "multi" and tok.parent.lexicon.language is Other else main
        x = theme.textformat(tok.action)
        if kind == "base": x = Fmt("base") + x
        x = x or None
        last = tok
        p = a if pos < a else pos
        e = b if b is not None and end > b else end
        if p > prev:
            if kind == "unparsed": exp.append((prev, p, Fmt("U")))
            elif kind == "base": exp.append((prev, p, Fmt("base")))
        if x is not None: exp.append((p, e, x))
        prev = e
    if last is not None and b is not None and prev < b:
        if kind == "unparsed": exp.append((prev, b, Fmt("U")))
        elif kind == "base": exp.append((prev, b, Fmt("base")))
    exp = merged(exp)
    log = Log()
    got = list(f.format_ranges(t.root, a, b, log))
    if kind in ("unparsed", "base") and last is None:
        # nothing of the tree in the selection: what lies there may be formatted as unparsed text or not
        sx.check(len(got) <= 1, "ranges without tokens")
        return []
    sx.check(len(got) == len(exp), "number of formatted ranges")
    for g, e in zip(got, exp):
        sx.check(sx.all(g.pos == e[0], g.end == e[1]), "bounds of a formatted range")
        sx.check(g.textformat == e[2], "format of a range")
    if log.log:
        sx.check(log.log[0][0] == "start" and log.log[-1][0] == "done" and all(x[0] == "switch" for x in log.log[1:-1]), "format context")
        names = [x[1] for x in log.log[:-1]]
        sx.check(all(x != y for x, y in zip(names, names[1:])), "switch to the same theme")
    return len(got)


def texts(sx, n, depth, how, multi):
    """The pieces of formatted text make up the selected text."""
    t = build(sx, n, depth, lexicons=LEXICONS[0] if multi else None)
    text = sx.text("doc") if not (sx.eager and sx.symbolic) else sx.const("doc", "abcdefghijklmnopqrst"[:2 * n + 2])
    sx.assume(len(text) >= t.end)
    a, b = selection(sx, t, n, how)
    sx.assume(a <= len(text))
    if b is not None: sx.assume(b <= len(text))
    f = Formatter(Theme("main", sx.choice("formats", [["A", "B", "C"], ["A", "A", None]])))
    if multi: f.add_theme(Theme("other", ["X", "A", None]), Other)
    got = list(f.format_text(text, t.root, a, b))
    out = ""
    for piece, fmt in got:
        sx.check(len(piece) > 0, "empty piece")
        out = out + piece
    sx.same_text(out, text[a:b] if b is not None else text[a:], "formatted text")
    return len(got)


def merging(sx, n, how):
    """merge_adjacent and fix_boundaries on arbitrary sorted ranges."""
    hi = None if not sx.eager else 3 * n
    prev = 0
    items = []
    for i in range(n):
        p = sx.int("p%d" % i, 0, hi); e = sx.int("e%d" % i, 0, hi)
        sx.assume(sx.all(p >= prev, e > p))
        if sx.eager: sx.assume(sx.all(p <= prev + 1, e <= p + 2))
        items.append((p, e, sx.choice("f%d" % i, ["x", "y"])))
        prev = e
    got = list(merge_adjacent(items))
    exp = merged(items)
    got = list(merge_adjacent(items, FormatRange))
    sx.check(len(got) == len(exp), "number of merged ranges")
    for g, e in zip(got, exp): sx.check(sx.all(g.pos == e[0], g.end == e[1]) and g.textformat == e[2], "merged range")
    a, b = 0, None
    if how in ("both", "tail"): a = sx.int("a", 0, hi)
    if how in ("both", "head"): b = sx.int("b", 0, hi)
    # a selection that touches the first and the last range
    if n:
        sx.assume(items[0][1] > a)
        if b is not None: sx.assume(sx.all(items[-1][0] < b, b > a))
    got = list(fix_boundaries(items, a, b))
    sx.check(len(got) == n, "number of ranges")
    for i, (g, o) in enumerate(zip(got, items)):
        p = sx.ite(o[0] < a, a, o[0]) if i == 0 else o[0]
        e = sx.ite(o[1] > b, b, o[1]) if i == n - 1 and b is not None else o[1]
        sx.check(sx.all(g[0] == p, g[1] == e) and g[2] == o[2], "fixed range")
    return len(got)


def simple(sx, n, depth):
    """The class names are those of the actions."""
    t = build(sx, n, depth)
    got = list(SimpleFormatter().format_ranges(t.root))
    names = {"Text": "text", "Name": "name", "Literal.Number": "literal number"}
    exp = merged([(pos, end, names[str(tok.action)]) for tok, pos, end, tr in t.tokens])
    sx.check(len(got) == len(exp), "number of ranges")
    for g, e in zip(got, exp): sx.check(sx.all(g.pos == e[0], g.end == e[1]) and g.textformat == e[2], "range")
    return [g.textformat for g in got]


def harnesses(tier):
    q = tier == "quick"
    n = 3 if q else 4
    B = "every tree with up to %d tokens and 3 levels, unbounded positions" % n
    def cs(kinds, hows):
        return [dict(n=m, depth=3, how=h, kind=k) for m in range(1, n + 1) for h in hows for k in kinds]
    return [
        H("ranges", ranges, cs(["plain", "multi"], ["both", "head", "tail", "all"]) + [c for c in cs(["base", "unparsed", "none"], ["both", "all"]) if c["n"] < n], split=7,
          eager_ok=lambda c: c["n"] <= 2, bounds=B + ", every selection; one or two themes, formats missing for some actions, base format, format for unparsed text"),
        H("texts", texts, [dict(n=m, depth=2 if m > 2 else 3, how=h, multi=x) for m in range(0, 3) for h in ("both", "all") for x in (False, True)], split=6, eager_ok=lambda c: c["n"] <= 2,
          bounds="every tree with up to 2 tokens, unbounded text, every selection"),
        H("merging", merging, [dict(n=m, how=h) for m in range(0, n + 1) for h in ("both", "head", "tail", "all")], split=5, eager_ok=lambda c: c["n"] <= 2, bounds="up to %d sorted ranges with unbounded positions" % n),
        H("simple", simple, [dict(n=m, depth=3) for m in range(0, n)], split=5, bounds=B),
    ]
