"""C23: indenting changes only leading whitespace of the selected lines."""
from vp.ctx import H
import parce
from parce.document import Document, Cursor
from parce.indent import (AbstractIndenter, Indenter, Indent, INDENT, DEDENT, NO_DEDENT, NO_INDENT, NO_STRIP,
    PREFER_INDENT, CURRENT_INDENT, ALIGN, BLANK)
from parce.work import Worker
from parce.treebuilder import TreeBuilder
import parce.action as act
from harness.langlib import Lex, make

ASSUMPTIONS = [
    "the start of the region is the start of a line; the last line is the one that contains the end (a line at whose start the region ends may be taken either way)",
    "leading whitespace is what str.lstrip() removes",
    "auto_indent: compared with indent() on that one line, where all brackets of the text above are at the start or the end of their line",
]


def marks(line):
    """The indenting events of a line, from its text."""
    if line.strip() == "": yield BLANK
    for c in line:
        if c == "{": yield INDENT
        elif c == "}": yield DEDENT
        elif c == "|": yield NO_DEDENT
        elif c == '"': yield NO_INDENT
        elif c == "#": yield PREFER_INDENT, ""
        elif c == "=": yield ALIGN, " "
        elif c == "$": yield NO_STRIP


class Marks(AbstractIndenter):
    def indent_events(self, block, prev_indents=()):
        yield from marks(block.text())


class Explicit(AbstractIndenter):
    """Reports the current indent itself: one leading dot."""
    def indent_events(self, block, prev_indents=()):
        t = block.text()
        yield CURRENT_INDENT, "." if t[:1] == "." else ""
        yield from marks(t)


def scan(line, explicit=False):
    """What a line means: opens, closes at the start and the end, state."""
    opens = []; start = end = 0; find = True; st = set(); pref = None
    for e in marks(line):
        if e == INDENT: opens.append(None); find = False
        elif e == DEDENT:
            if find: start += 1
            elif opens: opens.pop()
            else: end += 1
        elif e == NO_DEDENT: find = False
        elif isinstance(e, tuple):
            if e[0] == ALIGN:
                if opens and opens[-1] is None: opens[-1] = e[1]
            else: pref = e[1]
        else: st.add(e)
    return opens, start, end, st, pref


def ws(line):
    return line[:len(line) - len(line.lstrip())]


def lines_of(t):
    return t.split("\n")


def ref_indent(t, a, b, unit, blanks):
    """The text with the lines from position a up to the one with position b indented."""
    out = []; stack = [""]; pend = []; pos = 0; done = False
    for l in lines_of(t):
        if done: out.append(l); continue
        opens, start, end, st, pref = scan(l)
        cur = stack[-1]
        for p in pend:
            cur = cur + (p or unit)
            stack.append(cur)
        for _ in range(start):
            if len(stack) > 1: stack.pop()
        new = l
        if NO_INDENT not in st and (blanks or BLANK not in st):
            if pos < a:
                if pref is None and BLANK not in st: stack[-1] = ws(l)
            else:
                new = (stack[-1] if pref is None else pref) + l[len(ws(l)):]
        for _ in range(end):
            if len(stack) > 1: stack.pop()
        out.append(new)
        if b is not None and pos + len(l) >= b: done = True
        pos += len(l) + 1
        pend = opens
    return "\n".join(out)


def line_starts(t):
    r = [0]
    for l in lines_of(t)[:-1]: r.append(r[-1] + len(l) + 1)
    return r


def get_text(sx, k, alphabet, lines):
    if lines is None: return sx.str("t", k, alphabet)
    ls = [sx.choice("l%d" % i, lines) for i in range(k)]
    return "\n".join(ls)


def region(sx, t):
    starts = line_starts(t)
    a = starts[sx.fixed(sx.int("a", 0, len(starts) - 1))]
    e = sx.int("e", 0, len(t) + 1)
    if e == len(t) + 1: return a, None
    sx.assume(e >= a)
    return a, sx.fixed(e)


def outside(sx, t, r, a, b):
    """Only leading whitespace of lines in the region may differ."""
    x = lines_of(t); y = lines_of(r)
    sx.check(len(x) == len(y), "number of lines changed")
    pos = 0
    for l, m in zip(x, y):
        opens, start, end, st, pref = scan(l)
        if pos < a or (b is not None and pos > b): sx.check(l == m, "a line outside the region changed")
        elif NO_INDENT in st: sx.check(l == m, "a line that may not be indented changed")
        else: sx.check(l.lstrip() == m.lstrip(), "more than leading whitespace changed")
        pos += len(l) + 1


def indent(sx, k, alphabet=None, lines=None, blanks=True, unit="  "):
    t = get_text(sx, k, alphabet, lines)
    a, b = region(sx, t)
    d = Document(t)
    i = Marks(); i.indent_string = unit; i.indent_blank_lines = blanks
    i.indent(Cursor(d, a, b))
    r = d.text()
    outside(sx, t, r, a, b)
    if b is not None and b > a and b in line_starts(t):
        # whether a line belongs to a region that ends at its very start is left open
        if r != ref_indent(t, a, b - 1, unit, blanks): sx.check(r == ref_indent(t, a, b, unit, blanks), "indent level")
    else: sx.check(r == ref_indent(t, a, b, unit, blanks), "indent level")
    # once more changes nothing
    if a == 0 and b is None:
        i.indent(Cursor(d, 0, None))
        sx.check(d.text() == r, "indenting twice differs from indenting once")
    return r


def more_less(sx, k, alphabet=None, lines=None, unit="  "):
    t = get_text(sx, k, alphabet, lines)
    a, b = region(sx, t)
    d = Document(t)
    i = Marks(); i.indent_string = unit
    c = Cursor(d, a, b)
    sel = [(x.pos, x.end) for x in c.blocks()]
    i.increase_indent(c)
    r = d.text()
    outside(sx, t, r, a, b)
    x = lines_of(t); y = lines_of(r)
    pos = 0
    for l, m in zip(x, y):
        if (pos, pos + len(l)) in sel and NO_INDENT not in scan(l)[3]: sx.check(m == unit + l, "increase_indent")
        else: sx.check(m == l, "increase_indent of another line")
        pos += len(l) + 1
    if b is not None:
        # the selected lines, whatever became of the positions
        n = len(sel)
        z = line_starts(r); first = line_starts(t).index(a)
        a = z[first]; b = z[first + n - 1] + len(y[first + n - 1])
    i.decrease_indent(Cursor(d, a, b))
    sx.check(d.text() == t, "decrease_indent after increase_indent")
    i.decrease_indent(Cursor(d, 0, None))
    for l, m in zip(x, lines_of(d.text())):
        w = ws(l)
        if NO_INDENT in scan(l)[3]: sx.check(m == l, "decrease_indent of a line that may not be indented")
        elif w[:len(unit)] == unit: sx.check(m == l[len(unit):], "decrease_indent by one level")
        else: sx.check(m == l.lstrip(), "decrease_indent of less than one level")
    return r


def strip(sx, k, alphabet, chars=None):
    t = sx.str("t", k, alphabet)
    a, b = region(sx, t)
    d = Document(t)
    Marks().strip_trailing_blanks(Cursor(d, a, b), chars)
    r = d.text()
    x = lines_of(t); y = lines_of(d.text())
    sx.check(len(x) == len(y), "number of lines changed")
    pos = 0
    for l, m in zip(x, y):
        if pos < a or (b is not None and pos > b): sx.check(l == m, "a line outside the region changed")
        elif "$" in l: sx.check(l == m, "a line that may not be stripped changed")
        elif b is not None and a < pos == b: sx.check(m == l or m == l.rstrip(chars), "trailing blanks of a line at the end")
        elif '"' not in l: sx.check(m == l.rstrip(chars), "trailing blanks")
        pos += len(l) + 1
    return d.text()


def auto(sx, k, lines, unit="  "):
    t = get_text(sx, k, None, lines)
    # well-nested: no closing bracket without an opening one
    depth = 0
    for c in t:
        if c == "{": depth += 1
        elif c == "}":
            depth -= 1
            sx.assume(depth >= 0)
    starts = line_starts(t)
    j = sx.fixed(sx.int("j", 0, len(starts) - 1))
    ls = lines_of(t)
    pos = starts[j]
    p = sx.fixed(sx.int("p", pos, pos + len(ls[j])))
    d = Document(t)
    i = Marks(); i.indent_string = unit
    i.auto_indent(Cursor(d, p))
    r = d.text()
    sx.check(r == (t if j == 0 else ref_indent(t, pos, pos + len(ls[j]), unit, True)), "auto_indent")
    return r


def explicit(sx, k, alphabet):
    t = sx.str("t", k, alphabet)
    d = Document(t)
    i = Explicit(); i.indent_string = "."
    i.indent(Cursor(d, 0, None))
    level = 0; pend = 0; out = []
    for l in lines_of(t):
        opens, start, end, st, pref = scan(l)
        level += pend
        level = max(0, level - start)
        out.append("." * level + (l[1:] if l[:1] == "." else l))
        level = max(0, level - end)
        pend = len(opens)
    sx.check(d.text() == "\n".join(out), "indent with its own idea of the current indent")
    return d.text()


class BraceIndent(Indent):
    def events(self, block, tokens, prev_indents):
        for t in tokens:
            if t.action is act.Bracket:
                yield INDENT if t == "{" else DEDENT
            elif t.action is act.String: yield NO_INDENT


class ParenIndent(Indent):
    def events(self, block, tokens, prev_indents):
        for t in tokens:
            if t.action is act.Delimiter: yield INDENT if t == "(" else DEDENT


def tokens(sx, k, alphabet):
    """Per-language indents on a document with a tree: every token is seen by the indenter of its language."""
    class P(parce.Language):
        @parce.lexicon
        def root(cls):
            yield r"[()]", act.Delimiter
            yield r">", act.Name, -1
    class B(parce.Language):
        @parce.lexicon
        def root(cls):
            yield r"[{}]", act.Bracket
            yield r'"', act.String
            yield r"<", act.Name, P.root
    class C(B):
        pass
    t = sx.str("t", k, alphabet)
    root = sx.choice("lang", [B, C]).root
    d = parce.Document(root, t, worker=Worker(TreeBuilder(root)))
    i = Indenter()
    i.add_indent(B, BraceIndent()); i.add_indent(P, ParenIndent()); i.add_indent(C, BraceIndent())
    i.indent(Cursor(d, 0, None))
    # reference: which language a character belongs to
    inner = False
    level = 0; pend = 0; out = []
    for l in lines_of(t):
        start = end = 0; find = True; opens = 0; fixed = False
        for c in l:
            e = None
            if inner:
                if c == "(": e = 1
                elif c == ")": e = -1
                elif c == ">": inner = False
            else:
                if c == "{": e = 1
                elif c == "}": e = -1
                elif c == '"': fixed = True
                elif c == "<": inner = True
            if e == 1: opens += 1; find = False
            elif e == -1:
                if find: start += 1
                elif opens: opens -= 1
                else: end += 1
        level = max(0, level + pend - start)
        out.append(l if fixed else "  " * level + l.lstrip())
        level = max(0, level - end)
        pend = opens
    sx.check(d.text() == "\n".join(out), "indent by language")
    return d.text()


LINES = ["", " ", "a", "  b", "{", " }", "x{{", "} {", '" s {', "|a }", "#c", "{=", "\t}}"]
NEST = ["a", "  b", "{", "x{{", "  }", "}}", "} {", " }}{{", "{="]


def harnesses(tier):
    q = tier == "quick"
    N = 4 if q else 6
    small = lambda c: c.get("k", 9) <= 3
    few = [l for l in LINES if l not in ("\t}}", "a", '" s {')]
    hs = [
        H("indent", indent, [dict(k=n, alphabet=' {}a\n', unit=u) for n in range(N + 2) for u in ("  ",)]
            + [dict(k=n, alphabet='{}|"\n ', blanks=b) for n in range(N + 1) for b in (True, False)],
          bounds="texts <=%d over brackets, marks, blanks and newline; every region" % (N + 1), split=6, eager_ok=small),
        H("lines", indent, [dict(k=n, lines=LINES if n < 3 or not q else few, unit=u, blanks=b) for n in range(2, 4 if q else 5) for u, b in (("  ", True), ("\t", False))],
          bounds="2-%d lines out of %d kinds, every region, indenting blank lines or not" % (3 if q else 4, len(LINES)), split=6, eager_ok=lambda c: False),
        H("more_less", more_less, [dict(k=n, alphabet=' a"\n', unit=u) for n in range(N + 1) for u in ("  ", " ")],
          bounds="texts <=%d, every region" % N, split=5, eager_ok=small),
        H("strip", strip, [dict(k=n, alphabet=' a$\n', chars=c) for n in range(N + 1) for c in (None, "a")],
          bounds="texts <=%d, every region" % N, split=5, eager_ok=small),
        H("auto_indent", auto, [dict(k=n, lines=NEST) for n in range(1, 5 if q else 6)],
          bounds="1-%d lines out of %d kinds, every position" % (4 if q else 5, len(NEST)), split=6, eager_ok=lambda c: False),
        H("current_indent", explicit, [dict(k=n, alphabet='.{}a\n') for n in range(N + 2)], bounds="texts <=%d, indenter that reports the current indent" % (N + 1), split=5, eager_ok=small),
        H("language", tokens, [dict(k=n, alphabet='<>{}()" \n' if n < 4 or not q else '<>{)\n') for n in range(N + 1)],
          bounds="texts <=%d, two nested languages" % N, split=5, eager_ok=lambda c: c["k"] <= 2),
    ]
    return hs
