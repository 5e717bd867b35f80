"""C09: cursors keep marking the same text across edits."""
from vp.ctx import H
from parce.document import Document, Cursor
from harness.c07 import text_of

ASSUMPTIONS = [
    "the edits of one block start at different positions, do not overlap, and each changes the length of its region",
    "a cursor initially satisfies 0 <= pos <= end <= length (end may be None)",
]


def new_pos(p, edits):
    """Where a selection start at p (original text) ends up."""
    d = 0
    for a, b, n in edits:
        if p > a:
            if b >= p: return a + d
            d = d + n - (b - a)
    return p + d


def new_end(p, edits):
    """Where a selection end at p ends up; text inserted at the end is included."""
    d = 0
    res = None
    for a, b, n in edits:
        if p >= a:
            if b >= p: res = a + d + n
            d = d + n - (b - a)
    return p + d if res is None else res


def regions(sx, n, k, tag="", apart=False):
    edits = []
    prev = 0
    for j in range(k):
        a = sx.int("a%s%d" % (tag, j), 0, 3 if sx.eager else None)
        b = sx.int("b%s%d" % (tag, j), 0, 3 if sx.eager else None)
        r = text_of(sx, "r%s%d" % (tag, j), [0, 2])
        sx.assume(sx.all(a >= prev, a <= b, b <= n, len(r) != b - a))
        if j: sx.assume(a > edits[-1][0])
        prev = b
        edits.append((a, b, r))
    return edits


def cursors(sx, ncur, k, none=False, reverse=False):
    t = text_of(sx, "t", [3])
    n = len(t)
    d = Document(t)
    cs = []
    for i in range(ncur):
        p = sx.int("p%d" % i, 0, 3 if sx.eager else None)
        sx.assume(p <= n)
        if none: e = None
        else:
            e = sx.int("e%d" % i, 0, 3 if sx.eager else None)
            sx.assume(sx.all(p <= e, e <= n))
        cs.append((Cursor(d, p, e), p, e))
    edits = regions(sx, n, k)
    with d:
        for a, b, r in (reversed(edits) if reverse else edits):
            d[a:b] = r
    sizes = [(a, b, len(r)) for a, b, r in edits]
    new = len(d.text())
    out = []
    for c, p, e in cs:
        sx.check(c.pos == new_pos(p, sizes), "cursor start")
        if none:
            sx.check(c.end is None, "cursor end None")
            sx.check(c.pos <= new, "cursor out of range")
        else:
            sx.check(c.end == new_end(e, sizes), "cursor end")
            sx.check(sx.all(0 <= c.pos, c.pos <= c.end, c.end <= new), "cursor out of range")
        out.append((c.pos, c.end))
    return out


def survive(sx, k):
    """Every surviving character is inside the selection afterwards iff it was before."""
    t = text_of(sx, "t", [3])
    n = len(t)
    d = Document(t)
    p = sx.int("p", 0, 3 if sx.eager else None); e = sx.int("e", 0, 3 if sx.eager else None)
    sx.assume(sx.all(p <= e, e <= n))
    c = Cursor(d, p, e)
    edits = regions(sx, n, k)
    x = sx.int("x", 0, 3 if sx.eager else None)
    sx.assume(x < n)
    y = x
    for a, b, r in edits:
        sx.assume(sx.any(x < a, x >= b))
        if x >= b: y = y + len(r) - (b - a)
    with d:
        for a, b, r in edits:
            d[a:b] = r
    sx.check(d.text()[y:y+1] == t[x:x+1], "harness: character mapping")
    sx.check(sx.iff(sx.all(p <= x, x < e), sx.all(c.pos <= y, y < c.end)), "a surviving character entered or left the selection")
    return (c.pos, c.end, y)


def history(sx):
    """Two successive edit blocks and undo."""
    t = text_of(sx, "t", [3])
    d = Document(t)
    p = sx.int("p", 0, 3 if sx.eager else None); e = sx.int("e", 0, 3 if sx.eager else None)
    sx.assume(sx.all(p <= e, e <= len(t)))
    c = Cursor(d, p, e)
    gone = Cursor(d, 0, 0)
    ed1 = regions(sx, len(t), 1, "x")
    d[ed1[0][0]:ed1[0][1]] = ed1[0][2]
    s1 = [(a, b, len(r)) for a, b, r in ed1]
    p, e = new_pos(p, s1), new_end(e, s1)
    sx.check(sx.all(c.pos == p, c.end == e), "first block")
    gone = None
    ed2 = regions(sx, len(d.text()), 1, "y")
    d[ed2[0][0]:ed2[0][1]] = ed2[0][2]
    s2 = [(a, b, len(r)) for a, b, r in ed2]
    p, e = new_pos(p, s2), new_end(e, s2)
    sx.check(sx.all(c.pos == p, c.end == e), "second block")
    a, b, l = s2[0]
    d.undo()
    s3 = [(a, a + l, b - a)]
    sx.check(sx.all(c.pos == new_pos(p, s3), c.end == new_end(e, s3)), "undo")
    return c.pos, c.end


def key(sx):
    """A cursor as key edits exactly its selection; text() returns it."""
    t = text_of(sx, "t", [0, 3])
    n = len(t)
    d = Document(t)
    p = sx.int("p", 0, 3 if sx.eager else None); e = sx.int("e", 0, 3 if sx.eager else None)
    sx.assume(sx.all(p <= e, e <= n))
    c = Cursor(d, p, e)
    sx.same_text(c.text(), t[p:e], "selected text")
    sx.check(sx.iff(c.has_selection(), p < e), "has_selection")
    q, f = c.selection()
    sx.check(sx.all(q == p, f == e), "selection")
    r = text_of(sx, "r", [0, 2])
    sx.assume(len(r) != e - p)
    d[c] = r
    sx.same_text(d.text(), t[:p] + r + t[e:], "edit with cursor key")
    sx.same_text(c.text(), r, "selection after replacing it")
    c.select_all()
    sx.same_text(c.text(), d.text(), "select_all")
    sx.check(c.selection()[1] == len(d.text()), "selection with open end")
    x = sx.int("x", 0, 3 if sx.eager else None)
    sx.assume(x <= len(d.text()))
    c.select(x)
    sx.check(sx.all(c.pos == x, c.end == x), "select collapses")
    c.select(0, x).select_none()
    sx.check(sx.all(c.pos == 0, c.end == 0), "select_none")
    c2 = Cursor(d, x)
    sx.check(c2.end == x, "end defaults to pos")
    sx.check(sx.iff(c2 > c, x > 0), "cursor comparison")
    sx.check(sx.iff(c2 == c, x == 0), "cursor equality")
    return len(d.text())


def harnesses(tier):
    cs = [dict(ncur=2, k=1), dict(ncur=1, k=2), dict(ncur=2, k=2), dict(ncur=1, k=2, reverse=True), dict(ncur=1, k=2, none=True)]
    if tier == "thorough": cs += [dict(ncur=2, k=3), dict(ncur=3, k=2), dict(ncur=1, k=4)]
    else: cs += [dict(ncur=1, k=3)]
    return [
        H("cursors", cursors, cs, split=7, eager_ok=lambda c: c["k"] * c["ncur"] <= 2, bounds="<=%d cursors, <=%d edits in a block, unbounded text and positions" % ((3, 4) if tier == "thorough" else (2, 3))),
        H("survive", survive, [dict(k=k) for k in ((1, 2, 3) if tier == "thorough" else (1, 2))], split=6, eager_ok=lambda c: c["k"] < 2, bounds="one cursor, <=3 edits, an arbitrary surviving character"),
        H("history", history, split=6, bounds="two edit blocks and an undo, unbounded"),
        H("key", key, bounds="one cursor, unbounded"),
    ]
