"""C12: merged pending changes cover every edit."""
from vp.ctx import H
from parce.treebuilderutil import Changes
from parce.treebuilder import TreeBuilder
from parce.document import Document
from harness.c07 import text_of

ASSUMPTIONS = ["every recorded change states its true position and sizes (the first one explicitly)"]


def edit(sx, t, i, kind="any"):
    """An arbitrary replacement of t: (start, removed, text, new text)."""
    n = len(t)
    hi = 4 if sx.eager else None
    a = sx.int("a%d" % i, 0, hi); m = sx.int("m%d" % i, 0, hi)
    r = text_of(sx, "r%d" % i, [0, 1, 2])
    sx.assume(a + m <= n)
    return a, m, r, t[:a] + r + t[a+m:]


def covers(sx, c, t, new):
    n = len(t)
    sx.check(sx.all(c.start >= 0, c.removed >= 0, c.added >= 0), "negative size")
    sx.check(sx.all(c.start + c.removed <= n, c.start + c.added <= len(new)), "merged change out of range")
    sx.check(n - c.removed + c.added == len(new), "merged sizes do not give the new length")
    sx.same_text(new[:c.start], t[:c.start], "text before the merged change differs")
    sx.same_text(new[c.start+c.added:], t[c.start+c.removed:], "text after the merged change differs")


def merge(sx, k, via):
    t = text_of(sx, "t", [0, 3])
    cur = t
    b = TreeBuilder()
    c = Changes()
    for i in range(k):
        a, m, r, cur = edit(sx, cur, i)
        if via == "builder":
            b.add_changes(cur, False, a, m, len(r))
        else:
            c.add(cur, False, a, m, len(r))
    if via == "builder":
        c = b.get_changes()
        sx.check(not b.changes, "pending changes left")
        sx.check(not b.get_changes().has_changes(), "changes reported twice")
    sx.check(c.has_changes(), "has_changes")
    sx.check(c.root_lexicon is False, "root lexicon changed")
    sx.same_text(c.text, cur, "text")
    covers(sx, c, t, cur)
    p = sx.int("p", 0, 4 if sx.eager else None)
    sx.assume(p < len(t))
    q = c.new_position(p)
    if p < c.start: sx.check(q == p, "position before the change moved")
    elif p >= c.start + c.removed:
        sx.same_text(cur[q:q+1], t[p:p+1], "new_position names another character")
    else:
        sx.check(q == c.start + c.added, "position inside the change")
    return (c.start, c.removed, c.added, q)


def tight(sx):
    """The merged region never exceeds the hull of the two changes."""
    t = text_of(sx, "t", [0, 3])
    a, m, r, t1 = edit(sx, t, 0)
    b, l, s, t2 = edit(sx, t1, 1)
    c = Changes()
    c.add(t1, False, a, m, len(r)); c.add(t2, False, b, l, len(s))
    start = a if a < b else b
    sx.check(c.start == start, "start is not the lowest changed position")
    # last changed position, counted from the end
    e1 = len(t1) - (a + len(r)); e2 = len(t1) - (b + l)
    e = e1 if e1 < e2 else e2
    sx.check(len(t2) - (c.start + c.added) == e, "end is not the highest changed position")
    return (c.start, c.removed, c.added)


def rest(sx, which):
    """Omitted sizes mean: everything after start is replaced."""
    t = text_of(sx, "t", [0, 3])
    a, m, r, t1 = edit(sx, t, 0)
    c = Changes()
    c.add(t1, False, a, m, len(r))
    s = text_of(sx, "s", [0, 2])
    b = sx.int("b", 0, 4 if sx.eager else None)
    sx.assume(b <= len(t1))
    t2 = t1[:b] + s
    if which == "both": c.add(t2, start=b)
    elif which == "removed": c.add(t2, start=b, added=len(s))
    else: c.add(t2, start=b, removed=len(t1) - b)
    covers(sx, c, t, t2)
    return (c.start, c.removed, c.added)


def lexicon(sx):
    c = Changes()
    sx.check(not c.has_changes(), "new Changes has no changes")
    x, y = object(), None
    o1 = sx.choice("o1", [False, x, y]); o2 = sx.choice("o2", [False, x, y])
    c.add("ab", o1, 0, 0, 2); c.add("abc", o2, 2, 0, 1)
    exp = o1 if o2 is False else o2
    sx.check(c.root_lexicon is exp, "the last requested root lexicon is kept")
    sx.check(c.has_changes(), "has_changes")
    return True


def harnesses(tier):
    ks = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    return [
        H("merge", merge, [dict(k=k, via=v) for k in ks for v in ("direct", "builder") if k < 3 or v == "direct"], split=6, eager_ok=lambda c: c["k"] < 3,
          bounds="<=%d merged changes at unbounded positions with unbounded sizes" % ks[-1]),
        H("tight", tight, split=6, bounds="two merged changes, unbounded"),
        H("rest", rest, [dict(which=w) for w in ("both", "removed", "added")], split=5, bounds="two merged changes, the second open ended"),
        H("lexicon", lexicon, bounds="two changes"),
    ]
