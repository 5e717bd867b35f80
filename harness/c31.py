"""C31: the tokens of a document, its blocks and cursors."""
from vp.ctx import H
import parce
from parce import Language, lexicon, default_action
from parce.document import Cursor
from parce.work import Worker
from parce.treebuilder import TreeBuilder
import parce.action as act

ASSUMPTIONS = [
    "no token of the harness languages ends with a newline (whether such a token is in the next block is not documented)",
    "token(pos): where the block of pos has tokens, but none at or right of pos in it and none that ends at pos, None or a token of that block may be returned",
]


def make(sep):
    class L(Language):
        @lexicon
        def root(cls):
            yield "a+", act.Text
            yield r"\(", act.Delimiter, cls.sub
            yield r"b\n?c", act.Comment
        @lexicon
        def sub(cls):
            yield r"\)", act.Delimiter, -1
            yield r"\(", act.Delimiter, cls.sub
            yield "a", act.Name
    return L


def document(sx, n, alphabet):
    t = sx.str("text", n, alphabet)
    root = make("\n").root
    return t, root, parce.Document(root, t, worker=Worker(TreeBuilder(root)))


def all_tokens(ctx):
    out = []
    for x in ctx:
        if x.is_context: out.extend(all_tokens(x))
        else: out.append(x)
    return out


def lines(t):
    """The blocks as (start, end)."""
    out = []; s = 0
    for i in range(len(t)):
        if t[i] == "\n": out.append((s, i)); s = i + 1
    return out + [(s, len(t))]


def same(got, exp):
    if len(got) != len(exp): return False
    for g, x in zip(got, exp):
        if g is not x: return False
    return True


def overlap(toks, a, b):
    """The tokens in or overlapping the interval."""
    return [x for x in toks if x.pos < b and x.pos + len(x.text) > a]


def at(sx, n, alphabet):
    """document.token(pos), Cursor.token()"""
    t, root, d = document(sx, n, alphabet)
    p = sx.fixed(sx.int("pos", 0, n))
    toks = all_tokens(d.get_root(True))
    got = d.token(p)
    exp = None; loose = []
    for x in toks:
        if x.pos <= p < x.pos + len(x.text): exp = x; break
    if exp is None:
        for x in toks:
            if x.pos + len(x.text) == p: exp = x
    if exp is None:
        for a, b in lines(t):
            if a <= p <= b:
                inside = overlap(toks, a, b)
                for x in inside:
                    if x.pos > p: exp = x; break
                if exp is None: loose = inside
    ok = got is exp
    for x in loose:
        if got is x: ok = True
    sx.check(ok, "token at the position")
    sx.check(Cursor(d, p, n).token() is got, "token of a cursor")
    for b in d.blocks():
        if b.pos == p: sx.check(b.token() is got, "token of a block")
    return [n if got is None else got.pos, len(toks)]


def ranges(sx, n, alphabet):
    """Cursor.tokens(), Block.tokens()"""
    t, root, d = document(sx, n, alphabet)
    a = sx.fixed(sx.int("start", 0, n))
    b = sx.fixed(sx.int("end", 0, n + 1))
    sx.assume(a < b)
    toks = all_tokens(d.get_root(True))
    c = Cursor(d, a, None if b == n + 1 else b)
    sx.check(same(list(c.tokens()), overlap(toks, a, b)), "tokens of a cursor")
    got = []; exp = lines(t)
    blocks = list(d.blocks())
    sx.check(len(blocks) == len(exp), "number of blocks")
    for x, (s, e) in zip(blocks, exp):
        sx.check(x.pos == s and x.end == e and len(x) == e - s, "place of a block")
        sx.check(same(list(x.tokens()), overlap(toks, s, e) if s < e else []), "tokens of a block")
    return [len(list(c.tokens())), len(blocks)]


def compare(sx, n, alphabet):
    """Ranges are ordered by position, and equal when they are the same piece of the same document."""
    t, root, d = document(sx, n, alphabet)
    e = parce.Document(root, t, worker=Worker(TreeBuilder(root)))
    a, b, i, j = [sx.int(x, 0, n) for x in ("a", "b", "i", "j")]
    x, y = Cursor(d, a, b), Cursor(d, i, j)
    eq = a == i and b == j
    sx.check((x == y) == eq and (x != y) == (not eq), "equal cursors")
    sx.check((x < y) == (a < i) and (x > y) == (a > i) and (x <= y) == (a <= i) and (x >= y) == (a >= i), "order of cursors")
    z = Cursor(e, a, b)
    sx.check(not x == z and x != z, "cursors of different documents")
    bl = list(d.blocks())
    for k, u in enumerate(bl):
        for m, v in enumerate(d.blocks()):
            sx.check((u == v) == (k == m) and (u != v) == (k != m) and (u < v) == (k < m) and (u <= v) == (k <= m) and (u > v) == (k > m) and (u >= v) == (k >= m), "order of blocks")
            w = Cursor(d, v.pos, v.end)
            sx.check(not u == w and u != w and (u < w) == (k < m), "a block and a cursor")
    return [len(bl)]


def opened(sx, n, alphabet, edit):
    """open_lexicons() and modified_range() after an edit."""
    t, root, d = document(sx, n, alphabet)
    d.get_root(True)
    if edit:
        a = sx.fixed(sx.int("start", 0, n)); b = sx.fixed(sx.int("end", 0, n))
        sx.assume(a <= b)
        new = sx.str("new", edit - 1, alphabet)
        old = [(x.pos, x.text, x.action) for x in all_tokens(d.get_root(True))]
        d[a:b] = new
        t = t[:a] + new + t[b:]
    tree = d.get_root(True)
    L = root.language
    # brackets that are open at the end
    open_ = 0; i = 0
    while i < len(t):
        c = t[i]
        if c == "(": open_ += 1
        elif c == ")" and open_: open_ -= 1
        i += 1
    got = list(d.open_lexicons())
    sx.check(len(got) == open_, "number of open lexicons")
    for x in got: sx.check(x is L.sub, "open lexicon")
    s, e = d.modified_range()
    if edit:
        now = [(x.pos, x.text, x.action) for x in all_tokens(tree)]
        delta = len(new) - (b - a)
        before = [x for x in now if x[0] + len(x[1]) <= s]
        was = [x for x in old if x[0] + len(x[1]) <= s]
        sx.check(len(before) == len(was), "tokens before the modified range")
        for x, y in zip(before, was): sx.check(x[0] == y[0] and x[1] == y[1] and x[2] is y[2], "token before the modified range")
        after = [x for x in now if x[0] >= e]
        was = [x for x in old if x[0] + delta >= e and x[0] >= b]
        sx.check(len(after) == len(was), "tokens after the modified range")
        for x, y in zip(after, was): sx.check(x[0] == y[0] + delta and x[1] == y[1] and x[2] is y[2], "token after the modified range")
    return [open_, len(got)]


def harnesses(tier):
    q = tier == "quick"
    N = 5 if q else 7
    small = lambda c: c["n"] <= 3
    A = "ab()\nx"
    return [
        H("at", at, [dict(n=m, alphabet=A + "c") for m in range(4)] + [dict(n=m, alphabet="a(\nx") for m in range(4, N + 1)] + [dict(n=m, alphabet="abc\n") for m in range(3, N)],
          bounds="texts <=%d, every position" % N, split=6, eager_ok=small),
        H("ranges", ranges, [dict(n=m, alphabet=A + "c") for m in range(4)] + [dict(n=m, alphabet="a(\nx") for m in range(4, N)] + [dict(n=m, alphabet="abc\n") for m in range(3, N)],
          bounds="texts <=%d, every interval" % (N - 1), split=6, eager_ok=small),
        H("compare", compare, [dict(n=m, alphabet="a\n") for m in range(N)], bounds="texts <=%d, every pair of cursors and blocks" % (N - 1), split=5, eager_ok=lambda c: c["n"] <= 2),
        H("open", opened, [dict(n=m, alphabet="a()x", edit=e) for m in range(N) for e in (0, 1, 2, 3) if m + e <= N] , bounds="texts <=%d, an edit of any part by up to 2 characters" % (N - 1), split=6, eager_ok=small),
    ]
