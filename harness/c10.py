"""C10: blocks partition the text into its lines."""
from vp.ctx import H
from parce.document import Document, Cursor, Block

ASSUMPTIONS = ["positions are >= 0 (positions beyond the end are included)"]

class CRLF(Document):
    block_separator = "\r\n"

ALPHA = {"\n": "\n\ra", "\r\n": "\r\na"}


def setup(sx, n, sep, small=None):
    t = sx.str("t", n, ALPHA[sep])
    d = (Document if sep == "\n" else CRLF)(t)
    # reference: line intervals by a plain scan
    L = []
    start = i = 0
    k = len(sep)
    while i + k <= n:
        if t[i:i+k] == sep:
            L.append((start, i)); i += k; start = i
        else:
            i += 1
    L.append((start, n))
    return t, d, L


def line_of(L, pos, n):
    """Index of the line the position is in (beyond the end: the last)."""
    r = 0
    for i, (a, b) in enumerate(L):
        if a <= pos: r = i
    return r


def same_block(sx, d, b, L, i, label):
    sx.check(b is not None, label + ": no block")
    sx.check(sx.all(b.pos == L[i][0], b.end == L[i][1]), label)
    sx.check(b.block_number == i, label + ": number")
    sx.check(b.is_first() == (i == 0), label + ": is_first")
    sx.check(b.is_last() == (i == len(L) - 1), label + ": is_last")
    sx.check(len(b) == L[i][1] - L[i][0], label + ": length")


def iterate(sx, n, sep):
    t, d, L = setup(sx, n, sep)
    out = list(d.blocks())
    sx.check(len(out) == len(L), "number of blocks")
    sx.check(d.block_count() == len(L), "block_count")
    back = ""
    for i, b in enumerate(out):
        same_block(sx, d, b, L, i, "blocks()")
        back = back + (sep if i else "") + b.text()
        sx.check(b.text() == t[L[i][0]:L[i][1]], "block text")
    sx.check(back == t, "blocks do not join to the text")
    b = out[-1]
    for i in range(len(L) - 1, -1, -1):
        fresh = Block(d, b.pos, b.end)
        same_block(sx, d, b, L, i, "previous_block")
        nb = fresh.next_block()
        if i == len(L) - 1: sx.check(nb is None, "next_block of the last block")
        else:
            same_block(sx, d, nb, L, i + 1, "next_block")
            sx.check(nb > b and b < nb and nb != b and b <= nb and nb >= b, "block order")
        b = fresh.previous_block()
    sx.check(b is None, "previous_block of the first block")
    return [(b.pos, b.end) for b in out]


def lookup(sx, n, sep):
    t, d, L = setup(sx, n, sep)
    p = sx.int("p", 0, n + 2)
    i = line_of(L, p, n)
    same_block(sx, d, d.find_block(p), L, i, "find_block")
    c = Cursor(d, p)
    same_block(sx, d, c.block(), L, i, "Cursor.block")
    inside = sep == "\r\n" and p > L[i][1]
    if not inside:
        sx.check(d.find_start_of_block(p) == L[i][0], "find_start_of_block")
        sx.check(c.move_start_of_block().pos == L[i][0] and c.end == L[i][0], "move_start_of_block")
        c.select(p)
        if p <= n:
            sx.check(d.find_end_of_block(p) == L[i][1], "find_end_of_block")
            sx.check(c.move_end_of_block().end == L[i][1] and c.pos == L[i][1], "move_end_of_block")
    return i


def number(sx, n, sep):
    t, d, L = setup(sx, n, sep)
    k = sx.int("k", -n - 3, n + 3)
    b = d.find_block_by_number(k)
    m = len(L)
    if k >= m or k < -m:
        sx.check(b is None, "block number out of range")
        return None
    i = k if k >= 0 else k + m
    for j in range(m):
        if i == j:
            same_block(sx, d, b, L, j, "find_block_by_number")
            nb = b.next_block()
            if j + 1 < m: same_block(sx, d, nb, L, j + 1, "next of numbered block")
            pb = b.previous_block()
            if j: same_block(sx, d, pb, L, j - 1, "previous of numbered block")
            return j


def region(sx, n, sep):
    """blocks(start, end) yields the blocks from the one at start up to the last that starts before end."""
    t, d, L = setup(sx, n, sep)
    p = sx.int("p", 0, n); q = sx.int("q", 0, n + 1)
    sx.assume(p <= q)
    i = line_of(L, p, n)
    how = sx.choice("how", ["doc", "cursor", "open"])
    if how == "open": got = list(d.blocks(p)); q = n + 1
    elif how == "doc": got = list(d.blocks(p, q))
    else: got = list(Cursor(d, p, q).blocks())
    exp = [i] + [j for j in range(i + 1, len(L)) if L[j][0] < q]
    sx.check(len(got) == len(exp), "number of blocks in region")
    for b, j in zip(got, exp): same_block(sx, d, b, L, j, "blocks(start, end)")
    c = Cursor(d, p, q)
    if sep == "\n":
        c.select_start_of_block().select_end_of_block()
        sx.check(c.pos == L[i][0], "select_start_of_block")
        if q <= n:
            sx.check(c.end == L[line_of(L, q, n)][1], "select_end_of_block")
    return len(got)


def harnesses(tier):
    N = 8 if tier == "quick" else 11
    M = 6 if tier == "quick" else 8
    return [
        H("iterate", iterate, [dict(n=n, sep=s) for s in ("\n", "\r\n") for n in range(N + 1)], split=4, bounds="every text of <=%d characters over newline, CR, letter; separators \\n and \\r\\n" % N, eager_ok=lambda c: c["n"] <= 4),
        H("lookup", lookup, [dict(n=n, sep=s) for s in ("\n", "\r\n") for n in range(N + 1)], split=4, bounds="the same texts, every position 0..n+2", eager_ok=lambda c: c["n"] <= 4),
        H("number", number, [dict(n=n, sep=s) for s in ("\n", "\r\n") for n in range(N + 1)], split=4, bounds="the same texts, every number -n-3..n+3", eager_ok=lambda c: c["n"] <= 4),
        H("region", region, [dict(n=n, sep=s) for s in ("\n", "\r\n") for n in range(M + 1)], split=4, bounds="texts of <=%d characters, every region" % M, eager_ok=lambda c: c["n"] <= 4),
    ]
