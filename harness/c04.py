"""C04: position lookups in the tree agree with a linear scan."""
from vp.ctx import H
from parce import treebuilderutil
from harness.treelib import build, trail_of, below

ASSUMPTIONS = [
    "token positions increase, tokens are not empty and do not overlap, only the root context may be empty (as built by the lexer, see C01/C02)",
]


def lookups(sx, n, depth, sub):
    t = build(sx, n, depth)
    p = sx.int("p", None if not sx.eager else -1, None if not sx.eager else 2 * n + 1)
    ctx = t.root
    if sub:
        if len(t.contexts) < 2: return None
        ctx = sx.choice("ctx", list(range(1, 3)))
        if ctx >= len(t.contexts): return None
        ctx = t.contexts[ctx]
    base = len(trail_of(ctx))
    inside = below(ctx)
    toks = [x for x in t.tokens if any(x[0] is y for y in inside)]
    # linear scans
    right = left = after = before = None
    for x in toks:
        if right is None and x[2] > p: right = x
        if x[1] < p: left = x
        if after is None and x[1] >= p: after = x
        if x[2] <= p: before = x
    def one(got, exp, label):
        sx.check(got is (None if exp is None else exp[0]), label)
    def trail(got, exp, label):
        sx.check(isinstance(got, tuple) and len(got) == 2, label)
        one(got[0], exp, label)
        sx.check(got[1] == (None if exp is None else exp[3][base:]), label + ": trail")
    one(ctx.find_token(p), right, "find_token")
    trail(ctx.find_token_with_trail(p), right, "find_token_with_trail")
    one(ctx.find_token_left(p), left, "find_token_left")
    trail(ctx.find_token_left_with_trail(p), left, "find_token_left_with_trail")
    one(ctx.find_token_after(p), after, "find_token_after")
    one(ctx.find_token_before(p), before, "find_token_before")
    one(treebuilderutil.find_token_before(ctx, p), before, "treebuilderutil.find_token_before")
    sx.check(ctx.find(p) == (-1 if right is None else right[3][base]), "find")
    sx.check(ctx.find_left(p) == (-1 if left is None else left[3][base]), "find_left")
    # youngest context that surrounds the position
    exp = ctx
    if right is not None:
        c = right[0].parent
        while c is not ctx:
            if c.pos <= p:
                exp = c
                break
            c = c.parent
    sx.check(ctx.find_context(p) is exp, "find_context")
    return trail_of(exp), right and right[3], left and left[3], after and after[3], before and before[3]


def empty(sx):
    t = build(sx, 0, 1)
    p = sx.int("p", None if not sx.eager else -1, None if not sx.eager else 1)
    for f in (t.root.find_token, t.root.find_token_left, t.root.find_token_after, t.root.find_token_before):
        sx.check(f(p) is None, "lookup in an empty tree")
    sx.check(t.root.find_token_with_trail(p) == (None, None), "lookup in an empty tree")
    sx.check(t.root.find_token_left_with_trail(p) == (None, None), "lookup in an empty tree")
    sx.check(t.root.find(p) == -1 and t.root.find_left(p) == -1, "index in an empty tree")
    sx.check(t.root.find_context(p) is t.root, "context in an empty tree")
    return True


def flat(sx, n):
    """Many children in one context: every binary search depth."""
    t = build(sx, n, 1)
    p = sx.int("p", 0, 2 * n + 1 if sx.eager else None)
    right = left = after = before = None
    for x in t.tokens:
        if right is None and x[2] > p: right = x
        if x[1] < p: left = x
        if after is None and x[1] >= p: after = x
        if x[2] <= p: before = x
    r = t.root
    for f, e in ((r.find_token, right), (r.find_token_left, left), (r.find_token_after, after), (r.find_token_before, before)):
        sx.check(f(p) is (e and e[0]), "lookup in a flat tree")
    return right and right[3], left and left[3]


def harnesses(tier):
    cs = [(1, 3), (2, 3), (3, 3), (4, 3), (5, 3)] if tier == "quick" else [(1, 4), (2, 4), (3, 4), (4, 4), (5, 4), (6, 3)]
    return [
        H("lookups", lookups, [dict(n=n, depth=d, sub=s) for n, d in cs for s in (False, True)], split=6, eager_ok=lambda c: c["n"] <= 3,
          bounds="every tree with <=%d tokens and <=%d levels of contexts, unbounded token positions, lengths and gaps, any query position, from the root or a subcontext" % (cs[-1][0], cs[0][1])),
        H("flat", flat, [dict(n=n) for n in (5, 6, 7, 8, 9)], split=4, eager_ok=lambda c: c["n"] <= 5, bounds="up to 9 siblings"),
        H("empty", empty, bounds="the empty tree"),
    ]
