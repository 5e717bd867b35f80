"""C06: ranges and slices select exactly the overlapping tokens."""
from vp.ctx import H
from parce.tree import Range, Context
from parce.target import TargetFactory
from harness.treelib import build, trail_of, below, all_nodes, index_of, LEX

ASSUMPTIONS = [
    "token positions increase, tokens are not empty and do not overlap, only the root context may be empty",
]


def same_nodes(sx, got, exp, label):
    got = list(got)
    sx.check(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), label)


def stack_of(c):
    out = []
    while c is not None:
        out.append(c)
        c = c.parent
    return out[::-1]


def check_range(sx, r, exp, top, label):
    """r: a Range; exp: the tokens it must select."""
    same_nodes(sx, r.tokens(), exp, label + ": tokens")
    sx.check(sx.all(r.pos == exp[0].pos, r.end == exp[-1].end), label + ": pos/end")
    # the slices are consecutive parts of their contexts and contain exactly these tokens
    got = []
    seen = []
    tf = TargetFactory()
    stack = None
    for ctx, sl in r.slices(tf):
        part = ctx[sl]
        sx.check(not any(ctx is s for s in seen), label + ": context yielded twice")
        seen.append(ctx)
        got.extend(below(part))
        # the target leads from the stack of the first context to that of this one
        want = [c.lexicon for c in stack_of(ctx)]
        t = tf.get()
        if stack is None:
            sx.check(t is None, label + ": target before the first slice")
        elif t:
            stack = stack[:len(stack) + t.pop] + list(t.push)
        if stack is not None:
            sx.check(len(stack) == len(want) and all(a is b for a, b in zip(stack, want)), label + ": target")
        stack = want
    same_nodes(sx, got, exp, label + ": slices")
    for e in exp: sx.check(any(r.ancestor is c for c in stack_of(e.parent)), label + ": ancestor")
    sx.check(any(top is c for c in stack_of(r.ancestor)), label + ": ancestor outside")


def interval(sx, n, depth, sub, how):
    t = build(sx, n, depth)
    lo = None if not sx.eager else -1
    hi = None if not sx.eager else 2 * n + 1
    ctx = t.root
    if sub:
        if len(t.contexts) < 2: return None
        ctx = t.contexts[-1]
    inside = below(ctx)
    toks = [x for x in t.tokens if any(x[0] is y for y in inside)]
    a = 0 if how == "head" else sx.int("a", lo, hi)
    b = None if how == "tail" else sx.int("b", lo, hi)
    exp = []
    for tok, pos, end, tr in toks:
        if end > a and (b is None or pos < b): exp.append(tok)
    if b is not None: sx.assume(sx.any(a < b, a > 0))
    if b is not None and b <= a: exp = []
    r = ctx.range(a, b) if b is not None else ctx.range(a)
    if r is None:
        sx.check(not exp, "no range although tokens overlap the interval")
        return None
    sx.check(len(exp) > 0, "range although no token overlaps the interval")
    check_range(sx, r, exp, ctx, "range")
    return [trail_of(x) for x in exp]


def whole(sx, n, depth):
    """Default arguments: the full context; token to token ranges."""
    t = build(sx, n, depth)
    r = t.root.range()
    if n == 0:
        sx.check(r is None, "range of an empty tree")
        return None
    toks = [x[0] for x in t.tokens]
    check_range(sx, r, toks, t.root, "whole range")
    i = sx.choice("i", list(range(n))); j = sx.choice("j", list(range(n)))
    r = toks[i].range(toks[j])
    if i > j: sx.check(r is None, "range backwards")
    else: check_range(sx, r, toks[i:j+1], t.root, "token range")
    return len(toks)


def harnesses(tier):
    q = tier == "quick"
    cs = [(1, 3), (2, 3), (3, 3), (4, 3)] if q else [(1, 4), (2, 4), (3, 4), (4, 4), (5, 3)]
    B = "every tree with <=%d tokens and <=%d levels of contexts, unbounded token positions, lengths and gaps" % (cs[-1][0], cs[0][1])
    return [
        H("interval", interval, [dict(n=n, depth=d, sub=s, how=h) for n, d in cs for s in (False, True) for h in ("both", "head", "tail")], split=7,
          eager_ok=lambda c: c["n"] <= 2, bounds=B + "; any interval of the root or of a subcontext"),
        H("whole", whole, [dict(n=0, depth=1)] + [dict(n=n, depth=d) for n, d in cs], split=6, eager_ok=lambda c: c["n"] <= 3, bounds=B + "; full range and every pair of tokens"),
    ]
