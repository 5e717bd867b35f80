"""C15: queries select exactly the documented nodes."""
from vp.ctx import H
from parce.query import Query
import parce.action as act
import re
from harness.treelib import build, all_nodes, below, index_of, trail_of, LEX, ACTIONS, Lang

ASSUMPTIONS = ["trees as built by the lexer: only the root context may be empty", "the sibling axes are not applied to the root (documented to fail)", "positions and range ends are at most 2**60 (in_range() without an end reaches up to sys.maxsize)"]


def order(root): return all_nodes(root)


def desc(n): return [] if n.is_token else [x for x in all_nodes(n)][1:]


def up(n):
    out = []
    while n.parent is not None:
        n = n.parent
        out.append(n)
    return out


def toks(root): return below(root)


def after(root, n):
    """Tokens after the node (all of it), in order."""
    t = toks(root)
    mine = [n] if n.is_token else below(n)
    if not mine: return []
    i = [x is mine[-1] for x in t].index(True)
    return t[i+1:]


def before(root, n):
    t = toks(root)
    mine = [n] if n.is_token else below(n)
    if not mine: return []
    i = [x is mine[0] for x in t].index(True)
    return t[:i][::-1]


def rsib(n):
    if n.parent is None: return []
    return list(n.parent)[index_of(n.parent, n)+1:]


def lsib(n):
    if n.parent is None: return []
    return list(n.parent)[:index_of(n.parent, n)][::-1]


def per(f):
    """An axis that is applied to every node."""
    def g(root, nodes):
        out = []
        for n in nodes: out.extend(f(root, n))
        return out
    return g


def item(i):
    def f(root, n):
        if n.is_token: return []
        l = list(n)
        return [l[i]] if -len(l) <= i < len(l) else []
    return f


def uniq(root, nodes):
    out = []
    for n in nodes:
        if not any(n is m for m in out): out.append(n)
    return out


def no_desc(root, nodes):
    return [n for n in nodes if not any(any(a is m for m in nodes) for a in up(n))]


def no_anc(root, nodes):
    return [n for n in nodes if not any(any(a is n for a in up(m)) for m in nodes)]


def fil(p): return lambda root, nodes: [n for n in nodes if p(n)]


AXES = {
    "children": (lambda q: q.children, per(lambda r, n: [] if n.is_token else list(n))),
    "all": (lambda q: q.all, per(lambda r, n: [n] + desc(n))),
    "alltokens": (lambda q: q.alltokens, per(lambda r, n: [n] if n.is_token else below(n))),
    "allcontexts": (lambda q: q.allcontexts, per(lambda r, n: [x for x in [n] + desc(n) if x.is_context])),
    "parent": (lambda q: q.parent, per(lambda r, n: [n.parent] if n.parent is not None else [])),
    "ancestors": (lambda q: q.ancestors, per(lambda r, n: up(n))),
    "first": (lambda q: q.first, per(item(0))),
    "last": (lambda q: q.last, per(item(-1))),
    "next": (lambda q: q.next, per(lambda r, n: after(r, n)[:1])),
    "previous": (lambda q: q.previous, per(lambda r, n: before(r, n)[:1])),
    "forward": (lambda q: q.forward, per(after)),
    "backward": (lambda q: q.backward, per(before)),
    "right": (lambda q: q.right, per(lambda r, n: rsib(n)[:1])),
    "left": (lambda q: q.left, per(lambda r, n: lsib(n)[:1])),
    "right_siblings": (lambda q: q.right_siblings, per(lambda r, n: rsib(n))),
    "left_siblings": (lambda q: q.left_siblings, per(lambda r, n: lsib(n))),
    "tokens": (lambda q: q.tokens, fil(lambda n: n.is_token)),
    "contexts": (lambda q: q.contexts, fil(lambda n: n.is_context)),
    "uniq": (lambda q: q.uniq, uniq),
    "remove_descendants": (lambda q: q.remove_descendants, no_desc),
    "remove_ancestors": (lambda q: q.remove_ancestors, no_anc),
    "[1]": (lambda q: q[1], per(item(1))),
    "[-2]": (lambda q: q[-2], per(item(-2))),
    "[1:]": (lambda q: q[1:], per(lambda r, n: [] if n.is_token else list(n)[1:])),
    "[::-1]": (lambda q: q[::-1], per(lambda r, n: [] if n.is_token else list(n)[::-1])),
    "slice2": (lambda q: q.slice(2), lambda r, nodes: nodes[:2]),
    "slice1:": (lambda q: q.slice(1, None), lambda r, nodes: nodes[1:]),
    "map": (lambda q: q.map(lambda n: [n, n]), per(lambda r, n: [n, n])),
    "filter": (lambda q: q.filter(lambda n: n.parent is not None), fil(lambda n: n.parent is not None)),
    "lexicon": (lambda q: q(LEX[1], LEX[2]), fil(lambda n: n.is_context and (n.lexicon is LEX[1] or n.lexicon is LEX[2]))),
    "not lexicon": (lambda q: q.is_not(LEX[1]), fil(lambda n: not (n.is_context and n.lexicon is LEX[1]))),
    "len": (lambda q: q.len(1), fil(lambda n: n.is_context and len(list(n)) == 1)),
    "not len": (lambda q: q.is_not.len(1, 2), fil(lambda n: n.is_context and not 1 <= len(list(n)) <= 2)),
    "len2": (lambda q: q.len(2, 3), fil(lambda n: n.is_context and 2 <= len(list(n)) <= 3)),
    "action": (lambda q: q.action(act.Text, act.Number), fil(lambda n: n.is_token and n.action in (act.Text, act.Number))),
    "not action": (lambda q: q.is_not.action(act.Text), fil(lambda n: n.is_token and n.action is not act.Text)),
    "in_action": (lambda q: q.in_action(act.Literal), fil(lambda n: n.is_token and n.action is act.Number)),
    "not in_action": (lambda q: q.is_not.in_action(act.Literal), fil(lambda n: n.is_token and n.action is not act.Number)),
}


def same(sx, got, exp, label):
    sx.check(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), label)


SIBLINGS = ("left", "right", "left_siblings", "right_siblings")

def apply(sx, t, a, q, cur):
    # siblings of the root are documented to fail
    if a in SIBLINGS: sx.assume(not any(x is t.root for x in cur))
    return AXES[a][0](q), AXES[a][1](t.root, cur)


def start(sx, t):
    """A symbolic choice of the nodes the query starts from."""
    nodes = order(t.root)
    k = sx.choice("start", ["root", "all", "tokens", "one"])
    if k == "root": return t.root.query, [t.root]
    if k == "all": return Query.from_nodes(nodes), nodes
    if k == "tokens": return Query.from_nodes(toks(t.root)[::-1]), toks(t.root)[::-1]
    i = sx.choice("one", list(range(2)))
    n = nodes[i % len(nodes)]
    return n.query, [n]


def axis(sx, n, depth, names, then):
    """Every axis or filter, after every other one."""
    t = build(sx, n, depth, symbolic_pos=False)
    q, cur = start(sx, t)
    a = sx.choice("axis", names)
    q, cur = apply(sx, t, a, q, cur)
    if then:
        b = sx.choice("then", then)
        q, cur = apply(sx, t, b, q, cur)
    got = list(q)
    same(sx, got, cur, "nodes selected")
    same(sx, list(q), cur, "nodes selected when iterated again")
    sx.check(bool(q) == bool(cur), "truth value")
    sx.check(q.count() == len(cur), "count")
    sx.check(q.pick() is (cur[0] if cur else None), "pick")
    sx.check(q.pick_last() is (cur[-1] if cur else None), "pick_last")
    return [trail_of(x) for x in got]


def positions(sx, n, depth):
    """in_range and range with unbounded positions."""
    t = build(sx, n, depth)
    nodes = order(t.root)[1:] if n else []
    a = sx.int("a", 0, 2 * n if sx.eager else None); b = sx.int("b", 0, 2 * n if sx.eager else None)
    sx.assume(t.end <= 2**60); sx.assume(a <= 2**60); sx.assume(b <= 2**60)
    q = Query.from_nodes(nodes)
    def span(x):
        l = [x] if x.is_token else below(x)
        return l[0].pos, l[-1].pos + len(l[-1].text)
    same(sx, list(q.in_range(a, b)), [x for x in nodes if span(x)[0] >= a and span(x)[1] <= b], "in_range")
    same(sx, list(q.in_range(a)), [x for x in nodes if span(x)[0] >= a], "in_range to the end")
    same(sx, list(q.is_not.in_range(a, b)), [x for x in nodes if span(x)[1] <= a or span(x)[0] >= b], "not in_range")
    lo = hi = -1
    sel = nodes[::-1] if sx.bool("reverse") else nodes
    for x in sel:
        p, e = span(x)
        if lo == -1 or p < lo: lo = p
        if e > hi: hi = e
    got = Query.from_nodes(sel).range()
    sx.check(sx.all(got[0] == lo, got[1] == hi), "range")
    return len(nodes)


def texts(sx, n, m):
    """Filters on the text of tokens."""
    t = build(sx, n, 2, symbolic_pos=False)
    for i, (tok, pos, end, tr) in enumerate(t.tokens): tok.text = sx.str("text%d" % i, sx.choice("len%d" % i, [1, 2]), "abc")
    needle = sx.str("needle", m, "ab")
    which = sx.choice("which", ["call", "startingwith", "endingwith", "containing", "matching"])
    inv = sx.bool("inv")
    if inv: inv = True
    else: inv = False
    q = t.root.query.all
    if inv: q = q.is_not
    if which == "call": q = q(needle, "c"); p = lambda s: s == needle or s == "c"
    elif which == "startingwith": q = q.startingwith(needle); p = lambda s: s[:m] == needle
    elif which == "endingwith": q = q.endingwith(needle); p = lambda s: len(s) >= m and s[len(s)-m:] == needle
    elif which == "containing": q = q.containing(needle); p = lambda s: any(s[i:i+m] == needle for i in range(len(s) - m + 1))
    else:
        q = q.matching("^a|bc$")
        def p(s): return s[0] == "a" or len(s) == 2 and s == "bc"
    exp = []
    for x in order(t.root):
        if x.is_context:
            if which == "call" and inv: exp.append(x)
        else:
            r = True if p(x.text) else False
            if r != inv: exp.append(x)
    same(sx, list(q), exp, "nodes selected by text")
    return [trail_of(x) for x in exp]


def delete(sx, n, depth):
    """Deleting removes the selected nodes, and contexts that loose all children, nothing else."""
    t = build(sx, n, depth, symbolic_pos=False)
    nodes = order(t.root)
    sel = [x for i, x in enumerate(nodes) if sx.choice("s%d" % i, [False, True])]
    again = sel + sel[:1] if sx.bool("twice") else sel
    def gone(x): return any(x is y for y in sel) or any(any(a is y for y in sel) for a in up(x)) or \
        x.is_context and x.parent is not None and all(gone(y) for y in x)
    keep_t = [x for x in toks(t.root) if not gone(x)]
    keep_c = [x for x in nodes if x.is_context and (x.parent is None or not gone(x))]
    # the topmost deleted nodes; the root itself is emptied instead
    if sel and sel[0] is t.root: want = len(list(t.root))
    else: want = len([x for x in nodes if x.parent is not None and gone(x) and (x.parent.parent is None or not gone(x.parent))])
    got = Query.from_nodes(again).delete()
    sx.check(got == want, "number of deleted nodes")
    now = order(t.root)
    same(sx, [x for x in now if x.is_token], keep_t, "tokens left")
    same(sx, [x for x in now if x.is_context], keep_c, "contexts left")
    for x in now:
        if x.is_context:
            for y in x: sx.check(y.parent is x, "parent")
    return [trail_of(x) for x in now]


def harnesses(tier):
    q = tier == "quick"
    n = 3
    names = list(AXES)
    pairs = ["all", "parent", "children", "next", "right_siblings", "uniq", "remove_descendants", "remove_ancestors", "forward", "tokens", "[1]", "slice2"]
    B = "every tree with up to %d tokens and 3 levels of contexts" % n
    return [
        H("axis", axis, [dict(n=m, depth=3, names=names, then=None) for m in range(0, n + 1)] + ([] if q else [dict(n=4, depth=3, names=names, then=None)]), split=6, eager_ok=lambda c: c["n"] <= 3,
          bounds=B + ", %d axes and filters, four kinds of start sets" % len(names)),
        H("compose", axis, [dict(n=m, depth=3 if m < 3 else 2, names=pairs if q else names, then=pairs if q else names) for m in range(1, n + 1)], split=6, eager_ok=lambda c: c["n"] <= 2,
          bounds=B + ", every pair of %d axes" % len(pairs if q else names)),
        H("positions", positions, [dict(n=m, depth=3) for m in range(0, n + 1)], split=6, eager_ok=lambda c: c["n"] <= 2, bounds=B + ", unbounded positions and ranges"),
        H("texts", texts, [dict(n=m, m=k) for m in (1, 2) for k in (1, 2)], split=6, eager_ok=lambda c: c["n"] <= 1, bounds="up to 2 tokens with texts of up to 2 characters"),
        H("delete", delete, [dict(n=m, depth=3) for m in range(1, n + 1)], split=6, eager_ok=lambda c: c["n"] <= 2, bounds=B + ", every subset of the nodes"),
    ]
