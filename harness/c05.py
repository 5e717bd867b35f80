"""C05: tree navigation is mutually consistent."""
from vp.ctx import H
from parce import util, treebuilderutil
from parce.tree import Context, Token, GroupToken, make_tokens
import parce.action as act
from harness.treelib import build, trail_of, below, all_nodes, index_of, LEX, Lang

ASSUMPTIONS = [
    "token positions increase, tokens are not empty and do not overlap, only the root context may be empty",
]


def same_nodes(sx, got, exp, label):
    got = list(got)
    sx.check(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), label)


def is_below(ctx, node):
    while node is not None:
        if node is ctx: return True
        node = node.parent
    return False


def ups(node):
    out = []
    while node.parent is not None:
        node = node.parent
        out.append(node)
    return out


def one_node(sx, n, depth):
    """Everything that starts at one node (any node of any tree)."""
    t = build(sx, n, depth)
    nodes = all_nodes(t.root)
    k = sx.choice("node", list(range(len(nodes))))
    x = nodes[k]
    toks = [y[0] for y in t.tokens]
    own = below(x) if x.is_context else [x]
    first = index_of(toks, own[0]); last = index_of(toks, own[-1])
    up = ups(x)
    same_nodes(sx, x.ancestors(), up, "ancestors")
    sx.check(x.depth() == len(up), "depth")
    sx.check(x.root() is t.root, "root")
    same_nodes(sx, x.forward(), toks[last+1:], "forward")
    same_nodes(sx, x.backward(), toks[:first][::-1], "backward")
    same_nodes(sx, treebuilderutil.backward(x), toks[:first][::-1], "treebuilderutil.backward")
    nt = toks[last+1] if last + 1 < len(toks) else None
    pt = toks[first-1] if first > 0 else None
    sx.check(x.next_token() is nt, "next_token")
    sx.check(x.previous_token() is pt, "previous_token")
    for m in nodes:
        sx.check(m.is_ancestor_of(x) == any(m is u for u in up), "is_ancestor_of")
    for u in up:
        same_nodes(sx, x.forward(u), [y for y in toks[last+1:] if is_below(u, y)], "forward upto")
        same_nodes(sx, x.backward(u), [y for y in toks[:first][::-1] if is_below(u, y)], "backward upto")
        same_nodes(sx, x.ancestors(u), up[:index_of(up, u) + 1], "ancestors upto")
    if x.parent is not None:
        par = x.parent
        i = index_of(par, x)
        sx.check(x.parent_index() == i, "parent_index")
        sx.check(x.is_first() == (i == 0), "is_first")
        sx.check(x.is_last() == (i == len(par) - 1), "is_last")
        sx.check(x.left_sibling() is (par[i-1] if i else None), "left_sibling")
        sx.check(x.right_sibling() is (par[i+1] if i + 1 < len(par) else None), "right_sibling")
        same_nodes(sx, x.left_siblings(), [par[j] for j in range(i - 1, -1, -1)], "left_siblings")
        same_nodes(sx, x.right_siblings(), [par[j] for j in range(i + 1, len(par))], "right_siblings")
        pairs = list(x.ancestors_with_index())
        same_nodes(sx, [a for a, b in pairs], up, "ancestors_with_index")
        sx.check([b for a, b in pairs] == trail_of(x)[::-1], "ancestors_with_index indices")
        tp = list(treebuilderutil.ancestors_with_index(x))
        sx.check([b for a, b in tp] == trail_of(x)[::-1], "treebuilderutil.ancestors_with_index")
    if x.is_context:
        same_nodes(sx, x.tokens(), own, "tokens")
        same_nodes(sx, x.tokens(True), own[::-1], "tokens reversed")
        same_nodes(sx, util.tokens(list(x)), own, "util.tokens")
        same_nodes(sx, util.tokens(list(x), True), own[::-1], "util.tokens reversed")
        sx.check(x.first_token() is own[0], "first_token")
        sx.check(x.last_token() is own[-1], "last_token")
        sx.check(sx.all(x.pos == own[0].pos, x.end == own[-1].end), "pos/end")
        h = max(len(ups(y)) for y in own) - len(up)
        sx.check(x.height() == h, "height")
        sx.check(x.is_root() == (x is t.root), "is_root")
    else:
        same_nodes(sx, x.forward_including(), toks[first:], "forward_including")
        same_nodes(sx, x.backward_including(), toks[:first+1][::-1], "backward_including")
        sx.check(x.end == x.pos + len(x.text), "token end")
    return trail_of(x), len(own)


def pairs(sx, n, depth):
    """Relations between two nodes."""
    t = build(sx, n, depth)
    nodes = all_nodes(t.root)
    x = nodes[sx.choice("x", list(range(len(nodes))))]
    y = nodes[sx.choice("y", list(range(len(nodes))))]
    ux = ([x] if x.is_context else []) + ups(x)
    uy = ([y] if y.is_context else []) + ups(y)
    ca = None
    for a in ux:
        if any(a is b for b in uy):
            ca = a
            break
    sx.check(x.common_ancestor(y) is ca, "common_ancestor")
    if x.is_token and y.is_token:
        toks = [z[0] for z in t.tokens]
        i, j = index_of(toks, x), index_of(toks, y)
        for f in (x.common_ancestor_with_trail, lambda o: treebuilderutil.common_ancestor_with_trail(x, o)):
            c, tx, ty = f(y)
            if i > j:
                sx.check(c is None and tx is None and ty is None, "common_ancestor_with_trail backwards")
            else:
                sx.check(c is ca, "common_ancestor_with_trail")
                b = len(trail_of(ca))
                sx.check(list(tx) == trail_of(x)[b:] and list(ty) == trail_of(y)[b:], "trails")
        same_nodes(sx, x.forward_until_including(y), toks[i:j+1], "forward_until_including")
        # same ancestry of lexicons
        lx = [a.lexicon for a in ups(x)]; ly = [a.lexicon for a in ups(y)]
        st = len(lx) == len(ly) and all(a is b for a, b in zip(lx, ly))
        sx.check(x.state_matches(y) == st, "state_matches")
        same = sx.all(st, x.action is y.action, x.text == y.text)
        sx.check(sx.iff(x.equals(y), same), "equals")
    return trail_of(ca)


def same_tree(sx, a, b, label):
    sx.check(a is not b, label + ": shared node")
    sx.check(a.is_token == b.is_token, label + ": kind")
    if a.is_token:
        sx.check(a.pos == b.pos, label + ": pos")
        sx.check(a.action is b.action and a.group == b.group and type(a) is type(b), label + ": token")
        sx.check(a.text == b.text, label + ": text")
    else:
        sx.check(a.lexicon is b.lexicon and type(a) is type(b), label + ": lexicon")
        sx.check(len(a) == len(b), label + ": number of children")
        for x, y in zip(a, b):
            sx.check(y.parent is b, label + ": parent")
            same_tree(sx, x, y, label)


def copies(sx, n, depth, op):
    """copy() and delete() on any node."""
    t = build(sx, n, depth, symbolic_pos=False)
    nodes = all_nodes(t.root)
    x = nodes[sx.choice("node", list(range(len(nodes))))]
    if op == "copy":
        c = x.copy()
        sx.check(c.parent is None, "copy has no parent")
        same_tree(sx, x, c, "copy")
        p = Context(LEX[0], None)
        c = x.copy(p)
        sx.check(c.parent is p, "copy gets the parent")
        same_tree(sx, x, c, "copy")
        if c.is_context:
            before = len(x)
            del c[0]
            sx.check(len(x) == before, "copy not independent")
        return len(nodes)
    toks = [y[0] for y in t.tokens]
    own = below(x) if x.is_context else [x]
    rest = [y for y in toks if not any(y is z for z in own)]
    if x is t.root: return None
    exp = x.parent
    while exp is not None and len([y for y in below(exp) if not any(y is z for z in own)]) == 0:
        exp = exp.parent
    got = x.delete()
    sx.check(got is exp, "delete returns the first ancestor that is not empty")
    same_nodes(sx, below(t.root), rest, "delete removes exactly the node")
    for c in all_nodes(t.root):
        if c.is_context and c is not t.root: sx.check(len(c) > 0, "delete leaves an empty context")
    return len(rest)


def groups(sx, lead, size, trailing):
    """Grouped tokens find their group."""
    c = Context(LEX[0], None)
    pos = 0
    def add(k):
        nonlocal pos
        lex = []
        for i in range(k):
            lex.append((pos, "ab"[:1 + i % 2], act.Text)); pos += 1 + i % 2
        tt = make_tokens(lex, c)
        c.extend(tt)
        return list(tt)
    if lead: add(lead)
    g = add(size)
    if trailing: add(trailing)
    k = sx.int("k", 0, size - 1)
    x = g[k]
    if size == 1:
        sx.check(x.group is None and type(x) is Token, "single token has no group")
        return 1
    sx.check(x.group == (k if k < size - 1 else -k), "group number")
    same_nodes(sx, x.get_group(), g, "get_group")
    sx.check(x.get_group_start() is g[0], "get_group_start")
    sx.check(x.get_group_end() is g[-1], "get_group_end")
    for y in g: sx.check(y.parent is c, "group parent")
    cp = x.copy(c)
    sx.check(cp.group == x.group and type(cp) is GroupToken, "copied group token")
    return x.group


def compare(sx):
    """Comparison of nodes with text and lexicons."""
    t = build(sx, 2, 3)
    a, b = t.tokens[0][0], t.tokens[1][0]
    x = sx.str("x", 2, "xy")
    tok = Token(t.root, 0, sx.str("y", 2, "xy"), act.Text)
    sx.check(sx.iff(tok == x, tok.text == x), "token compared with text")
    sx.check(sx.iff(tok != x, tok.text != x), "token compared with text (!=)")
    sx.check(tok == tok and not (tok != tok), "identity")
    sx.check(a != b and not (a == b), "distinct tokens are different")
    for c in t.contexts:
        for l in LEX:
            sx.check((c == l) == (c.lexicon is l) and (c != l) == (c.lexicon is not l), "context compared with lexicon")
        for d in t.contexts: sx.check((c == d) == (c is d), "context identity")
    return len(t.contexts)


def harnesses(tier):
    q = tier == "quick"
    cs = [(1, 3), (2, 3), (3, 3), (4, 3)] if q else [(1, 4), (2, 4), (3, 4), (4, 4), (5, 3)]
    ps = [(1, 3), (2, 3), (3, 3)] if q else [(2, 4), (3, 4), (4, 3)]
    B = "every tree with <=%d tokens and <=%d levels of contexts, unbounded token positions"
    return [
        H("node", one_node, [dict(n=n, depth=d) for n, d in cs], split=6, eager_ok=lambda c: c["n"] <= 2, bounds=B % (cs[-1][0], cs[0][1]) + ", every node"),
        H("pairs", pairs, [dict(n=n, depth=d) for n, d in ps], split=6, eager_ok=lambda c: c["n"] <= 2, bounds=B % (ps[-1][0], ps[0][1]) + ", every pair of nodes"),
        H("copies", copies, [dict(n=n, depth=d, op=o) for n, d in cs for o in ("copy", "delete")], split=6, bounds="same trees, concrete positions, every node"),
        H("groups", groups, [dict(lead=a, size=s, trailing=b) for a in (0, 1, 2) for s in (1, 2, 3, 4) for b in (0, 1, 2)], bounds="groups of <=4 with neighbouring tokens or groups"),
        H("compare", compare, bounds="2 tokens, texts of 2 characters"),
    ]
