"""Trees of symbolic shape with symbolic token positions."""
from parce import Language, lexicon
from parce.tree import Context, Token, GroupToken
import parce.action as act


class Lang(Language):
    @lexicon
    def root(cls):
        yield "r", act.Text
    @lexicon
    def one(cls):
        yield "1", act.Name
    @lexicon
    def two(cls):
        yield "2", act.Number
    @lexicon(consume=True)
    def eat(cls):
        yield "3", act.String

LEX = [Lang.root, Lang.one, Lang.two, Lang.eat]
ACTIONS = [act.Text, act.Name, act.Number]


def shape(sx, n, depth, lexsym=False, groups=False):
    """Choose, for each token, how many contexts are closed and opened before it."""
    out = []
    cur = 1
    for i in range(n):
        # before the first token nothing can be closed (contexts are never empty)
        opts = [(p, q) for p in range(cur) for q in range(depth - (cur - p) + 1)] if i else [(0, q) for q in range(depth)]
        o = sx.choice("shape%d" % i, opts)
        cur = cur - o[0] + o[1]
        out.append(o)
    return out


class T:
    """A tree with a flat description: tokens in order with (pos, end, path)."""


def build(sx, n, depth, gaps=True, text=None, lexicons=None, symbolic_pos=True):
    sh = shape(sx, n, depth)
    t = T()
    t.root = Context(LEX[0], None)
    t.nodes = []        # all nodes in document order (depth first), contexts before their children
    t.tokens = []       # (token, pos, end, trail)
    t.contexts = [t.root]
    cur = t.root
    prev = 0
    k = 0
    for i, (p, q) in enumerate(sh):
        for _ in range(p): cur = cur.parent
        for _ in range(q):
            k += 1
            c = Context(LEX[k % len(LEX)] if lexicons is None else lexicons[k % len(lexicons)], cur)
            cur.append(c); cur = c
            t.contexts.append(c)
        if symbolic_pos:
            pos = sx.int("pos%d" % i, 0, None if not sx.eager else 2 * n)
            if gaps: sx.assume(pos >= prev)
            else: sx.assume(pos == prev)
            if sx.eager and sx.symbolic:
                l = sx.choice("text%d.n" % i, [1, 2])
                tx = sx.const("text%d" % i, "xyz"[:l])
                sx.assume(pos <= prev + 1)
            else:
                tx = sx.text("text%d" % i)
                sx.assume(len(tx) >= 1)
        else:
            pos = prev + (i % 2)
            tx = "xyz"[:1 + i % 3]
        tok = Token(cur, pos, tx, ACTIONS[i % 3])
        cur.append(tok)
        prev = pos + len(tx)
        trail = trail_of(tok)
        t.tokens.append((tok, pos, prev, trail))
    t.end = prev
    return t


def index_of(parent, node):
    for i, m in enumerate(parent):
        if m is node: return i


def trail_of(node):
    tr = []
    while node.parent is not None:
        tr.append(index_of(node.parent, node))
        node = node.parent
    return tr[::-1]


def at(root, trail):
    for i in trail: root = root[i]
    return root


def below(context):
    """All tokens below a context, by plain recursion."""
    out = []
    for m in context:
        if m.is_token: out.append(m)
        else: out.extend(below(m))
    return out


def all_nodes(context):
    out = [context]
    for m in context:
        if m.is_token: out.append(m)
        else: out.extend(all_nodes(m))
    return out


def ids(root, nodes):
    """Describe nodes by their trails (for results)."""
    return [None if x is None else trail_of(x) for x in nodes]
