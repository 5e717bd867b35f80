"""C16: transforming a text, its tree, or an updated tree gives the same result."""
from vp.ctx import H
from parce import Language, lexicon
from parce.rule import derive, MATCH, arg as rule_arg
from parce.transform import Transform, Transformer, Item, ItemList, add_untransformed
from parce.treebuilder import TreeBuilder, build_tree
import parce
from harness.langlib import *

ASSUMPTIONS = ["transform methods are pure functions of the texts and actions of their tokens and of the results for their sub-contexts (documented: positions may change without a new transformation)"]

T, N, S, C = act.Text, act.Name, act.String, act.Comment


def nest():
    return [make("Nest",
        Lex("root", ("a", T), (r"\(", N, "par"), ("q", S, "string")),
        Lex("par", ("a", T), (r"\(", N, "par"), ("q", S, "string"), (r"\)", C, -1)),
        Lex("string", ("q", S, -1), (r"\)", S, -2), default=("action", C)))], "a()q"

def eat():
    return [make("Eat",
        Lex("root", ("a", T), ("b", N, "one", "two"), ("c", C, "two")),
        Lex("one", ("a", T, -1), ("b", N, "two"), ("c", S, -1, "two"), consume=True),
        Lex("two", ("(a)(b)", (T, S)), ("b", N, -2), ("c", C, -1), consume=True))], "abc"

def deft():
    return [make("Deft",
        Lex("root", ("a", T, "one"), ("b", N, "two"), ("c", C)),
        Lex("one", ("a", S), ("b", S, "two", "two"), default=("target", -1)),
        Lex("two", ("a", T), default=("target", -1)))], "abc"

def mixed():
    class Inner(Language):
        @lexicon
        def root(cls):
            yield "a", T
            yield "<", N, cls.sub
            yield ">", C, -1
        @lexicon
        def sub(cls):
            yield "a", S
            yield ">", C, -1
    class Outer(Language):
        @lexicon
        def root(cls):
            yield "a", T
            yield "<", N, Inner.root
            yield "b", S, derive(cls.sub, MATCH[0])
        @lexicon
        def sub(cls):
            yield "a", T
            yield "<", N, Inner.sub
            yield rule_arg(), S, -1
    return [Outer, Inner], "a<>b"

LANGS = dict(nest=nest, eat=eat, deft=deft, mixed=mixed)
NAMES = dict(nest=["root", "par", "string"], eat=["root", "one", "two"], deft=["root", "one", "two"], mixed=["root", "sub"])


def simple(items, pos):
    """A plain description of what a transform method gets."""
    out = []
    for i in items:
        if i.is_token: out.append((i.pos if pos else None, i.text, i.action, i.group))
        elif i.name == "<untransformed>": out.append((i.name, context(i.obj, pos)))
        else: out.append((i.name, i.obj))
    return out


def context(c, pos):
    return (c.lexicon, [(n.pos if pos else None, n.text, n.action, n.group) if n.is_token else context(n, pos) for n in c])


def transform_class(names, keep, untr, pos):
    """A Transform with methods for the names in keep; those in untr want untransformed contexts."""
    ns = {}
    def method(name, want):
        def m(self, items): return (name, items.arg, simple(items, pos))
        m.__name__ = name
        return add_untransformed(m) if want else m
    for n in names:
        if n in keep: ns[n] = method(n, n in untr)
    return type("T", (Transform,), ns)


def expected(c, sets, pos):
    """Reference: plain recursion over a tree. sets: language -> (keep, untr)."""
    keep, untr = sets[c.lexicon.language]
    name = c.lexicon.name
    if name not in keep: return None
    out = []
    for n in c:
        if n.is_token: out.append((n.pos if pos else None, n.text, n.action, n.group))
        elif n.lexicon.name in sets[n.lexicon.language][0]: out.append((n.lexicon.name, expected(n, sets, pos)))
        elif name in untr: out.append(("<untransformed>", context(n, pos)))
    return (name, c.lexicon.arg, out)


def setup(sx, lang, pos, few=False):
    langs, alpha = LANGS[lang]()
    names = NAMES[lang]
    t = Transformer()
    sets = {}
    for i, L in enumerate(langs):
        opts = [[n for j, n in enumerate(names) if k >> j & 1] for k in range(1 << len(names))]
        if i == 0: opts = [o for o in opts if "root" in o] + [[]]
        if few: opts = [names, names[:-1], [names[0], names[-1]]] if len(names) > 2 else [names, names[:1]]
        keep = sx.choice("methods%d" % i, opts)
        untr = []
        if keep and (few or sx.choice("untransformed%d" % i, [False, True])): untr = keep
        sets[L] = (keep, untr)
        t.add_transform(L, transform_class(names, keep, untr, pos)())
    return langs[0], alpha, t, sets


def plain(v):
    if isinstance(v, (list, tuple)): return [plain(x) for x in v]
    if v is None or isinstance(v, int): return v
    if hasattr(v, "descriptor"): return v.name
    if hasattr(v, "upper"): return v
    return str(v)


def same(sx, a, b, label):
    """Structural equality (identity of lexicons and actions)."""
    if isinstance(a, (tuple, list)):
        sx.check(type(a) is type(b) and len(a) == len(b), label)
        for x, y in zip(a, b): same(sx, x, y, label)
    elif a is b: pass
    elif hasattr(a, "upper") and hasattr(b, "upper"): sx.check(a == b, label)
    elif isinstance(a, int) and isinstance(b, int): sx.check(a == b, label)
    else: sx.check(False, label)


def direct(sx, lang, n):
    L, alpha, t, sets = setup(sx, lang, True)
    text = sx.str("text", n, alpha)
    tree = build_tree(L.root, text)
    exp = expected(tree, sets, True)
    same(sx, t.transform_tree(tree), exp, "transform of the tree")
    same(sx, t.transform_text(L.root, text), exp, "transform of the text")
    return plain(exp)


def cached(sx, t, c, sets, label):
    """Every cached result is the right one."""
    for n in c:
        if n.is_context:
            r = t.result(n)
            if r is not None: same(sx, r, expected(n, sets, False), label)
            cached(sx, t, n, sets, label)


def update(sx, lang, n, edits, removed, added):
    """Incremental transforming after edits."""
    L, alpha, t, sets = setup(sx, lang, False, True)
    text = sx.str("text", n, alpha)
    b = TreeBuilder(L.root)
    t.connect_treebuilder(b)
    seen = []
    t.connect("updated", lambda tree, result: seen.append((tree, result)))
    b.rebuild(text)
    exp = expected(build_tree(L.root, text), sets, False)
    same(sx, t.result(b.root), exp, "first result")
    for i in range(edits):
        p = sx.choice("pos%d" % i, list(range(len(text) + 1)))
        r = sx.choice("removed%d" % i, [x for x in range(removed + 1) if p + x <= len(text)])
        s = sx.str("added%d" % i, sx.choice("len%d" % i, list(range(added + 1))), alpha)
        text = text[:p] + s + text[p+r:]
        del seen[:]
        b.rebuild(text, False, p, r, len(s))
        exp = expected(build_tree(L.root, text), sets, False)
        same(sx, t.result(b.root), exp, "result after an edit")
        cached(sx, t, b.root, sets, "result of a context after an edit")
        sx.check(len(seen) == 1 and seen[0][0] is b.root, "updated event")
        same(sx, seen[0][1], exp, "updated result")
    return plain(exp)


def itemlist(sx, n):
    """ItemList helpers."""
    names = ["key", "value", "other"]
    l = ItemList("argument")
    kinds = []
    for i in range(n):
        k = sx.choice("k%d" % i, names + [T, N])
        kinds.append(k)
        if k in names: l.append(Item(k, "obj%d" % i))
        else: l.append(parce.tree.Token(None, i, "x", k))
    sx.check(l.arg == "argument", "arg")
    sx.check([x for x in l.tokens()] == [x for x, k in zip(l, kinds) if k not in names], "tokens")
    sx.check([x for x in l.items()] == [x for x, k in zip(l, kinds) if k in names], "items")
    which = sx.choice("names", [("key", "value"), ("value", "key"), ("key",), ("key", "value", "other"), ()])
    exp = []
    cur = {}; last = -1
    for i, k in enumerate(kinds):
        if k in which:
            j = which.index(k)
            if j <= last: exp.append([cur.get(x) for x in range(len(which))]); cur = {}
            cur[j] = "obj%d" % i; last = j
    if last != -1: exp.append([cur.get(x) for x in range(len(which))])
    sx.check([list(x) for x in l.grouped_objects(*which)] == exp, "grouped_objects")
    idx = sx.int("index", -n - 2, n + 2)
    want = sx.choice("want", [("key",), (T,), ("key", T), (T, N), ("value", "value"), ()])
    i = idx + n if idx < 0 else idx
    if i < 0 or i > n - len(want): w = False
    else:
        w = True
        for j, x in enumerate(want):
            for m, y in enumerate(kinds):
                if m == i + j and y != x: w = False
    sx.check(bool(l.peek(idx, *want)) == w, "peek")
    return [exp, w]


def harnesses(tier):
    q = tier == "quick"
    n = 4 if q else 5
    L = list(LANGS)
    return [
        H("direct", direct, [dict(lang=l, n=m) for l in L for m in range(0, n + 1)], split=6, eager_ok=lambda c: c["n"] <= 3,
          bounds="4 languages (nested contexts, consume, default targets, two languages with a derived lexicon), texts of up to %d characters, every subset of transform methods, with and without untransformed contexts" % n),
        H("update", update, [dict(lang=l, n=m, edits=1, removed=1, added=1) for l in L for m in range(0, n)] + [dict(lang=l, n=2, edits=2, removed=1, added=1) for l in L], split=7, eager_ok=lambda c: c["n"] <= 1,
          bounds="texts of up to %d characters, every edit that removes and inserts up to 1 character; for texts of 2 characters also two edits" % (n - 1)),
        H("itemlist", itemlist, [dict(n=m) for m in range(0, 4)], split=5, bounds="lists of up to 3 items and tokens"),
    ]
