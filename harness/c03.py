"""C03: targets move the context stack exactly as documented."""
from vp.ctx import H
from parce.target import Target, TargetFactory
from parce.lexer import Lexer
from parce.rule import TEXT, target as rule_target, dselect, derive
from harness.langlib import *

ASSUMPTIONS = ["lexicons are opaque objects for targets"]


class Lx:
    """Stands for a lexicon."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name

LX = [Lx("A"), Lx("B"), Lx("C")]
BASE = 9                        # depth of the starting stack


def apply(stack, pop, push):
    """Follow a target: leave -pop lexicons, enter the pushed ones."""
    stack = list(stack)
    for _ in range(-pop): stack.pop()
    stack.extend(push)
    return stack


def stacks_equal(sx, a, b, label):
    sx.check(len(a) == len(b) and all(x is y for x, y in zip(a, b)), label)


def accumulate(sx, k, gets):
    """Any sequence of push, pop, add and get."""
    f = TargetFactory()
    base = [Lx("s%d" % i) for i in range(BASE)]
    stack = list(base)          # after following every operation on its own
    seen = list(base)           # after following the targets that came out
    for i in range(k):
        op = sx.choice("op%d" % i, ["push", "pop", "add", "get"] if gets else ["push", "pop", "add"])
        if op == "push":
            n = sx.choice("n%d" % i, [0, 1, 2])
            l = [LX[(i + j) % 3] for j in range(n)]
            f.push(*l)
            stack = apply(stack, 0, l)
        elif op == "pop":
            p = sx.choice("p%d" % i, [0, -1, -2])
            if p == -1 and i % 2: f.pop()
            else: f.pop(p)
            stack = apply(stack, p, ())
        elif op == "add":
            p = sx.choice("p%d" % i, [0, -1, -2]); n = sx.choice("n%d" % i, [0, 1, 2])
            l = tuple(LX[(i + j + 1) % 3] for j in range(n))
            f.add(Target(p, l))
            stack = apply(stack, p, l)
        else:
            seen = finish(sx, f, seen, stack, base)
    seen = finish(sx, f, seen, stack, base)
    sx.check(f.get() is None, "factory not empty after get")
    return [repr(x) for x in seen]


def finish(sx, f, seen, stack, base):
    t = f.get()
    if t is not None:
        sx.check(t.pop <= 0 and isinstance(t.push, tuple), "shape of a target")
        sx.check(t.pop or t.push, "target that does nothing")
        sx.check(-t.pop <= len(seen), "target leaves more than there is")
        if -t.pop <= len(seen): seen = apply(seen, t.pop, t.push)
    # equal stacks; a pop and push of the same depth are not the same lexicon occurrence
    stacks_equal(sx, seen, stack, "stack after accumulated target")
    return seen


def add_none(sx):
    f = TargetFactory()
    f.add(None)
    sx.check(f.get() is None, "adding no target")
    f.push(LX[0]); f.add(None)
    sx.check(f.get() == Target(0, (LX[0],)), "adding no target to something")
    return None


def rule_make(sx, k):
    """Target of the items of a rule: negative pops, positive pushes the current lexicon, lexicons are pushed."""
    items = []
    for i in range(k):
        items.append(sx.choice("i%d" % i, [-2, -1, 0, 1, 2, LX[0], LX[1]]))
    cur = Lx("cur")
    base = [Lx("s%d" % i) for i in range(BASE)] + [cur]
    t = TargetFactory.make(cur, items)
    stack = list(base)
    for x in items:
        if isinstance(x, int):
            if x < 0: stack = apply(stack, x, ())
            else: stack = apply(stack, 0, [cur] * x)
        else: stack = apply(stack, 0, (x,))
    got = list(base)
    if t is not None:
        sx.check(t.pop <= 0 and -t.pop < len(base), "pop")
        got = apply(got, t.pop, t.push)
    stacks_equal(sx, got, stack, "stack after the target of a rule")
    return [repr(x) for x in got]


_made = {}
def lexing(sx, k, n, depth):
    """The lexer's own stack, the folded event targets and the rule agree, for rules with any target."""
    ts = [-3, -2, -1, 1, 2, "one", "eat"]
    items = tuple(sx.choice("i%d" % i, ts) for i in range(k))
    key = items
    if key not in _made:
        _made[key] = make("M", Lex("root", ("a", act.Text, "one"), ("b", act.Name, *items), ("c", act.String)),
            Lex("one", ("a", act.Text, "one"), ("b", act.Name, *items), ("c", act.String)),
            Lex("eat", ("a", act.Text, "one"), ("b", act.Name, *items), ("c", act.String), consume=True))
    L = _made[key]
    text = "a" * depth + sx.str("text", n, "abc")
    lexer = Lexer([L.root])
    events = list(lexer.events(text))
    ref, stack = ref_lex(L, "root", text)
    got = fold(L.root, events)
    sx.check(len(got) == len(ref), "number of tokens")
    for (st, lx), (rst, rlx) in zip(got, ref):
        sx.check([l.name for l in st] == rst, "stack of a token")
    sx.check([l.name for l in lexer.lexicons] == stack, "stack at the end")
    sx.check(lexer.lexicons[0] is L.root, "root left")
    for e in events:
        if e.target:
            sx.check(e.target.pop <= 0 and (e.target.pop or e.target.push), "target of an event")
    return [[l.name for l in st] for st, lx in got]


class Dyn(Language):
    """Targets that depend on the text."""
    @lexicon
    def root(cls):
        yield "[a-d]", act.Text, dselect(TEXT, {"a": cls.one, "b": (-1, cls.one), "c": -1, "d": (cls.one, cls.two)})
        yield "[e-h]", act.Name, rule_target(call_index(), cls.one, cls.two)
    @lexicon
    def one(cls):
        yield from cls.root
    @lexicon
    def two(cls):
        yield from cls.root

def call_index():
    from parce.rule import call
    return call(tindex, TEXT)

def tindex(t):
    """An integer is a target itself, a pair selects a lexicon and gives an argument."""
    if t == "e": return -1
    if t == "f": return 0, None
    if t == "g": return 1, "x"
    return 2


def dynamic(sx, n):
    text = sx.str("text", n, "abcdefgh")
    lexer = Lexer([Dyn.root])
    events = list(lexer.events(text))
    got = fold(Dyn.root, events)
    stack = [Dyn.root]
    sx.check(len(got) == n, "number of tokens")
    for i in range(n):
        st, lx = got[i]
        sx.check(len(st) == len(stack) and all(a is b for a, b in zip(st, stack)), "stack of a token")
        c = text[i]
        one, two = Dyn.one, Dyn.two
        if c == "a": stack = stack + [one]
        elif c == "b": stack = stack[:max(1, len(stack) - 1)] + [one]
        elif c == "c": stack = stack[:max(1, len(stack) - 1)]
        elif c == "d": stack = stack + [one, two]
        elif c == "e": stack = stack[:max(1, len(stack) - 1)]
        elif c == "f": stack = stack + [one]
        elif c == "g": stack = stack + [two("x")]
        else: stack = stack + [stack[-1]] * 2
    sx.check(len(lexer.lexicons) == len(stack) and all(a is b for a, b in zip(lexer.lexicons, stack)), "stack at the end")
    return [l.name for l in stack]


def harnesses(tier):
    q = tier == "quick"
    k = 4 if q else 5
    return [
        H("accumulate", accumulate, [dict(k=i, gets=g) for i in range(1, k + 1) for g in ((True,) if i < k else (False, True))], split=8, fuel=400000,
          eager_ok=lambda c: c["k"] <= 3, bounds="every sequence of up to %d push/pop/add/get operations, pops up to -2, pushes of up to 2 lexicons" % k),
        H("add_none", add_none, bounds="none"),
        H("rule_make", rule_make, [dict(k=i) for i in range(k + 1)], split=6, eager_ok=lambda c: c["k"] <= 4, bounds="every rule target of up to %d items" % k),
        H("lexing", lexing, [dict(k=i, n=m, depth=d) for i in (1, 2) for m in ((3,) if q else (2, 4)) for d in (0, 1, 2)], split=5, eager_ok=lambda c: c["n"] <= 3,
          bounds="every rule target of 1 or 2 items; texts of 3 characters after 0-2 opened contexts"),
        H("dynamic", dynamic, [dict(n=m) for m in range(1, 4 if q else 5)], split=4, eager_ok=lambda c: c["n"] <= 3, bounds="text dependent targets; texts of up to %d characters" % (3 if q else 4)),
    ]
