"""C17: standard actions form a consistent hierarchy."""
from vp.ctx import H
import copy
import parce.action
from parce import standardaction
from parce.standardaction import StandardAction

ASSUMPTIONS = ["names that start with an underscore are reserved (documented)"]


def same_path(p, q):
    if len(p) != len(q): return False
    for a, b in zip(p, q):
        if not a == b: return False
    return True


def relations(sx, x, px, y, py):
    """The relations between two actions follow from their paths of names."""
    k = 0
    while k < len(px) and k < len(py) and px[k] == py[k]: k += 1
    sx.check((x is y) == (k == len(px) and k == len(py)), "identity")
    sx.check((y in x) == (k == len(px)), "membership")
    sx.check((x in y) == (k == len(py)), "membership (reversed)")
    common = x & y
    if k == 0: sx.check(common is None, "common ancestor of unrelated actions")
    else:
        anc = list(x)[len(px) - k]
        sx.check(common is anc, "common ancestor")
    sx.check((y & x) is common, "common ancestor (reversed)")
    sx.check((x == y) == (x is y), "equality")


def alone(sx, x, px):
    l = list(x)
    sx.check(len(l) == len(px) and l[0] is x, "iteration")
    for a, n in zip(l, px[::-1]): sx.check(a._name == n, "names of the ancestors")
    for a, b in zip(l, l[1:]): sx.check(a._parent is b, "parents")
    sx.check(l[-1]._parent is None, "parent of a toplevel action")
    for n in px: sx.check(n in x, "name in action")
    sx.check((x & x) is x, "common ancestor with itself")
    sx.check(x in x, "membership in itself")
    sx.check(copy.copy(x) is x and copy.deepcopy(x) is x, "copies")


def pair(sx, a, b):
    """Two actions, created one after the other with symbolic names."""
    acts = []
    for i, n in enumerate((a, b)):
        path = [sx.str("n%d%d" % (i, j), 1, "PQ") for j in range(n)]
        attr = sx.choice("attr%d" % i, [False, True])
        x = StandardAction(path[0])
        for name in path[1:]:
            x = x.__getattr__(name) if attr and name not in x.__dict__ else StandardAction(name, x)
        acts.append((x, path))
    (x, px), (y, py) = acts
    alone(sx, x, px); alone(sx, y, py)
    relations(sx, x, px, y, py)
    other = sx.str("other", 1, "PQR")
    sx.check((other in x) == any(other == n for n in px), "name in action")
    # creating it again gives the same object
    z = StandardAction(px[0])
    for n in px[1:]: z = StandardAction(n, z)
    sx.check(z is x, "created again")
    return [px, py]


def attributes(sx, names):
    """Attribute access creates children once; underscore names are refused."""
    x = StandardAction("VpTop")
    n1 = sx.choice("n1", names); n2 = sx.choice("n2", names)
    a = getattr(x, n1); b = getattr(x, n2)
    sx.check((a is b) == (n1 == n2), "identity of attributes")
    sx.check(a._parent is x and a._name == n1, "child")
    sx.check(getattr(x, n1) is a and StandardAction(n1, x) is a, "created again")
    sx.check(repr(a) == "VpTop." + n1 and repr(x) == "VpTop", "repr")
    sx.check(getattr(a, n2) is not b, "same name below another parent")
    sx.check(repr(getattr(a, n2)) == "VpTop." + n1 + "." + n2, "repr")
    try: getattr(x, "_" + n1)
    except AttributeError: bad = False
    else: bad = True
    sx.check(not bad, "underscore attribute")
    return [n1, n2]


TOP = "Text Whitespace Keyword Delimiter Name Literal Comment Alert Important Unimportant Special Definition Invalid Escape Template Pseudo Preprocessed Inserted Deleted Quoted Bold Emphasized Start End Indent Dedent".split()
SUB = dict(Data="Literal.Data", Verbatim="Literal.Verbatim", String="Literal.String", Character="Literal.Character", Number="Literal.Number",
    Connection="Delimiter.Connection", Direction="Delimiter.Direction", Bracket="Delimiter.Bracket", ModeChange="Delimiter.ModeChange",
    Operator="Delimiter.Operator", Quote="Delimiter.Quote", Separator="Delimiter.Separator")


def predefined(sx, group):
    """The documented actions of parce.action."""
    names = TOP + list(SUB)
    n1 = sx.choice("n1", names[group::4]); n2 = sx.choice("n2", names)
    x, y = getattr(parce.action, n1), getattr(parce.action, n2)
    px, py = SUB.get(n1, n1).split("."), SUB.get(n2, n2).split(".")
    alone(sx, x, px)
    relations(sx, x, px, y, py)
    sx.check(repr(x) == ".".join(px), "repr")
    return [n1, n2]


def harnesses(tier):
    q = tier == "quick"
    d = 3 if q else 4
    return [
        H("pair", pair, [dict(a=a, b=b) for a in range(1, d + 1) for b in range(1, d + 1)], split=5, bounds="every two actions with up to %d symbolic names, created by either way" % d),
        H("attributes", attributes, [dict(names=["A", "B", "Cd", "Vp"])], bounds="4 names"),
        H("predefined", predefined, [dict(group=g) for g in range(4)], bounds="every pair of the documented predefined actions"),
    ]
