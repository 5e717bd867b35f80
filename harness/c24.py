"""C24: language lookup returns the best registered match."""
from vp.ctx import H
import fnmatch
import re
from parce.registry import Registry, Entry
import parce.registry

ASSUMPTIONS = [
    "weights are positive integers (scaled); only their order and sums matter",
    "suggest with several criteria: an entry that is at least as good in file name, mime type and contents and better in one comes before the winner never",
    "file names are compared as on POSIX systems (no case folding)",
]


class Reg(Registry):
    """Names instead of imported lexicons."""
    @staticmethod
    def lexicon(qualname): return "<" + qualname + ">"


KEYS = ["m.Ab.root", "m.n.B.root", "k.AB.top", "k.Cc.root"]


def names(sx, n, k, empty=False):
    """An exact name wins, then an alias, then either without regard to case, then the name of the class."""
    r = Reg()
    es = []
    for i in range(k):
        name = sx.str("name%d" % i, n, "aAbB")
        al = [sx.str("alias%d" % i, n, "aAbB")]
        r.add(KEYS[i], name=name, desc="d", aliases=al)
        es.append((KEYS[i], name, al))
    q = sx.str("q", n, "aAbBcC" if n == 2 else "aAbB")
    got = r.qualname(q)
    def cls(key): return key.split(".")[-2]
    best = None
    for test in (lambda e: e[1] == q,
                 lambda e: q in e[2],
                 lambda e: e[1].lower() == q.lower() or q.lower() in [a.lower() for a in e[2]],
                 lambda e: cls(e[0]).lower() == q.lower()):
        for e in es:
            if test(e): best = e[0]; break
        if best is not None: break
    if best is None: sx.check(got is None, "a name nobody has was found")
    else:
        sx.check(got is not None, "a registered name was not found")
        # any entry of the best kind is right
        kinds = []
        for test in (lambda e: e[1] == q, lambda e: q in e[2],
                     lambda e: e[1].lower() == q.lower() or q.lower() in [a.lower() for a in e[2]],
                     lambda e: cls(e[0]).lower() == q.lower()):
            kinds = [e[0] for e in es if test(e)]
            if kinds: break
        sx.check(got in kinds, "an entry with a worse match was returned")
    sx.check(r.find(q) == (None if got is None else "<" + got + ">"), "find by name")
    return got


def entries(sx, k, kind, pats, W):
    """k entries with one weighted pattern (or two) of a kind each."""
    r = Reg(); es = []
    for i in range(k):
        ws = [(p, sx.int("w%d%d" % (i, j), 1, W)) for j, p in enumerate(pats[i])]
        r.add(KEYS[i], name="n%d" % i, desc="d", **{kind: ws})
        es.append((KEYS[i], ws))
    return r, es


def ranked(sx, got, weights, label):
    """got is exactly the entries with a weight, best first."""
    sx.check(len(got) == len(set(got)), label + ": an entry is listed twice")
    for key, w in weights.items():
        if w is None: sx.check(key not in got, label + ": an entry that does not match")
        else: sx.check(key in got, label + ": a matching entry is missing")
    for a, b in zip(got, got[1:]):
        sx.check(weights[a] >= weights[b], label + ": not sorted on weight")


FILES = [["*.a"], ["a.*", "*.a"], ["a*"], ["b.a"]]
def by_file(sx, n, k, W):
    r, es = entries(sx, k, "filenames", FILES, W)
    f = sx.str("f", n, "ab.")
    got = r.suggest(filename=f)
    weights = {}
    for key, ws in es:
        best = None
        for p, w in ws:
            if fnmatch.fnmatch(f, p) and (best is None or w > best): best = w
        weights[key] = best
    ranked(sx, got, weights, "file name")
    sx.check(r.find(filename=f) == ("<" + got[0] + ">" if got else None), "find by file name")
    return got


MIMES = [["a/x"], ["a/y", "a/x"], ["a/y"], ["b/x", "a/x"]]
NEAR = [["a/x"], ["a/x-x", "a/xx"], ["/x"], ["a/X"]]
def by_mime(sx, k, W, near=False):
    r, es = entries(sx, k, "mimetypes", NEAR if near else MIMES, W)
    if near: f = sx.choice("m", ["a/x", "a/xx", "a/x-x", "/x", "a/x-", "a/", "b/a/x", "a/X"])
    else: f = sx.str("m", 1, "abc") + "/" + sx.str("m2", 1, "xyz")
    got = r.suggest(mimetype=f)
    weights = {}
    for key, ws in es:
        best = None
        for p, w in ws:
            if p == f and (best is None or w > best): best = w
        weights[key] = best
    ranked(sx, got, weights, "mime type")
    sx.check(r.find(mimetype=f) == ("<" + got[0] + ">" if got else None), "find by mime type")
    return got


GUESS = [["a"], [r"^b", "ab"], [r"b$", r"c+"], [r"\bc"]]
def by_contents(sx, n, k, W):
    r, es = entries(sx, k, "guesses", GUESS, W)
    t = sx.str("t", n, "abc ")
    got = r.suggest(contents=t)
    weights = {}
    for key, ws in es:
        w = None
        for p, x in ws:
            if re.search(p, t): w = x if w is None else w + x
        weights[key] = w
    ranked(sx, got, weights, "contents")
    sx.check(r.find(contents=t) == ("<" + got[0] + ">" if got else None), "find by contents")
    return got


def beginning(sx, at):
    """The first 5000 characters count, and no others."""
    r = Reg()
    r.add(KEYS[0], name="n", desc="d", guesses=[("x", 1)])
    t = "-" * at + sx.str("t", 3, "x-") + "x"
    got = r.suggest(contents=t)
    sx.check((KEYS[0] in got) == ("x" in t[:5000]), "the part of the contents that is looked at")
    return got


def mixed(sx, k, W):
    """No other entry is better than the winner in all respects."""
    r = Reg(); es = []
    fs = ["f", "g"]; ms = ["m", "n"]; cs = ["c"]
    for i in range(k):
        f = sx.int("f%d" % i, 0, W); m = sx.int("m%d" % i, 0, W); c = sx.int("c%d" % i, 0, W)
        r.add(KEYS[i], name="n%d" % i, desc="d", filenames=[("*.f", f)], mimetypes=[("t/m", m)], guesses=[("c", c)])
        es.append((KEYS[i], f, m, c))
    a = sx.choice("args", [("x.f", "t/m", "c"), ("x.f", None, "c"), (None, "t/m", "c"), ("x.f", "t/m", None), ("x.g", "t/m", "c"), ("x.f", "t/n", "d")])
    got = r.suggest(*a)
    lx = r.find(filename=a[0], mimetype=a[1], contents=a[2])
    sx.check(lx == ("<" + got[0] + ">" if got else None), "find returns the first suggestion")
    def vec(e):
        return (e[1] if a[0] == "x.f" else 0, e[2] if a[1] == "t/m" else 0, e[3] if a[2] == "c" else 0)
    vs = {e[0]: vec(e) for e in es}
    sx.check(len(got) == len(set(got)), "an entry is listed twice")
    for key in got: sx.check(sum(vs[key]) > 0, "an entry that does not match")
    for key, (f, m, c) in vs.items():
        if f > 0 or m > 0: sx.check(key in got, "a matching entry is missing")
    if got:
        w = vs[got[0]]
        for key, v in vs.items():
            worse = sx.all(v[0] >= w[0], v[1] >= w[1], v[2] >= w[2])
            better = sx.any(v[0] > w[0], v[1] > w[1], v[2] > w[2])
            sx.check(not sx.all(worse, better), "an entry that is better in all respects was passed over")
    else:
        for key, v in vs.items(): sx.check(sum(v) == 0, "a matching entry is missing")
    return got


def fallback(sx, k):
    """The first registry of the chain that knows the language answers."""
    regs = []
    has = []
    for i in range(k):
        n = sx.choice("n%d" % i, [0, 1, 2])     # nothing, something else, the language
        r = Reg()
        if n: r.add("m%d.A.root" % i, name="zz", desc="d", filenames=[("z", 1)])
        if n == 2: r.add("r%d.A.root" % i, name="x", desc="d", filenames=[("x", 1)], mimetypes=[("t/x", 1)], guesses=[("x", 1)])
        regs.append(r); has.append(n == 2)
    for a, b in zip(regs, regs[1:]):
        if sx.bool("late"): a.fallback = b
        else: a.fallback = None; a.__init__(b) if not a else setattr(a, "fallback", b)
        break
    for a, b in zip(regs[1:], regs[2:]): a.fallback = b
    how = sx.choice("how", [dict(name="x"), dict(filename="x"), dict(mimetype="t/x"), dict(contents="x"), dict(name="x", filename="z")])
    got = regs[0].find(**how)
    exp = None
    for i in range(k):
        if has[i]: exp = "<r%d.A.root>" % i; break
    sx.check(got == exp, "lookup through fallback registries")
    c = regs[0].copy()
    sx.check(c.find(**how) == exp and c is not regs[0] and dict(c) == dict(regs[0]) and type(c) is Reg, "copy of a registry")
    c.add("c.C.root", name="x", desc="d")
    sx.check("c.C.root" not in regs[0], "copy shares its entries")
    sx.check(regs[0].find(**how) == exp, "copy shares its entries")
    return got


def inherit(sx):
    """An entry that inherits replaces the inherited one and is found under all its names."""
    r = Reg()
    old = dict(name=sx.choice("name", ["o", "oo"]), desc="od", section=sx.choice("s", ["", "os"]), author=sx.choice("a", ["", "oa"]),
        aliases=["ol"], filenames=[("*.o", 1)], mimetypes=[("t/o", 1)], guesses=[("o", 1)])
    r.add("m.O.root", **old)
    new = {}
    for f, opts in (("name", ["n", None]), ("desc", ["nd", ""]), ("section", ["ns", ""]), ("author", ["na", "oa", ""])):
        v = sx.choice("new" + f, opts)
        if v is not None: new[f] = v
    if sx.bool("lists"): new.update(aliases=("nl",), filenames=[("*.n", 1)], mimetypes=[("t/n", 1)], guesses=[("n", 1)])
    same = sx.bool("same")
    key = "m.O.root" if same else "m.N.root"
    r.add(key, inherit="m.O.root", **new)
    sx.check(list(r) == [key], "the inherited entry is replaced")
    e = r[key]
    sx.check(e.name == (new.get("name") or old["name"]) and e.desc == (new.get("desc") or old["desc"]) and e.section == (new.get("section") or old["section"]), "inherited fields")
    au = new.get("author") or old["author"]
    if new.get("author") and old["author"] and new["author"] != old["author"]: au = old["author"] + " + " + new["author"]
    sx.check(e.author == au, "author")
    q = [dict(name="ol"), dict(filename="x.o"), dict(mimetype="t/o"), dict(contents="o")]
    if "aliases" in new: q += [dict(name="nl"), dict(filename="x.n"), dict(mimetype="t/n"), dict(contents="n")]
    for a in q: sx.check(r.find(**a) == "<" + key + ">", "found under old and new names")
    for a in (dict(name="qq"), dict(filename="x.q"), dict(mimetype="t/q"), dict(contents="q")): sx.check(r.find(**a) is None, "found under a wrong name")
    for bad in (dict(desc="d"), dict(name="x")):
        try: r.add("a.b.c", **bad); sx.check(False, "name and desc are required")
        except ValueError: pass
    try: r.add("a.b.c", inherit="nope.x.y"); sx.check(False, "unknown entry inherited")
    except KeyError: pass
    sx.check(list(r) == [key], "failed additions leave nothing behind")
    b = r.by_section()
    sx.check(b == {e.section: {key: e}}, "by_section")
    return list(e[:4])


def bundled(sx):
    """Every bundled language is found under its names and its lexicon can be imported."""
    reg = parce.registry.registry
    keys = sorted(reg)
    key = keys[sx.fixed(sx.int("i", 0, len(keys) - 1))]
    e = reg[key]
    lx = Registry.lexicon(key)
    sx.check(lx.language.__name__ == key.split(".")[-2] and lx.name == key.split(".")[-1], "lexicon of a qualified name")
    sx.check(reg.qualname(e.name) == key, "by its name")
    sx.check(reg.find(e.name) is lx, "find by its name")
    for a in e.aliases: sx.check(reg.find(a) is not None, "an alias is not found")
    for m, w in e.mimetypes: sx.check(key in reg.suggest(mimetype=m), "a mime type is not suggested")
    for f, w in e.filenames:
        if not re.search(r"[*?\[]", f): sx.check(key in reg.suggest(filename=f), "a file name is not suggested")
        elif f.startswith("*") and not re.search(r"[*?\[]", f[1:]): sx.check(key in reg.suggest(filename="x" + f[1:]), "a file name is not suggested")
    return key


def harnesses(tier):
    q = tier == "quick"
    F = 4 if q else 6
    return [
        H("names", names, [dict(n=1, k=k) for k in (0, 1, 2, 3)] + [dict(n=2, k=k) for k in ((1, 2) if q else (1, 2, 3))],
          bounds="0-3 entries, names and aliases of 1-2 characters over {a,A,b,B}", split=6, eager_ok=lambda c: c["n"] == 1 and c["k"] <= 2),
        H("by_file", by_file, [dict(n=n, k=k, W=4) for n in range(1, F + 1) for k in (2, 3, 4)], bounds="2-4 entries, every weight 1..4, file names <=%d over {a,b,.}" % F, split=6, eager_ok=lambda c: c["n"] <= 3 and c["k"] <= 2),
        H("by_mime", by_mime, [dict(k=k, W=4) for k in (2, 3, 4)] + [dict(k=4, W=2, near=True)], bounds="2-4 entries, every weight 1..4; mime types that are part of each other", split=6, eager_ok=lambda c: c["k"] <= 2),
        H("by_contents", by_contents, [dict(n=n, k=k, W=4) for n in range(1, F + 1) for k in (2, 3, 4)], bounds="2-4 entries, every weight 1..4, contents <=%d" % F, split=6, eager_ok=lambda c: c["n"] <= 3 and c["k"] <= 2),
        H("beginning", beginning, [dict(at=a) for a in (0, 4000, 4996, 4997, 4998, 4999, 5000, 9000)], bounds="contents around 5000 characters", split=3),
        H("mixed", mixed, [dict(k=k, W=3) for k in ((1, 2, 3) if q else (1, 2, 3, 4))], bounds="<=%d entries with every file name, mime type and contents weight 0..3" % (3 if q else 4), split=7, eager_ok=lambda c: c["k"] <= 2),
        H("fallback", fallback, [dict(k=k) for k in ((1, 2, 3) if q else (1, 2, 3, 4))], bounds="chains of 1-3 registries", split=5),
        H("inherit", inherit, [{}], bounds="every combination of given and inherited fields", split=5),
        H("bundled", bundled, [{}], bounds="every bundled language", split=3),
    ]
