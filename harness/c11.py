"""C11: text operations touch only their region and do what they say."""
import re
from vp.ctx import H
from parce.document import Document, Cursor

ASSUMPTIONS = [
    "a region is given as a Python slice: negative numbers count from the end, numbers beyond the end are clipped",
    "translate: of several keys that match at the same place the longest wins (keys are plain words)",
]
WS = " \ta\n"


def bound(sx, name, n, neg=False):
    return sx.int(name, -n - 1 if neg else 0, n + 1)


def norm(p, n, default):
    if p is None: return default
    if p < 0: p = p + n
    if p < 0: return 0
    if p > n: return n
    return p


def region(sx, n, how):
    """(start, end) arguments and their meaning."""
    if how == "all": return 0, None, 0, n
    if how == "open":
        s = bound(sx, "s", n, True); e = None
    elif how == "neg":
        s = bound(sx, "s", n, True); e = bound(sx, "e", n, True)
    else:
        s = bound(sx, "s", n); e = bound(sx, "e", n)
    a = norm(s, n, 0); b = norm(e, n, n)
    if b < a: b = a
    return s, e, a, b


def finish(sx, d, t, a, b, mid, label):
    sx.check(d.text()[:a] == t[:a], label + ": text before the region changed")
    sx.check(d.text()[len(d) - (len(t) - b):] == t[b:], label + ": text after the region changed")
    sx.check(d.text() == t[:a] + mid + t[b:], label)
    return d.text()


def replace(sx, n, k, new, how):
    t = sx.str("t", n, "ab")
    d = Document(t)
    old = sx.str("old", k, "ab")
    s, e, a, b = region(sx, n, how)
    count = sx.int("count", 0, 2)
    d.replace(old, new, s, e, count)
    mid = t[a:b].replace(old, new, -1 if count == 0 else count)
    return finish(sx, d, t, a, b, mid, "replace")


PATTERNS = [
    (r"a+", "x", 0), (r"(a)(b)?", r"[\2\1]", 0), (r"b*", "-", 0), (r"^a", "", re.MULTILINE),
    (r"\ba", r"<\g<0>>", 0), (r"(?=a)|a", "y", 0), (r"A|\n", lambda m: m.group() * 2, re.IGNORECASE), (r"a$", "z", 0),
]


def sub(sx, n, pat, how):
    t = sx.str("t", n, "ab\n")
    d = Document(t)
    p, r, fl = PATTERNS[pat]
    s, e, a, b = region(sx, n, how)
    count = sx.int("count", 0, 2)
    if pat % 2: d.re_sub(p, r, s, e, count, fl)
    else: d.re_sub(re.compile(p, fl), r, s, e, count)
    mid = re.compile(p, fl).sub(r, t[a:b], count)
    return finish(sx, d, t, a, b, mid, "re_sub " + p)


def trim(sx, n, how):
    t = sx.str("t", n, WS)
    d = Document(t)
    s, e, a, b = region(sx, n, how)
    d.trim(s, e)
    mid = "\n".join([l.rstrip(" \t") for l in t[a:b].split("\n")])
    return finish(sx, d, t, a, b, mid, "trim")


MAPS = [
    {"a": "b", "b": "a"}, {"a": "x", "ab": "y", "abb": ""}, {"b": "1", "ba": "2", "aba": "3", "aab": "4"}, {"ab": "", "b ": "q"},
]

def word(c):
    return c == "a" or c == "b"


def translate(sx, n, m, how, whole):
    t = sx.str("t", n, "ab ")
    d = Document(t)
    mapping = MAPS[m]
    s, e, a, b = region(sx, n, how)
    count = sx.int("count", 0, 2)
    d.translate(mapping, s, e, count, whole)
    x = t[a:b]
    keys = sorted(mapping, key=len, reverse=True)
    out = ""
    i = done = 0
    while i < len(x):
        hit = None
        if not (count > 0 and done == count):
            for k in keys:
                if x[i:i+len(k)] == k:
                    j = i + len(k)
                    if whole and not (boundary(x, i) and boundary(x, j)): continue
                    hit = k
                    break
        if hit is None:
            out = out + x[i:i+1]; i += 1
        else:
            out = out + mapping[hit]; i += len(hit); done += 1
    return finish(sx, d, t, a, b, out, "translate")


def boundary(x, i):
    left = word(x[i-1:i]) if i > 0 else False
    right = word(x[i:i+1]) if i < len(x) else False
    return bool(left) != bool(right)


def cursor(sx, n, chars):
    t = sx.str("t", n, WS)
    d = Document(t)
    p = sx.int("p", 0, n); e = sx.int("e", 0, n + 2)
    sx.assume(p <= e)
    if e == n + 2: e = None
    full = t[p:e]
    how = sx.choice("how", ["lstrip", "rstrip", "strip"])
    c = Cursor(d, p, e)
    r = getattr(c, how)(chars)
    sx.check(r is c, "returns the cursor")
    sx.check(d.text() == t, "text changed")
    if how == "lstrip": exp = full.lstrip(chars)
    elif how == "rstrip": exp = full.rstrip(chars)
    else: exp = full.strip(chars)
    sx.check(c.text() == exp, "selection after " + how)
    # it is the same occurrence, not equal text somewhere else
    if how == "rstrip": sx.check(c.pos == p, "rstrip moved the start")
    if how == "lstrip":
        sx.check(c.pos == p + len(full) - len(exp), "lstrip start")
        sx.check((c.end is None) if e is None else c.end == e, "lstrip moved the end")
    if how != "lstrip" and len(exp) < len(full.lstrip(chars)):
        sx.check(c.end == c.pos + len(exp), how + " end")
    return c.pos, c.end


def harnesses(tier):
    q = tier == "quick"
    N = 4 if q else 6
    hows = ["all", "pos", "neg", "open"]
    small = lambda c: c["n"] <= 3
    return [
        H("replace", replace, [dict(n=n, k=k, new=new, how=h) for n in range(N + 1) for k in (0, 1, 2) for new in ("", "b", "abc") for h in hows if n >= 3 or h != "open"],
          bounds="texts <=%d over {a,b}, searched text <=2, every region and count 0..2" % N, fuel=3000, split=5, eager_ok=small),
        H("re_sub", sub, [dict(n=n, pat=p, how=h) for n in range(N + 1) for p in range(len(PATTERNS)) for h in hows if n >= 3 or h != "open"],
          bounds="texts <=%d over {a,b,newline}, %d patterns, every region and count 0..2" % (N, len(PATTERNS)), split=5, eager_ok=small),
        H("trim", trim, [dict(n=n, how=h) for n in range(N + 2) for h in hows], bounds="texts <=%d over {space,tab,a,newline}, every region" % (N + 1), split=5, eager_ok=small),
        H("translate", translate, [dict(n=n, m=m, how=h, whole=w) for n in range(N + 1) for m in range(len(MAPS)) for h in ("all", "neg") for w in (False, True)],
          bounds="texts <=%d over {a,b,space}, %d mappings, every region and count 0..2" % (N, len(MAPS)), split=5, eager_ok=small),
        H("cursor", cursor, [dict(n=n, chars=c) for n in range(N + 1) for c in (None, "a", " a")], bounds="texts <=%d, every selection" % N, split=5, eager_ok=small),
    ]
