"""C07: a batch of edits replaces all regions simultaneously or not at all."""
from vp.ctx import H
from parce.mutablestring import MutableString
from parce.document import Document

ASSUMPTIONS = [
    "text and replacement texts are opaque character sequences of arbitrary length (uninterpreted functions of the index)",
    "edits starting at the same position: at most one of them removes text (the order-of-issue join is checked; two removals from one start are outside the claim)",
]


class Rec(MutableString):
    def __init__(self, text):
        super().__init__(text)
        self.log = []
    def text_changed(self, position, removed, added):
        self.log.append((position, removed, added))


class RecDoc(Document):
    def __init__(self, text):
        super().__init__(text)
        self.log = []
        self.connect("text_change", self._tc)
    def _tc(self, position, removed, added):
        self.log.append((position, removed, added))


def norm(a, b, n):
    """Documented Python slice meaning of [a:b] on a text of length n."""
    if a is None: a = 0
    elif a < 0: a = max(a + n, 0)
    else: a = min(a, n)
    if b is None: b = n
    elif b < 0: b = max(b + n, 0)
    else: b = min(b, n)
    return a, max(a, b)


def expected(t, edits):
    """edits: normalised (a, b, text) sorted by a with order of issue kept."""
    out = ""
    pos = 0
    groups = []
    for a, b, r in edits:
        if groups and groups[-1][0] == a:
            g = groups[-1]
            groups[-1] = (a, max(g[1], b), g[2] + r)
        else:
            groups.append((a, b, r))
    for a, b, r in groups:
        out = out + t[pos:a] + r
        pos = b
    return out + t[pos:], groups


def isort(items):
    """Stable insertion sort by first element."""
    out = []
    for x in items:
        i = len(out)
        while i > 0 and x[0] < out[i-1][0]:
            i -= 1
        out.insert(i, x)
    return out


def mk(kind, t):
    return Rec(t) if kind == "string" else RecDoc(t)


def text_of(sx, name, lens):
    """Opaque text; bounded length when inputs must be concrete."""
    if sx.eager and sx.symbolic:
        n = sx.choice(name + ".n", lens)
        return sx.const(name, {"t": "abcdef", "r": "RSTU", "s": "xy"}[name[0]][:n])
    return sx.text(name)


def batch(sx, kind, k, negative=False):
    t = text_of(sx, "t", [0, 3])
    n = len(t)
    d = mk(kind, t)
    edits = []
    for i in range(k):
        lo, hi = (None, None) if not sx.eager else (0, 3)
        a = sx.int("a%d" % i, lo, hi); b = sx.int("b%d" % i, lo, hi)
        if not negative:
            sx.assume(a >= 0); sx.assume(b >= 0)
            if k >= 3:
                sx.assume(sx.all(a <= b, b <= n))
                for e in edits: sx.assume(a != e[0])
        r = text_of(sx, "r%d" % i, [0, 2])
        edits.append((a, b, r))
    nn = [norm(a, b, n) + (r,) for a, b, r in edits]
    ss = isort(nn)
    overlap = False
    for i in range(k):
        for j in range(i + 1, k):
            x, y = ss[i], ss[j]
            if x[0] == y[0]:
                # same start: at most one removal, no edit that changes nothing
                sx.assume(sx.any(x[1] == x[0], y[1] == y[0]))
                sx.assume(len(x[2]) != x[1] - x[0]); sx.assume(len(y[2]) != y[1] - y[0])
            elif y[0] < x[1]:
                overlap = True
                sx.assume(len(x[2]) != x[1] - x[0]); sx.assume(len(y[2]) != y[1] - y[0])
    if overlap:
        raised = False
        try:
            with d:
                for a, b, r in edits:
                    d[a:b] = r
        except RuntimeError:
            raised = True
        sx.check(raised, "overlapping edits are not signalled")
        sx.same_text(d.text(), t, "text changed although the batch was rejected")
        sx.check(not d.log, "change notification for a rejected batch")
        # later edits work
        d[0:0] = "xy"
        sx.same_text(d.text(), "xy" + t, "document unusable after a rejected batch")
        return "overlap"
    with d:
        for a, b, r in edits:
            d[a:b] = r
        sx.same_text(d.text(), t, "text changed before the block was left")
    exp, groups = expected(t, ss)
    sx.same_text(d.text(), exp, "result differs from simultaneous replacement")
    sx.check(len(d.log) <= 1, "more than one notification")
    if d.log and k < 3:
        p, rem, add = d.log[0]
        new = d.text()
        sx.check(sx.all(p >= 0, rem >= 0, add >= 0, p + rem <= n, p + add <= len(new)), "notified region out of range")
        sx.check(len(new) == n - rem + add, "notified sizes wrong")
        sx.same_text(new[:p], t[:p], "text before the notified region changed")
        sx.same_text(new[p+add:], t[p+rem:], "text after the notified region changed")
        return ("edited", p, rem, add, len(new))
    elif not d.log:
        sx.same_text(d.text(), t, "text changed without notification")
    return ("same", len(d.text()))


def nested(sx, kind, how):
    """Nested blocks, exceptions inside a block, immediate edits, append/insert/+=."""
    t = text_of(sx, "t", [0, 2, 3])
    n = len(t)
    d = mk(kind, t)
    r = text_of(sx, "r", [0, 1, 2]); s = text_of(sx, "s", [0, 1])
    a = sx.int("a", 0, 4 if sx.eager else None)
    b = sx.int("b", 0, 4 if sx.eager else None)
    sx.assume(a < b); sx.assume(b <= n)
    if how == "nested":
        with d:
            with d:
                d[a:b] = r
            sx.same_text(d.text(), t, "text changed when only the inner block was left")
            d.insert(n, s)
        exp = t[:a] + r + t[b:] + s if True else None
        if b == n and len(r) == b - a:
            # an edit that changes nothing may be dropped
            pass
        sx.same_text(d.text(), exp, "nested blocks")
    elif how == "exception":
        class E(Exception): pass
        try:
            with d:
                d[a:b] = r
                with d:
                    d.append(s)
                    raise E()
        except E:
            pass
        sx.same_text(d.text(), t, "edits of an aborted block were applied")
        sx.check(not d.log, "notification for an aborted block")
        d.append("z")
        sx.same_text(d.text(), t + "z", "document unusable after an aborted block")
    elif how == "handled":
        # the exception is handled in the outer block: that remains one block
        class E(Exception): pass
        boom = sx.choice("boom", [False, True])
        try:
            with d:
                try:
                    with d:
                        d.append(s)
                        raise E()
                except E:
                    pass
                d[a:b] = r
                sx.same_text(d.text(), t, "text changed inside the outer block")
                d.insert(n, s)
                sx.same_text(d.text(), t, "text changed inside the outer block")
                if boom: raise E()
        except E:
            pass
        exp = t if boom else t[:a] + r + t[b:] + s
        sx.same_text(d.text(), exp, "edits after a handled exception in a nested block")
        d.append("z")
        sx.same_text(d.text(), exp + "z", "document unusable after a handled exception")
    elif how == "immediate":
        d[a:b] = r
        sx.same_text(d.text(), t[:a] + r + t[b:], "immediate edit")
        d += s
        sx.same_text(d.text(), t[:a] + r + t[b:] + s, "append")
        d.insert(a, s)
        sx.same_text(d.text(), t[:a] + s + r + t[b:] + s, "insert")
        del d[:a]
        sx.same_text(d.text(), s + r + t[b:] + s, "delete")
    elif how == "item":
        d[a] = r
        sx.same_text(d.text(), t[:a] + r + t[a+1:], "single character edit")
        e = t[:a] + r + t[a+1:]
        if len(e) == 0: return 0
        del d[len(d) - 1]
        sx.same_text(d.text(), e[:len(e)-1], "single character delete")
    elif how == "negitem":
        d[b - n - 1] = r         # same as d[b - 1]
        sx.same_text(d.text(), t[:b-1] + r + t[b:], "negative index edit")
        m = len(d)
        for bad in (m, -m - 1):
            ok = False
            try: d[bad] = "x"
            except IndexError: ok = True
            sx.check(ok, "index out of range accepted")
        sx.same_text(d.text(), t[:b-1] + r + t[b:], "rejected index changed the text")
    elif how == "set_text":
        d.set_text(r)
        sx.same_text(d.text(), r, "set_text")
        bad = False
        try:
            with d:
                d.set_text(s)
        except RuntimeError:
            bad = True
        sx.check(bad, "set_text allowed in a block")
        sx.same_text(d.text(), r, "set_text in a block changed the text")
    elif how == "read":
        sx.same_text(d[a:b], t[a:b], "slice")
        sx.same_text(d[:b], t[:b], "slice"); sx.same_text(d[a:], t[a:], "slice"); sx.same_text(d[:], t, "slice")
        sx.same_text(d[b:a], "", "empty slice")
        sx.same_text(d[a - n:], t[a - n:], "negative slice") if a < n else None
        sx.same_text(d[a], t[a:a+1], "item")
        sx.same_text(d + s, t + s, "add"); sx.same_text(s + d, s + t, "radd")
        sx.check(len(d) == n, "len")
    return len(d.text())


def harnesses(tier):
    ks = [(kind, k) for kind in ("string", "document") for k in (1, 2)] + [("string", 3)]
    if tier == "thorough": ks += [("document", 3), ("string", 4)]
    return [
        H("batch", batch, [dict(kind=kind, k=k) for kind, k in ks], split=6, eager_ok=lambda c: c["k"] <= 2,
          bounds="%s edits per block; text length, positions and replacement lengths unbounded; any order of issue" % ("<=4" if tier == "thorough" else "<=3")),
        H("batch-negative", batch, [dict(kind=kind, k=k, negative=True) for kind in ("string", "document") for k in ((1, 2) if tier == "thorough" else (1,))], split=6,
          bounds="slice ends any integer (negative counts from the end)"),
        H("ways", nested, [dict(kind=kind, how=h) for kind in ("string", "document") for h in ("nested", "exception", "handled", "immediate", "item", "negitem", "set_text", "read")],
          bounds="one or two edits through each editing entry point, unbounded lengths and positions"),
    ]
