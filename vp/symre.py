"""Symbolic execution of Python regular expressions: a backtracking matcher
over the parse tree of the real `re` module; tests on symbolic characters fork."""
import re
import re._parser as sre_parse
from re._constants import (
    LITERAL, NOT_LITERAL, ANY, ANY_ALL, IN, NEGATE, RANGE, CATEGORY, BRANCH, SUBPATTERN,
    MAX_REPEAT, MIN_REPEAT, POSSESSIVE_REPEAT, AT, ASSERT, ASSERT_NOT, GROUPREF,
    GROUPREF_EXISTS, ATOMIC_GROUP, MAXREPEAT, FAILURE,
    AT_BEGINNING, AT_BEGINNING_STRING, AT_END, AT_END_STRING, AT_BOUNDARY, AT_NON_BOUNDARY,
    CATEGORY_DIGIT, CATEGORY_NOT_DIGIT, CATEGORY_SPACE, CATEGORY_NOT_SPACE, CATEGORY_WORD, CATEGORY_NOT_WORD)
from .sym import *
from .sym import char_test, char_eq, sand, sor, decide, str_chars, mkstr, realize, is_sym, SymStr, norm_index
from . import core

_trees = {}
def tree(pat):
    k = (pat.pattern, pat.flags)
    t = _trees.get(k)
    if t is None:
        fl = pat.flags
        # inline global flags are part of the pattern already
        t = _trees[k] = sre_parse.parse(pat.pattern, fl & ~re.DEBUG)
    return t

_catpat = {CATEGORY_DIGIT: r"\d", CATEGORY_NOT_DIGIT: r"\D", CATEGORY_SPACE: r"\s",
           CATEGORY_NOT_SPACE: r"\S", CATEGORY_WORD: r"\w", CATEGORY_NOT_WORD: r"\W"}

def _cat(cat, cp, flags):
    return re.match(_catpat[cat], chr(cp), flags & re.ASCII) is not None

def _variants(cp, flags):
    c = chr(cp)
    vs = {cp}
    for v in (c.lower(), c.upper()):
        if len(v) == 1: vs.add(ord(v))
    return vs

_testmemo = {}
def test_for(op, av, flags):
    """(key, predicate on code points) for a single-character item."""
    key = (op, repr(av), flags & (re.IGNORECASE | re.ASCII | re.DOTALL))
    r = _testmemo.get(key)
    if r is None:
        ic = flags & re.IGNORECASE
        if op is LITERAL: base = lambda c: c == av
        elif op is NOT_LITERAL: base = lambda c: c == av
        elif op is ANY: base = (lambda c: True) if flags & re.DOTALL else (lambda c: c != 10)
        elif op is ANY_ALL: base = lambda c: True
        elif op is IN:
            def base(c):
                for o, a in av:
                    if o is NEGATE: continue
                    if o is LITERAL:
                        if c == a: return True
                    elif o is RANGE:
                        if a[0] <= c <= a[1]: return True
                    elif o is CATEGORY:
                        if _cat(a, c, flags): return True
                    else: raise core.Inconclusive("regex set item %s" % o)
                return False
        else: raise core.Inconclusive("regex op %s" % op)
        neg = op is NOT_LITERAL or (op is IN and av and av[0][0] is NEGATE)
        def pred(c):
            r = any(base(v) for v in _variants(c, flags)) if ic and op in (LITERAL, NOT_LITERAL, IN) else base(c)
            return r != neg
        memo = {}
        def mpred(c):
            v = memo.get(c)
            if v is None: v = memo[c] = pred(c)
            return v
        r = _testmemo[key] = (key, mpred)
    return r

SINGLE = (LITERAL, NOT_LITERAL, ANY, ANY_ALL, IN)


class M:
    """One matching attempt."""
    __slots__ = ("ch", "end", "flags", "must_advance", "start", "full", "pos0", "steps")
    def __init__(self, ch, end, flags):
        self.ch = ch; self.end = end; self.flags = flags
        self.must_advance = False; self.full = False; self.steps = 0

    # state: (pos, groups, lastindex); groups: tuple of (start, end) or None
    def seq(self, items, i, flags, pos, gr, k):
        if i == len(items):
            return k(pos, gr)
        op, av = items[i]
        if op in SINGLE:
            if pos >= self.end: return None
            key, pred = test_for(op, av, flags)
            if not decide(char_test(self.ch[pos], key, pred)): return None
            return self.seq(items, i + 1, flags, pos + 1, gr, k)
        nxt = lambda p, g: self.seq(items, i + 1, flags, p, g, k)
        if op is BRANCH:
            for alt in av[1]:
                r = self.seq(alt, 0, flags, pos, gr, nxt)
                if r is not None: return r
            return None
        if op is SUBPATTERN:
            g, add, sub, p = av
            fl = (flags | add) & ~sub
            if g is None:
                return self.seq(p, 0, fl, pos, gr, nxt)
            def close(e, g2, g=g, s=pos):
                gs, last = g2
                gs = gs[:g] + ((s, e),) + gs[g+1:]
                return nxt(e, (gs, g))
            return self.seq(p, 0, fl, pos, gr, close)
        if op is MAX_REPEAT:
            lo, hi, p = av
            return self.greedy(p, lo, hi, flags, pos, gr, nxt, 0, -1)
        if op is MIN_REPEAT:
            lo, hi, p = av
            return self.lazy(p, lo, hi, flags, pos, gr, nxt, 0, -1)
        if op is POSSESSIVE_REPEAT:
            lo, hi, p = av
            r = self.greedy(p, lo, hi, flags, pos, gr, lambda e, g: (e, g), 0, -1)
            return None if r is None else nxt(*r)
        if op is ATOMIC_GROUP:
            r = self.seq(av, 0, flags, pos, gr, lambda e, g: (e, g))
            return None if r is None else nxt(*r)
        if op is AT:
            return nxt(pos, gr) if self.at(av, pos, flags) else None
        if op is ASSERT or op is ASSERT_NOT:
            d, p = av
            if d > 0:
                r = self.seq(p, 0, flags, pos, gr, lambda e, g: (e, g))
            else:
                w = p.getwidth()
                if w[0] != w[1]: raise core.Inconclusive("variable look-behind")
                s = pos - w[0]
                r = None if s < 0 else self.seq(p, 0, flags, s, gr, lambda e, g: (e, g) if e == pos else None)
            if op is ASSERT_NOT:
                return nxt(pos, gr) if r is None else None
            return None if r is None else nxt(pos, r[1])
        if op is GROUPREF:
            s = gr[0][av]
            if s is None: return None
            a, b = s; n = b - a
            if pos + n > self.end: return None
            if flags & re.IGNORECASE: raise core.Inconclusive("ignorecase groupref")
            if not decide(sand(char_eq(x, y) for x, y in zip(self.ch[a:b], self.ch[pos:pos+n]))): return None
            return nxt(pos + n, gr)
        if op is GROUPREF_EXISTS:
            g, yes, no = av
            p = yes if gr[0][g] is not None else no
            if p is None: return nxt(pos, gr)
            return self.seq(p, 0, flags, pos, gr, nxt)
        if op is FAILURE: return None
        raise core.Inconclusive("regex op %s" % op)

    def greedy(self, p, lo, hi, flags, pos, gr, k, n, last):
        if len(p) == 1 and p[0][0] in SINGLE:
            # iterative: extend, then give back
            op, av = p[0]
            key, pred = test_for(op, av, flags)
            e = pos; cnt = n
            while (hi is MAXREPEAT or cnt < hi) and e < self.end and decide(char_test(self.ch[e], key, pred)):
                e += 1; cnt += 1
            while cnt >= lo:
                r = k(e, gr)
                if r is not None: return r
                if cnt == n: return None
                e -= 1; cnt -= 1
            return None
        if n < lo:
            return self.seq(p, 0, flags, pos, gr, lambda e, g: self.greedy(p, lo, hi, flags, e, g, k, n + 1, pos))
        if (hi is MAXREPEAT or n < hi) and pos != last:
            r = self.seq(p, 0, flags, pos, gr, lambda e, g: self.greedy(p, lo, hi, flags, e, g, k, n + 1, pos))
            if r is not None: return r
        return k(pos, gr)

    def lazy(self, p, lo, hi, flags, pos, gr, k, n, last):
        if n < lo:
            return self.seq(p, 0, flags, pos, gr, lambda e, g: self.lazy(p, lo, hi, flags, e, g, k, n + 1, pos))
        r = k(pos, gr)
        if r is not None: return r
        if (hi is MAXREPEAT or n < hi) and pos != last:
            return self.seq(p, 0, flags, pos, gr, lambda e, g: self.lazy(p, lo, hi, flags, e, g, k, n + 1, pos))
        return None

    def at(self, a, pos, flags):
        if a is AT_BEGINNING:
            return pos == 0 or bool(flags & re.MULTILINE) and decide(char_eq(self.ch[pos-1], 10))
        if a is AT_BEGINNING_STRING: return pos == 0
        if a is AT_END:
            if pos == self.end: return True
            if flags & re.MULTILINE: return decide(char_eq(self.ch[pos], 10))
            return pos == self.end - 1 and decide(char_eq(self.ch[pos], 10))
        if a is AT_END_STRING: return pos == self.end
        if a is AT_BOUNDARY or a is AT_NON_BOUNDARY:
            asc = flags & re.ASCII
            w = lambda i: 0 <= i < self.end and decide(char_test(self.ch[i], ("w", asc), lambda c: _cat(CATEGORY_WORD, c, asc)))
            r = w(pos - 1) != w(pos)
            return r if a is AT_BOUNDARY else not r
        raise core.Inconclusive("regex at %s" % a)


class SymMatch:
    def __init__(self, pat, string, spans, lastindex, pos, endpos):
        self.re = pat; self.string = string; self._s = spans
        self.lastindex = lastindex or None
        self.pos = pos; self.endpos = endpos
    @property
    def regs(self): return tuple((-1, -1) if s is None else s for s in self._s)
    @property
    def lastgroup(self):
        for n, i in self.re.groupindex.items():
            if i == self.lastindex: return n
        return None
    def _g(self, g):
        if isinstance(g, (str, SymStr)):
            g = realize(g)
            if g not in self.re.groupindex: raise IndexError("no such group")
            return self.re.groupindex[g]
        g = realize(g)
        if not 0 <= g < len(self._s): raise IndexError("no such group")
        return g
    def span(self, g=0):
        s = self._s[self._g(g)]
        return (-1, -1) if s is None else s
    def start(self, g=0): return self.span(g)[0]
    def end(self, g=0): return self.span(g)[1]
    def _t(self, g, default=None):
        s = self._s[self._g(g)]
        return default if s is None else self.string[s[0]:s[1]]
    def group(self, *gs):
        if not gs: return self._t(0)
        if len(gs) == 1: return self._t(gs[0])
        return tuple(self._t(g) for g in gs)
    __getitem__ = _t
    def groups(self, default=None): return tuple(self._t(g, default) for g in range(1, len(self._s)))
    def groupdict(self, default=None): return {n: self._t(i, default) for n, i in self.re.groupindex.items()}
    def expand(self, template):
        return expand(template, self)
    def __bool__(self): return True


def expand(template, m):
    template = realize(template)
    parsed = sre_parse.parse_template(template, m.re)
    out = ""
    # Python 3.12: list alternating literal, group, literal, ...
    for i, x in enumerate(parsed):
        if isinstance(x, int):
            t = m._t(x)
            out = out + ("" if t is None else t)
        else:
            out = out + x
    return out


class SymPattern:
    """re.Pattern interface for symbolic strings."""
    def __init__(self, pat): self.pat = pat
    def _bounds(self, string, pos, endpos):
        n = len(string.ch)
        pos = realize(pos); pos = min(max(pos, 0), n)
        endpos = n if endpos is None else min(max(realize(endpos), 0), n)
        return pos, endpos
    def _try(self, string, s, pos0, endpos, must=False, full=False):
        t = tree(self.pat)
        m = M(string.ch, endpos, self.pat.flags)
        def done(e, g):
            if must and e == s: return None
            if full and e != endpos: return None
            return (e, g)
        ng = self.pat.groups
        r = m.seq(t, 0, self.pat.flags | t.state.flags, s, ((None,) * (ng + 1), 0), done)
        if r is None: return None
        e, (gs, last) = r
        return SymMatch(self.pat, string, ((s, e),) + gs[1:], last, pos0, endpos)
    def match(self, string, pos=0, endpos=None):
        pos, endpos = self._bounds(string, pos, endpos)
        return self._try(string, pos, pos, endpos) if pos <= endpos else None
    def fullmatch(self, string, pos=0, endpos=None):
        pos, endpos = self._bounds(string, pos, endpos)
        return self._try(string, pos, pos, endpos, full=True) if pos <= endpos else None
    def _search(self, string, pos, pos0, endpos, must=False):
        s = pos
        while s <= endpos:
            r = self._try(string, s, pos0, endpos, must and s == pos)
            if r is not None: return r
            s += 1
        return None
    def search(self, string, pos=0, endpos=None):
        pos, endpos = self._bounds(string, pos, endpos)
        return self._search(string, pos, pos, endpos)
    def finditer(self, string, pos=0, endpos=None):
        pos, endpos = self._bounds(string, pos, endpos)
        return self._finditer(string, pos, endpos)
    def _finditer(self, string, pos, endpos):
        p = pos; must = False
        while p <= endpos:
            m = self._search(string, p, pos, endpos, must)
            if m is None: return
            yield m
            p = m.end(); must = m.end() == m.start()
    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            g = m.groups("")
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out
    def subn(self, repl, string, count=0):
        count = realize(count)
        out = []; p = 0; n = 0
        for m in self.finditer(string):
            if count and n >= count: break
            out.append(string[p:m.start()])
            if callable(repl): r = repl(m)
            else:
                rr = realize(repl)
                r = expand(rr, m) if "\\" in rr else repl
            out.append(r)
            p = m.end(); n += 1
        out.append(string[p:])
        return join("", out), n
    def sub(self, repl, string, count=0): return self.subn(repl, string, count)[0]
    def split(self, string, maxsplit=0):
        maxsplit = realize(maxsplit)
        out = []; p = 0
        for m in self.finditer(string):
            if maxsplit and len(out) >= maxsplit * (1 + self.pat.groups): break
            out.append(string[p:m.start()]); out.extend(m.groups()); p = m.end()
        out.append(string[p:])
        return out
