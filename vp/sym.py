"""Symbolic values. All operations are pure z3 terms until Python needs a real
bool/int/str, at which point the engine forks."""
import z3
from math import gcd as _gcd
from types import FunctionType as _FunctionType
from . import core

_I = z3.IntVal
_cacheI = {}
def IV(n):
    r = _cacheI.get(n)
    if r is None:
        r = _cacheI[n] = z3.IntVal(n)
    return r


class Sym:
    __slots__ = ()


def is_sym(x):
    return isinstance(x, Sym)


# ---------------------------------------------------------------- booleans
class SymBool(Sym):
    __slots__ = ("c", "neg")
    keyed = False
    def __init__(self, c, neg=False): self.c = c; self.neg = neg
    @property
    def e(self):
        z = self.c.z()
        return z3.Not(z) if self.neg else z
    def __bool__(self): return core.CUR.branch(self.c) != self.neg
    def negate(self): return SymBool(self.c, not self.neg)
    def __eq__(self, o):
        if isinstance(o, bool): return self if o else self.negate()
        b = boolz(o)
        return NotImplemented if b is None else mkbool(self.e == b)
    def __ne__(self, o):
        if isinstance(o, bool): return self.negate() if o else self
        b = boolz(o)
        return NotImplemented if b is None else mkbool(self.e != b)
    def __and__(self, o):
        if isinstance(o, bool): return self if o else False
        b = boolz(o)
        return NotImplemented if b is None else mkbool(z3.And(self.e, b))
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, bool): return True if o else self
        b = boolz(o)
        return NotImplemented if b is None else mkbool(z3.Or(self.e, b))
    __ror__ = __or__
    def __xor__(self, o): return self != o
    __rxor__ = __xor__
    def __hash__(self): return hash(bool(self))
    def __index__(self): return int(bool(self))
    __int__ = __index__
    def __repr__(self): return repr(bool(self))
    def _i(self): return mkint(z3.If(self.e, IV(1), IV(0)))
    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self._i() < o
    def __gt__(self, o): return self._i() > o
    def __le__(self, o): return self._i() <= o
    def __ge__(self, o): return self._i() >= o
    def __invert__(self): return ~self._i()
    def __neg__(self): return -self._i()


def boolz(x):
    if isinstance(x, SymBool): return x.e
    if isinstance(x, bool): return z3.BoolVal(x)
    return None


def mkbool(e):
    """SymBool or bool from bool / Cond / (Cond, neg) / z3 Bool."""
    if isinstance(e, bool): return e
    if isinstance(e, SymBool): return e
    if isinstance(e, (core.Le, core.Eq, core.InSet, core.Z)): return SymBool(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    if z3.is_not(e): return SymBool(core.Z(e.arg(0)), True)
    return SymBool(core.Z(e))


def snot(x):
    if isinstance(x, SymBool): return x.negate()
    return not x


def tobool(x):
    """SymBool or bool for a truth-tested value, without forking when possible."""
    if isinstance(x, (SymBool, bool)): return x
    if isinstance(x, SymInt): return x != 0
    return bool(x)


def sand(xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return SymBool(core.Z(z3.And(*[x.e for x in out])))


def sor(xs):
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return SymBool(core.Z(z3.Or(*[x.e for x in out])))


# ---------------------------------------------------------------- integers
def _merge(t1, t2, f):
    """t1 + f * t2 on sorted term tuples."""
    d = dict(t1)
    for n, q in t2:
        v = d.get(n, 0) + f * q
        if v: d[n] = v
        else: d.pop(n, None)
    return tuple(sorted(d.items()))


def mklin(t, k):
    return SymInt(t, k) if t else k


def _canon(t, k):
    """(T, K, s): t + k <= 0  <=>  s*T <= K with T canonical (gcd 1, first coefficient positive)."""
    g = 0
    for _, q in t: g = _gcd(g, q)
    s = 1 if t[0][1] > 0 else -1
    if g != 1 or s != 1:
        t = tuple((n, s * q // g) for n, q in t)
    return t, g, s


def cond_le0(t, k):
    """SymBool/bool: t + k <= 0."""
    if not t: return k <= 0
    T, g, s = _canon(t, k)
    K = (-k) // g           # s*T <= floor(-k/g)
    if s > 0: return SymBool(core.Le(T, K))
    return SymBool(core.Le(T, -K - 1), True)       # -T <= K  <=>  T >= -K


def cond_eq0(t, k):
    if not t: return k == 0
    T, g, s = _canon(t, k)
    if k % g: return False
    return SymBool(core.Eq(T, -k // g * s))


class SymInt(Sym):
    __slots__ = ("t", "k", "keyed")
    def __init__(self, t, k): self.t = t; self.k = k; self.keyed = False
    @property
    def e(self): return core.lin_z3(self.t, self.k)

    def __add__(self, o):
        if isinstance(o, SymInt): return mklin(_merge(self.t, o.t, 1), self.k + o.k)
        if isinstance(o, int): return SymInt(self.t, self.k + o)
        if isinstance(o, SymBool): return self + o._i()
        if isinstance(o, float): return realize(self) + o
        return NotImplemented
    __radd__ = __add__
    def __sub__(self, o):
        if isinstance(o, SymInt): return mklin(_merge(self.t, o.t, -1), self.k - o.k)
        if isinstance(o, int): return SymInt(self.t, self.k - o)
        if isinstance(o, SymBool): return self - o._i()
        if isinstance(o, float): return realize(self) - o
        return NotImplemented
    def __rsub__(self, o):
        if isinstance(o, int): return SymInt(tuple((n, -q) for n, q in self.t), o - self.k)
        if isinstance(o, float): return o - realize(self)
        return NotImplemented

    def _mul(self, o):
        if isinstance(o, (SymInt, SymBool)): o = realize(o)
        if isinstance(o, int):
            if o == 0: return 0
            return SymInt(tuple((n, q * o) for n, q in self.t), self.k * o)
        if isinstance(o, (float, complex)):
            return realize(self) * o
        if isinstance(o, (str, list, tuple, bytes)):
            return o * realize(self)
        return NotImplemented
    __mul__ = __rmul__ = _mul

    def _split(self, o):
        """quotient, remainder, if the terms that o does not divide are known to stay within 0..o-1."""
        q = []; r = []
        lo = hi = self.k % o
        for n, c in self.t:
            if c % o == 0: q.append((n, c // o)); continue
            b = BOUNDS.get(n)
            if b is None: return None
            r.append((n, c))
            lo += c * (b[0] if c > 0 else b[1]); hi += c * (b[1] if c > 0 else b[0])
        if lo < 0 or hi >= o: return None
        return mklin(tuple(q), self.k // o), mklin(tuple(r), self.k % o)

    def _fd(op, name):
        def f(self, o):
            if isinstance(o, SymInt): o = realize(o)
            if isinstance(o, int) and not isinstance(o, bool) and o > 0:
                r = self._split(o)
                if r is not None: return r[name == "__mod__"]
                return mkint(op(self.e, IV(o)))
            return getattr(realize(self), name)(o)
        def r(self, o):
            if not isinstance(o, (int, float, SymInt)): return NotImplemented
            return getattr(realize(o), name)(realize(self))
        return f, r
    __floordiv__, __rfloordiv__ = _fd(lambda a, b: a / b, "__floordiv__")
    __mod__, __rmod__ = _fd(lambda a, b: a % b, "__mod__")
    def __divmod__(self, o): return self // o, self % o

    def _real(name):
        def f(self, o):
            o = realize(o)
            v = getattr(realize(self), name)(o)
            if v is NotImplemented and isinstance(o, float):
                v = getattr(float(realize(self)), name)(o)
            return v
        return f
    for _n in ("truediv", "rtruediv", "pow", "rpow", "and", "or", "ror", "xor", "rxor",
               "lshift", "rlshift", "rshift", "rrshift", "rdivmod"):
        locals()["__%s__" % _n] = _real("__%s__" % _n)
    del _n
    _and, _lshift, _rshift = __and__, __lshift__, __rshift__
    def __and__(self, o):
        # a mask of low bits is a remainder
        if type(o) is int and o > 0 and o & (o + 1) == 0: return self % (o + 1)
        return self._and(o)
    __rand__ = __and__
    def __lshift__(self, o):
        return self * (1 << o) if type(o) is int and o >= 0 else self._lshift(o)
    def __rshift__(self, o):
        return self // (1 << o) if type(o) is int and o >= 0 else self._rshift(o)

    def _d(self, o):
        """terms, const of self - o; None if o is no integer."""
        if isinstance(o, SymInt): return _merge(self.t, o.t, -1), self.k - o.k
        if isinstance(o, int): return self.t, self.k - o
        if isinstance(o, SymBool): return self._d(o._i())
        return None
    def _c(op, name):
        def f(self, o):
            if isinstance(o, float):
                if o != o or o in (float("inf"), float("-inf")): return getattr(0.0, name)(o)
                if o == int(o): o = int(o)
                else: return getattr(float(realize(self)), name)(o)
            d = self._d(o)
            if d is None: return NotImplemented
            return op(*d)
        return f
    __le__ = _c(lambda t, k: cond_le0(t, k), "__le__")
    __lt__ = _c(lambda t, k: cond_le0(t, k + 1), "__lt__")
    __gt__ = _c(lambda t, k: snot(cond_le0(t, k)), "__gt__")
    __ge__ = _c(lambda t, k: snot(cond_le0(t, k + 1)), "__ge__")
    __eq__ = _c(lambda t, k: cond_eq0(t, k), "__eq__")
    __ne__ = _c(lambda t, k: snot(cond_eq0(t, k)), "__ne__")
    def __neg__(self): return SymInt(tuple((n, -q) for n, q in self.t), -self.k)
    def __pos__(self): return self
    def __invert__(self): return -self - 1
    def __abs__(self): return -self if self < 0 else self
    def __bool__(self): return bool(self != 0)
    # realisation
    def cond_eq(self, v):
        c = self == v
        if isinstance(c, bool): raise core.Inconclusive("realize")
        assert not c.neg
        return c.c
    def pick(self, eng):
        if len(self.t) == 1 and abs(self.t[0][1]) == 1:
            f = eng.facts; T = ((self.t[0][0], 1),)
            lo, hi = f.lo.get(T), f.hi.get(T)
        m = eng.model()
        if m is None: raise core.PathInfeasible()
        return m.eval(self.e, model_completion=True).as_long(), False
    def __index__(self):
        if len(self.t) == 1:
            n, q = self.t[0]
            f = core.CUR.facts; T = ((n, 1),)
            lo = f.lo.get(T)
            if lo is not None and lo == f.hi.get(T): return lo * q + self.k
        return core.CUR.realize_int(self)
    __int__ = __index__
    def __float__(self): return float(realize(self))
    def __hash__(self): return 0x5eed if self.keyed else hash(realize(self))
    def __repr__(self): return repr(realize(self))
    __str__ = __repr__
    def __format__(self, spec): return format(realize(self), spec)
    def __round__(self, n=None): return self if n is None else round(realize(self), n)
    def __trunc__(self): return self
    def bit_length(self): return realize(self).bit_length()
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        return getattr(realize(self), name)


def var(name):
    if name not in core.VARS: core.VARS[name] = z3.Int(name)
    return SymInt(((name, 1),), 0)


def mkint(e):
    """int / SymInt from a z3 Int expression (kept as an opaque term)."""
    if isinstance(e, (int, SymInt)): return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    i = e.get_id()
    n = _opaque.get(i)
    if n is None:
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
        else:
            n = "#" + e.sexpr()
            core.DEPS[n] = core.z3_vars(e)
        core.VARS.setdefault(n, e)
        _opaque[i] = n
        core._keep[i] = e
    return SymInt(((n, 1),), 0)

_opaque = {}
BOUNDS = {}         # name -> (lowest, highest) value of an opaque term

def intz(x):
    if isinstance(x, SymInt): return x.e
    if isinstance(x, int): return IV(int(x))
    if isinstance(x, SymBool): return intz(x._i())
    return None


def realize(x):
    if isinstance(x, SymBool): return bool(x)
    if isinstance(x, SymInt): return x.__index__()
    if isinstance(x, SymStr): return x.realize()
    if isinstance(x, Sym) and hasattr(x, "realize"): return x.realize()
    return x


def smin(a, b):
    return b if b < a else a

def smax(a, b):
    return b if b > a else a


# ---------------------------------------------------------------- characters
class Alphabet:
    """A finite set of code points that a symbolic character ranges over."""
    _all = {}
    def __new__(cls, cps):
        cps = tuple(sorted(set(ord(c) if isinstance(c, str) else c for c in cps)))
        a = cls._all.get(cps)
        if a is None:
            a = cls._all[cps] = object.__new__(cls)
            a.cps = cps
            a.set = frozenset(cps)
            a.memo = {}
            a.index = {c: i for i, c in enumerate(cps)}
        return a
    def subset(self, key, pred):
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = frozenset(c for c in self.cps if pred(c))
        return r


class SymChar:
    """A character variable ranging over an alphabet."""
    __slots__ = ("name", "alpha")
    def __init__(self, name, alpha):
        self.name = name; self.alpha = alpha
        if name not in core.VARS: core.VARS[name] = z3.Int(name)
    @property
    def e(self): return core.VARS[self.name]
    def cond_eq(self, v): return core.InSet(self, frozenset((v,)))
    def pick(self, eng):
        cur = eng.facts.sets.get(self.name)
        if cur is None: cur = self.alpha.set
        if self.name not in eng.facts.dep:
            return min(cur), len(cur) > 1
        m = eng.model()
        if m is None: raise core.PathInfeasible()
        return m.eval(self.e, model_completion=True).as_long(), False
    def realize(self):
        cur = core.CUR.facts.sets.get(self.name)
        if cur is not None and len(cur) == 1: return min(cur)
        if len(self.alpha.cps) == 1: return self.alpha.cps[0]
        return core.CUR.realize_int(self)


def char_test(ch, key, pred):
    """bool or SymBool for pred(code point)."""
    if isinstance(ch, int):
        return bool(pred(ch))
    sub = ch.alpha.subset(key, pred)
    if not sub: return False
    if len(sub) == len(ch.alpha.cps): return True
    return SymBool(core.InSet(ch, sub))


_single = {}
def char_eq(a, b):
    if isinstance(a, int):
        if isinstance(b, int): return a == b
        a, b = b, a
    if isinstance(b, int):
        if b not in a.alpha.set: return False
        if len(a.alpha.cps) == 1: return True
        f = _single.get(b)
        if f is None: f = _single[b] = frozenset((b,))
        return SymBool(core.InSet(a, f))
    if a is b or a.name == b.name: return True
    if not (a.alpha.set & b.alpha.set): return False
    return SymBool(core.Z(a.e == b.e))


_maps = {}
def map_char(c, name):
    """Result of a case mapping on a symbolic character: a derived variable when
    every image is one character, else the value is fixed by forking."""
    k = (c.name, c.alpha, name)
    r = _maps.get(k)
    if r is None:
        res = {x: getattr(chr(x), name)() for x in c.alpha.cps}
        if not all(len(v) == 1 for v in res.values()): r = "fork"
        elif all(ord(v) == x for x, v in res.items()): r = (c, None)
        else:
            d = SymChar("%s.%s" % (c.name, name), Alphabet(ord(v) for v in res.values()))
            run = []
            for x, v in sorted(res.items()):
                y = ord(v)
                if y == x: continue
                if run and run[-1][1] + 1 == x and run[-1][2] == y - x: run[-1][1] = x
                else: run.append([x, x, y - x])
            e = c.e
            for a, b, q in run:
                cond = c.e == IV(a) if a == b else z3.And(c.e >= IV(a), c.e <= IV(b))
                e = z3.If(cond, c.e + q, e)
            r = (d, core.Z(d.e == e))
        _maps[k] = r
    if r == "fork": return tuple(map(ord, getattr(chr(c.realize()), name)()))
    if r[1] is not None:
        eng = core.CUR
        if eng.facts.known.get(r[1].key) is None: eng.declare(r[1])
    return (r[0],)


def decide(c):
    """Fork on a bool / SymBool."""
    return bool(c)


def char_realize(c):
    return c if isinstance(c, int) else c.realize()


def str_chars(s):
    if isinstance(s, SymStr): return s.ch
    if isinstance(s, str): return tuple(map(ord, s))
    raise TypeError("expected str instance, %s found" % type(s).__name__)


def mkstr(chars):
    for c in chars:
        if not isinstance(c, int):
            return SymStr(tuple(chars))
    return "".join(map(chr, chars))


def slen(x):
    if isinstance(x, Sym): return x.__vp_len__()
    f = getattr(type(x), "__len__", None)
    if type(f) is _FunctionType: return f(x)
    f = getattr(type(x), "__vp_len__", None)
    if f is not None: return f(x)
    return len(x)


def norm_index(i, n, default):
    """Python slice bound normalisation (step 1) for symbolic ints."""
    if i is None: return default
    if isinstance(i, int) and isinstance(n, int):
        if i < 0: return max(i + n, 0)
        return min(i, n)
    if isinstance(i, SymBool): i = i._i()
    elif not isinstance(i, (int, SymInt)): i = i.__index__()
    if i >= 0:
        if i <= n: return i
        return n
    if i + n <= 0: return 0
    return i + n


class SymStr(Sym):
    """String of concrete length whose characters may be symbolic."""
    __slots__ = ("ch", "keyed")
    def __init__(self, ch): self.ch = ch; self.keyed = False
    def __vp_len__(self): return len(self.ch)
    def __len__(self): return len(self.ch)
    def __bool__(self): return bool(self.ch)

    def realize(self):
        out = []
        for c in self.ch:
            out.append(c if isinstance(c, int) else c.realize())
        return "".join(map(chr, out))
    def __str__(self): return self.realize()
    def __repr__(self): return repr(self.realize())
    def __format__(self, spec): return format(self.realize(), spec)
    def __hash__(self): return 0x5eed if self.keyed else hash(self.realize())

    def eqz(self, o):
        if isinstance(o, SymStr): oc = o.ch
        elif isinstance(o, str): oc = str_chars(o)
        elif isinstance(o, FunStr): return o.eqz(self)
        else: return None
        if len(oc) != len(self.ch): return False
        return sand(char_eq(a, b) for a, b in zip(self.ch, oc))
    def __eq__(self, o):
        z = self.eqz(o)
        return NotImplemented if z is None else z
    def __ne__(self, o):
        z = self.eqz(o)
        return NotImplemented if z is None else snot(z)

    def _cmp(self, o):
        """-1, 0, 1 by forking."""
        a, b = self.ch, str_chars(o)
        for x, y in zip(a, b):
            if decide(char_eq(x, y)): continue
            if isinstance(y, int): lt = char_test(x, ("<", y), lambda c: c < y)
            elif isinstance(x, int): lt = char_test(y, (">", x), lambda c: c > x)
            else: lt = SymInt(((x.name, 1),), 0) < SymInt(((y.name, 1),), 0)
            return -1 if lt else 1
        return (len(a) > len(b)) - (len(a) < len(b))
    def _c(t):
        def f(self, o):
            if not isinstance(o, (str, SymStr)): return NotImplemented
            return t(self._cmp(o))
        return f
    __lt__ = _c(lambda c: c < 0)
    __le__ = _c(lambda c: c <= 0)
    __gt__ = _c(lambda c: c > 0)
    __ge__ = _c(lambda c: c >= 0)

    def __add__(self, o):
        if isinstance(o, FunStr): return FunStr.of(self) + o
        if not isinstance(o, (str, SymStr)): return NotImplemented
        return mkstr(self.ch + str_chars(o))
    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)): return NotImplemented
        return mkstr(str_chars(o) + self.ch)
    def __mul__(self, n): return mkstr(self.ch * realize(n))
    __rmul__ = __mul__
    def __mod__(self, a): return self.realize() % a

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step in (None, 1) and (is_sym(i.start) or is_sym(i.stop)):
                n = len(self.ch)
                a = realize(norm_index(i.start, n, 0))
                b = realize(norm_index(i.stop, n, n))
                return mkstr(self.ch[a:b])
            return mkstr(self.ch[slice(realize(i.start), realize(i.stop), realize(i.step))])
        return mkstr((self.ch[realize(i)],))
    def __iter__(self):
        for c in self.ch: yield mkstr((c,))
    def __contains__(self, o):
        if isinstance(o, (str, SymStr)):
            oc = str_chars(o); n = len(oc)
            return (sor(sand(char_eq(a, b) for a, b in zip(self.ch[i:i+n], oc))
                       for i in range(len(self.ch) - n + 1)))
        raise TypeError("'in <string>' requires string as left operand")

    # -- methods -------------------------------------------------------------
    def _bounds(self, start, end):
        n = len(self.ch)
        a = realize(norm_index(start, n, 0))
        b = realize(norm_index(end, n, n))
        if start is not None and bool(start > n): return None
        return a, b
    def find(self, sub, start=None, end=None):
        bd = self._bounds(start, end)
        if bd is None: return -1
        a, b = bd
        sc = str_chars(sub); n = len(sc)
        for i in range(a, b - n + 1):
            if decide(sand(char_eq(x, y) for x, y in zip(self.ch[i:i+n], sc))): return i
        return -1
    def rfind(self, sub, start=None, end=None):
        bd = self._bounds(start, end)
        if bd is None: return -1
        a, b = bd
        sc = str_chars(sub); n = len(sc)
        for i in range(b - n, a - 1, -1):
            if decide(sand(char_eq(x, y) for x, y in zip(self.ch[i:i+n], sc))): return i
        return -1
    def index(self, *a):
        i = self.find(*a)
        if i == -1: raise ValueError("substring not found")
        return i
    def rindex(self, *a):
        i = self.rfind(*a)
        if i == -1: raise ValueError("substring not found")
        return i
    def count(self, sub, start=None, end=None):
        bd = self._bounds(start, end)
        if bd is None: return 0
        a, b = bd
        sc = str_chars(sub); n = len(sc)
        if n == 0: return max(b - a + 1, 0)
        if n == 1:
            r = 0
            for c in self.ch[a:b]:
                z = char_eq(c, sc[0])
                if z is True: r = r + 1
                elif z is not False: r = r + z._i()
            return r
        r = 0
        while True:
            i = self.find(sub, a, b)
            if i == -1: return r
            r += 1; a = i + n
    def startswith(self, p, start=None, end=None):
        bd = self._bounds(start, end)
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        if bd is None: return False
        a, b = bd
        pc = str_chars(p)
        if a > b or len(pc) > b - a: return False
        return (sand(char_eq(x, y) for x, y in zip(self.ch[a:b], pc)))
    def endswith(self, p, start=None, end=None):
        bd = self._bounds(start, end)
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        if bd is None: return False
        a, b = bd
        pc = str_chars(p)
        if a > b or len(pc) > b - a: return False
        return (sand(char_eq(x, y) for x, y in zip(self.ch[b-len(pc):b], pc)))
    def _stripset(self, chars):
        if chars is None:
            return lambda c: decide(char_test(c, "isspace", lambda x: chr(x).isspace()))
        cs = str_chars(chars)
        return lambda c: decide(sor(char_eq(c, x) for x in cs))
    def lstrip(self, chars=None):
        t = self._stripset(chars); i = 0
        while i < len(self.ch) and t(self.ch[i]): i += 1
        return mkstr(self.ch[i:])
    def rstrip(self, chars=None):
        t = self._stripset(chars); i = len(self.ch)
        while i > 0 and t(self.ch[i-1]): i -= 1
        return mkstr(self.ch[:i])
    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)
    def partition(self, sep):
        i = self.find(sep)
        if i == -1: return self, "", ""
        return mkstr(self.ch[:i]), sep, mkstr(self.ch[i+len(str_chars(sep)):])
    def rpartition(self, sep):
        i = self.rfind(sep)
        if i == -1: return "", "", self
        return mkstr(self.ch[:i]), sep, mkstr(self.ch[i+len(str_chars(sep)):])
    def split(self, sep=None, maxsplit=-1):
        maxsplit = realize(maxsplit)
        out = []
        if sep is None:
            t = self._stripset(None); i = 0; n = len(self.ch)
            while True:
                while i < n and t(self.ch[i]): i += 1
                if i >= n: return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkstr(self.ch[i:]).rstrip()); return out
                j = i
                while j < n and not t(self.ch[j]): j += 1
                out.append(mkstr(self.ch[i:j])); i = j
        n = len(str_chars(sep)); a = 0
        if n == 0: raise ValueError("empty separator")
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, a)
            if i == -1: break
            out.append(mkstr(self.ch[a:i])); a = i + n
        out.append(mkstr(self.ch[a:]))
        return out
    def splitlines(self, keepends=False):
        out = []; a = i = 0; n = len(self.ch)
        lb = lambda c: decide(char_test(c, "islb", lambda x: chr(x) in "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"))
        while i < n:
            if lb(self.ch[i]):
                e = i + 1
                if e < n and decide(char_eq(self.ch[i], 13)) and decide(char_eq(self.ch[e], 10)): e += 1
                out.append(mkstr(self.ch[a:e if keepends else i])); a = i = e
            else: i += 1
        if a < n: out.append(mkstr(self.ch[a:]))
        return out
    def replace(self, old, new, count=-1):
        oc, nc = str_chars(old), str_chars(new)
        n = len(oc); count = realize(count)
        out = []; a = 0; r = 0
        if n == 0:
            ch = self.ch
            for i in range(len(ch) + 1):
                if count < 0 or r < count: out += nc; r += 1
                if i < len(ch): out.append(ch[i])
            return mkstr(tuple(out))
        while count < 0 or r < count:
            i = self.find(old, a)
            if i == -1: break
            out += self.ch[a:i]; out += nc; a = i + n; r += 1
        out += self.ch[a:]
        return mkstr(tuple(out))
    def removeprefix(self, p):
        return mkstr(self.ch[len(str_chars(p)):]) if self.startswith(p) else self
    def removesuffix(self, p):
        return mkstr(self.ch[:len(self.ch) - len(str_chars(p))]) if p and self.endswith(p) else self
    def join(self, it):
        return join(self, it)
    def _all(name):
        def f(self):
            if not self.ch: return getattr("", name)()
            return (sand(char_test(c, name, lambda x: getattr(chr(x), name)()) for c in self.ch))
        return f
    isspace = _all("isspace"); isdigit = _all("isdigit"); isalpha = _all("isalpha")
    isalnum = _all("isalnum"); isdecimal = _all("isdecimal"); isnumeric = _all("isnumeric")
    isascii = _all("isascii"); isprintable = _all("isprintable")
    def _map(name):
        def f(self):
            out = []
            for c in self.ch:
                if isinstance(c, int):
                    out += map(ord, getattr(chr(c), name)()); continue
                out += map_char(c, name)
            return mkstr(tuple(out))
        return f
    lower = _map("lower"); upper = _map("upper"); casefold = _map("casefold"); swapcase = _map("swapcase")
    def translate(self, table):
        out = []
        for c in self.ch:
            v = char_realize(c)
            out += map(ord, chr(v).translate(table))
        return mkstr(tuple(out))
    def expandtabs(self, tabsize=8):
        tabsize = realize(tabsize); out = []; col = 0
        for c in self.ch:
            if decide(char_eq(c, 9)):
                if tabsize > 0:
                    k = tabsize - col % tabsize
                    out += [32] * k; col += k
            else:
                out.append(c); col += 1
                if decide(char_test(c, "crlf", lambda x: x in (10, 13))): col = 0
        return mkstr(tuple(out))
    def ljust(self, w, f=" "): return mkstr(self.ch + str_chars(f) * max(0, realize(w) - len(self.ch)))
    def rjust(self, w, f=" "): return mkstr(str_chars(f) * max(0, realize(w) - len(self.ch)) + self.ch)
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        if hasattr(str, name):
            def f(*a, **k):
                return getattr(self.realize(), name)(*map(realize, a), **k)
            return f
        raise AttributeError("'str' object has no attribute %r" % name)


def join(sep, it):
    it = list(it)
    if not any(isinstance(x, (SymStr, FunStr)) for x in it) and not isinstance(sep, Sym):
        return sep.join(it)
    if any(isinstance(x, FunStr) for x in it) or isinstance(sep, FunStr):
        r = None
        for x in it:
            if r is None: r = x
            else: r = (r + sep if not (isinstance(sep, str) and sep == "") else r) + x
        return r
    sc = str_chars(sep); out = []
    for i, x in enumerate(it):
        if i: out += sc
        out += str_chars(x)
    return mkstr(tuple(out))


# ---------------------------------------------------------------- opaque strings
class Base:
    """An opaque text (uninterpreted function of the index) or a literal."""
    __slots__ = ("name", "at")
    def __init__(self, name, at): self.name = name; self.at = at


class FunStr(Sym):
    """String of symbolic (unbounded) length, kept as a rope of segments
    (base, offset, length) of opaque texts and literals.  Supports length,
    slicing, concatenation and comparison."""
    __slots__ = ("segs", "n")
    def __init__(self, segs):
        out = []
        n = 0
        for sg in segs:
            l = sg[2]
            if isinstance(l, int) and l <= 0: continue
            n = n + l
            if out and out[-1][0] is sg[0]:
                p = out[-1]
                d = p[1] + p[2] - sg[1]
                if isinstance(d, int) and d == 0:
                    out[-1] = (p[0], p[1], p[2] + l); continue
            out.append(sg)
        self.segs = out
        self.n = n
    @staticmethod
    def of(s):
        if isinstance(s, FunStr): return s
        ch = str_chars(s)
        if not ch: return FunStr([])
        zs = [IV(c) if isinstance(c, int) else c.e for c in ch]
        def at(i):
            e = zs[-1]
            for k in range(len(zs) - 2, -1, -1):
                e = z3.If(i == IV(k), zs[k], e)
            return e
        k = ch if all(isinstance(c, int) for c in ch) else None
        b = _lits.get(k) if k else None
        if b is None:
            b = Base("lit", at)
            if k: _lits[k] = b
        return FunStr([(b, 0, len(ch))])
    @staticmethod
    def var(name):
        n = var(name + ".len")
        r = _bases.get(name)
        if r is None:
            f = z3.Function(name + ".at", z3.IntSort(), z3.IntSort())
            r = _bases[name] = Base(name, lambda i: f(i))
        core.CUR.declare((n >= 0).c, neg=True)
        return FunStr([(r, 0, n)])
    def at(self, i):
        segs = self.segs
        if not segs: return IV(0)
        ends = []; p = 0
        for b, o, l in segs:
            ends.append((p, p + l, b, o)); p = ends[-1][1]
        e = None
        for st, en, b, o in reversed(ends):
            v = b.at(z3.simplify(i - intz(st) + intz(o)))
            e = v if e is None else z3.If(i < intz(en), v, e)
        return e
    def __vp_len__(self): return self.n
    def __bool__(self): return bool(self.n > 0)
    def __len__(self): return realize(self.n)
    def __add__(self, o):
        if not isinstance(o, (str, SymStr, FunStr)): return NotImplemented
        return FunStr(self.segs + FunStr.of(o).segs)
    def __radd__(self, o):
        if not isinstance(o, (str, SymStr, FunStr)): return NotImplemented
        return FunStr(FunStr.of(o).segs + self.segs)
    def split_at(self, p):
        """(left, right) segment lists at position p (0 <= p <= n)."""
        left = []; rest = list(self.segs)
        while rest:
            b, o, l = rest[0]
            if isinstance(p, int) and p <= 0: break
            if p >= l:
                left.append(rest.pop(0)); p = p - l
            elif p <= 0: break
            else:
                left.append((b, o, p))
                rest[0] = (b, o + p, l - p)
                break
        return left, rest
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1): raise core.Inconclusive("FunStr step")
            n = self.n
            a = norm_index(i.start, n, 0); b = norm_index(i.stop, n, n)
            s = self
            if i.stop is not None:
                d = n - b
                if not (isinstance(d, int) and d == 0): s = FunStr(s.split_at(b)[0])
            if not (isinstance(a, int) and a == 0):
                s = FunStr(s.split_at(a)[1])
            return s
        if i >= self.n or i < -self.n: raise IndexError("string index out of range")
        if i < 0: i = i + self.n
        return self[i:i+1]
    def same_struct(self, o):
        """True if equality follows from the segment structure (solver-checked);
        None if undetermined."""
        A = list(self.segs); B = list(o.segs)
        while True:
            while A and valid(A[0][2] == 0): A.pop(0)
            while B and valid(B[0][2] == 0): B.pop(0)
            if not A and not B: return True
            if not A or not B: return None
            (b1, o1, l1), (b2, o2, l2) = A[0], B[0]
            if b1 is not b2 or not valid(o1 == o2): return None
            if valid(l1 == l2): A.pop(0); B.pop(0)
            elif valid(l1 <= l2): A.pop(0); B[0] = (b2, o2 + l1, l2 - l1)
            elif valid(l2 <= l1): B.pop(0); A[0] = (b1, o1 + l2, l1 - l2)
            else: return None
    def diffz(self, o):
        """SymBool (with a fresh index) or bool: the strings differ."""
        o = FunStr.of(o)
        if self.same_struct(o): return False
        i = z3.Int(core.CUR.fresh("diff.i"))
        n = intz(self.n)
        return mkbool(z3.Or(n != intz(o.n), z3.And(i >= 0, i < n, self.at(i) != o.at(i))))
    def eqz(self, o):
        if not isinstance(o, (str, SymStr, FunStr)): return None
        o = FunStr.of(o)
        if self is o: return True
        if isinstance(o.n, int) and o.n == 0: return self.n == 0
        if self.same_struct(o): return True
        if valid(self.n != o.n): return False
        i = z3.Int(core.CUR.fresh("all.i"))
        n = intz(self.n)
        return mkbool(z3.And(n == intz(o.n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), self.at(i) == o.at(i)))))
    def __eq__(self, o):
        z = self.eqz(o)
        return NotImplemented if z is None else z
    def __ne__(self, o):
        z = self.eqz(o)
        return NotImplemented if z is None else snot(z)
    def __hash__(self): raise core.Inconclusive("FunStr hash")
    def __repr__(self): return "<text>"
    __str__ = __repr__
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        raise core.Inconclusive("FunStr." + name)

_lits = {}
_bases = {}

def valid(x):
    """The path condition implies x (bool / SymBool)."""
    if isinstance(x, bool): return x
    return core.CUR.valid(x.c, x.neg)
