"""Run-time support called from the rewritten source: call interception etc."""
import re
import z3
import types
import builtins
from . import core, sym, symre
from .sym import Sym, SymBool, SymInt, SymStr, FunStr, is_sym, realize, mkbool, mkint, intz, slen, join

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
CMethodType = type(re.compile("").finditer)     # methods that know their defining class
MethodDescriptor = type(str.lower)

SEEN = set()

def tick():
    core.CUR is not None and core.CUR.tick()
    return True

def any_sym(a, k):
    for x in a:
        if isinstance(x, Sym): return True
    for x in k.values():
        if isinstance(x, Sym): return True
    return False

def m_len(x):
    return slen(x)

def m_isinstance(x, c):
    if isinstance(x, Sym):
        cs = c if isinstance(c, tuple) else (c,)
        out = []
        for y in cs:
            if isinstance(y, tuple):
                if m_isinstance(x, y): return True
                continue
            if isinstance(y, types.UnionType):
                if m_isinstance(x, y.__args__): return True
                continue
            t = m_type(x)
            try:
                if issubclass(t, y): return True
            except TypeError:
                if isinstance(x, y): return True
        return False
    if isinstance(x, symre.SymMatch):
        cs = c if isinstance(c, tuple) else (c,)
        return re.Match in cs or isinstance(x, c)
    return isinstance(x, c)

def m_type(x, *a):
    if a: return type(x, *a)
    if isinstance(x, SymInt): return int
    if isinstance(x, SymBool): return bool
    if isinstance(x, symbytes.SymBytes): return bytes
    if isinstance(x, (SymStr, FunStr)): return str
    if isinstance(x, symre.SymMatch): return re.Match
    return type(x)

def _fold(f2, name):
    real = getattr(builtins, name)
    def m(*a, **k):
        if len(a) == 1:
            it = list(a[0])
        else:
            it = list(a)
        if k or not it or not all(isinstance(x, (int, SymInt)) for x in it) or not any(isinstance(x, SymInt) for x in it):
            return real(it, **k)
        r = it[0]
        for x in it[1:]: r = f2(r, x)
        return r
    return m
m_min = _fold(sym.smin, "min")
m_max = _fold(sym.smax, "max")

def m_str(*a, **k):
    if a and isinstance(a[0], symbytes.SymBytes) and (len(a) > 1 or k): return a[0].decode(*a[1:], **k)
    if len(a) == 1 and isinstance(a[0], (SymStr, FunStr)): return a[0]
    if len(a) == 1 and isinstance(a[0], (SymInt, SymBool)): return str(realize(a[0]))
    return str(*map(realize, a), **k)

def m_float(*a):
    return float(*map(realize, a))


def m_int(*a, **k):
    if len(a) == 1 and isinstance(a[0], SymInt): return a[0]
    if len(a) == 1 and isinstance(a[0], SymBool): return a[0]._i()
    if a and isinstance(a[0], SymStr) and a[0].ch and not k and len(a) <= 2:
        base = a[1] if len(a) == 2 else 10
        if type(base) is int and 2 <= base <= 36:
            v = digits(a[0], base)
            if v is not None: return v
    return int(*map(realize, a), **k)

def digits(s, base):
    """The number a text of ASCII digits stands for; None if it is no such text."""
    ok = [c for c in "0123456789abcdefghijklmnopqrstuvwxyz"[:base]]
    ok = set(ok + [c.upper() for c in ok])
    key = ("digits", base)
    for c in s.ch:
        if not sym.decide(sym.char_test(c, key, lambda x: chr(x) in ok)): return None
    v = 0
    for c in s.ch:
        if isinstance(c, int): d = int(chr(c), base)
        else:
            e = c.e
            d = mkint(z3.If(e <= 57, e - 48, z3.If(e <= 90, e - 55, e - 87)))
            sym.BOUNDS[d.t[0][0]] = (0, base - 1)
        v = v * base + d
    return v

def m_bool(*a):
    if a and isinstance(a[0], SymBool): return a[0]
    if a and isinstance(a[0], SymInt): return a[0] != 0
    if a: return bool(truth(a[0]))
    return bool(*a)

def m_ord(c):
    if isinstance(c, SymStr):
        if len(c.ch) != 1: raise TypeError("ord() expected a character")
        x = c.ch[0]
        return x if isinstance(x, int) else SymInt(((x.name, 1),), 0)
    return ord(c)

def m_chr(i):
    return chr(realize(i))

def m_all(it):
    for x in it:
        if not x: return False
    return True

def m_sum(it, start=0):
    for x in it: start = start + x
    return start

def m_range(*a):
    if not any(isinstance(x, Sym) for x in a): return range(*a)
    if len(a) == 1: return SymRange(0, a[0], 1)
    if len(a) == 2: return SymRange(a[0], a[1], 1)
    return range(*map(realize, a))

class SymRange:
    def __init__(self, a, b, s): self.a, self.b, self.s = a, b, s
    def __iter__(self):
        i = self.a
        while i < self.b:
            tick()
            yield i
            i = i + 1
    def __vp_len__(self): return sym.smax(self.b - self.a, 0)
    def __bool__(self): return bool(self.a < self.b)
    def _real(self): return range(realize(self.a), realize(self.b))
    def __len__(self): return len(self._real())
    def __contains__(self, x): return bool(self.a <= x) and bool(x < self.b)
    def __getitem__(self, i): return self._real()[i]
    def __reversed__(self):
        i = self.b - 1
        while i >= self.a:
            tick()
            yield i
            i = i - 1

def m_repr(x):
    return repr(x)

def m_hash(x): return hash(x)

MODELS = {
    builtins.len: m_len, builtins.isinstance: m_isinstance, builtins.type: m_type,
    builtins.min: m_min, builtins.max: m_max, builtins.str: m_str, builtins.int: m_int, builtins.float: m_float,
    builtins.bool: m_bool, builtins.ord: m_ord, builtins.chr: m_chr, builtins.sum: m_sum,
    builtins.range: m_range, builtins.all: m_all,
}
from . import symbytes
import io as _io
MODELS[_io.BytesIO] = symbytes.m_BytesIO
MODELS[_io.TextIOWrapper] = symbytes.m_TextIOWrapper
PASS_SELF = (list, dict, set, frozenset, tuple, types.MappingProxyType)
PASS_TYPES = {list, tuple, set, frozenset, dict, enumerate, zip, map, filter, reversed, slice,
    builtins.property, builtins.object}
PASS_FUNCS = {builtins.sorted, builtins.iter, builtins.next, builtins.any, builtins.id, builtins.callable,
    builtins.getattr, builtins.setattr, builtins.hasattr, builtins.print, builtins.repr, builtins.abs,
    builtins.issubclass, builtins.hash, builtins.divmod, builtins.vars, builtins.delattr}
PASS_MODULES = {"itertools", "_bisect", "_collections", "collections", "_functools", "functools", "_operator",
    "_weakref", "weakref", "_thread", "threading", "contextlib", "_heapq"}
RE_FUNCS = {"match", "search", "fullmatch", "finditer", "findall", "sub", "subn", "split"}

def slice_indices(s, n):
    step = s.step
    if step is not None and realize(step) != 1:
        return slice(realize(s.start), realize(s.stop), realize(step)).indices(realize(n))
    return sym.norm_index(s.start, n, 0), sym.norm_index(s.stop, n, n), 1

def _wrapdesc(x):
    if type(x) is MethodDescriptor and x.__objclass__ is str:
        return lambda s, *a, **k: call(getattr(s, x.__name__), *a, **k)
    if type(x) in (BuiltinType, CMethodType) and type(getattr(x, "__self__", None)) in (str, re.Pattern):
        return lambda *a, **k: call(x, *a, **k)
    if type(x) is BuiltinType or x in (int, str):
        m = MODELS.get(x)
        if m is not None: return lambda *a, **k: m(*a, **k)
    return x

# -- dictionaries and sets with symbolic keys -----------------------------------
TAINTED = {}        # id -> container that holds symbolic keys

def forget_keys():
    """At the start of a path: symbolic keys of an earlier path mean nothing any more."""
    for d in list(TAINTED.values()):
        if isinstance(d, frozenset): continue
        # without comparing keys
        if isinstance(d, dict):
            keep = [(k, v) for k, v in d.items() if not _deepsym(k)]
        else:
            keep = [k for k in d if not _deepsym(k)]
        d.clear()
        d.update(keep)
    TAINTED.clear()

def _deepsym(k):
    if isinstance(k, (SymInt, SymStr)): return True
    if type(k) is tuple:
        for x in k:
            if _deepsym(x): return True
    return False

def _mark(k):
    if isinstance(k, (SymInt, SymStr)): k.keyed = True
    elif type(k) is tuple:
        for x in k: _mark(x)

_STRS = (str, SymStr)
_INTS = (int, SymInt, SymBool)
def _same_kind(a, b):
    if isinstance(a, _STRS): return isinstance(b, _STRS)
    if isinstance(a, _INTS): return isinstance(b, _INTS) or isinstance(b, float)
    if type(a) is tuple: return type(b) is tuple and len(a) == len(b)
    return True

def key(d, k):
    """The key to use for k in dict/set d: an equal existing key, else k."""
    if isinstance(d, (dict, set, frozenset)):
        if _deepsym(k):
            if isinstance(k, SymStr) and not k.ch: return ""
            for x in list(d):
                if x is k: return x
                if _same_kind(k, x) and x == k: return x
            TAINTED[id(d)] = d
            _mark(k)
        elif id(d) in TAINTED:
            for x in list(d):
                if x is k: return x
                if _same_kind(k, x) and x == k: return x
    return k

def getitem(x, k):
    if isinstance(x, dict) and (TAINTED or isinstance(k, Sym) or type(k) is tuple):
        return x[key(x, k)]
    if isinstance(x, (list, tuple)) and isinstance(k, SymInt):
        return x[realize(k)]
    return x[k]

def mkset(items):
    s = set()
    for x in items:
        s.add(key(s, x))
    return s

def mkdict(items):
    d = {}
    for k, v in items: d[key(d, k)] = v
    return d

KEYED_METHODS = {"get", "setdefault", "pop", "add", "discard", "remove", "__contains__", "__getitem__", "__setitem__", "__delitem__"}

def call(f, /, *a, **k):
    t = type(f)
    if t is FunctionType:
        SEEN.add(f.__code__)
        if f.__module__ == "re":
            if any_sym(a, k):
                return re_func(f, a, k)
            return f(*a, **k)
        if f.__module__ == "fnmatch" and any_sym(a, k):
            return fnmatch_func(f, a, k)
        return f(*a, **k)
    if t is MethodType:
        SEEN.add(getattr(f.__func__, "__code__", None))
        return f(*a, **k)
    if t is BuiltinType or t is CMethodType:
        self = f.__self__
        ts = type(self)
        if self is None or ts is types.ModuleType:
            m = MODELS.get(f)
            if m is not None:
                return m(*a, **k)
            if f in PASS_FUNCS:
                if k: k = {n: _wrapdesc(v) for n, v in k.items()}
                return f(*a, **k)
            if ts is types.ModuleType and self.__name__ in PASS_MODULES:
                return f(*a, **k)
            if any_sym(a, k):
                return f(*map(realize, a), **{n: realize(v) for n, v in k.items()})
            return f(*a, **k)
        if ts is str:
            n = f.__name__
            if n == "join":
                return join(self, *a)
            if n == "format":
                return str_format(self, a, k)
            if any_sym(a, k) or (a and isinstance(a[0], tuple) and any_sym(a[0], {})):
                if n in ("encode", "translate"): pass
                return getattr(SymStr(sym.str_chars(self)), n)(*a, **k)
            return f(*a, **k)
        if ts is re.Pattern:
            if any_sym(a, k):
                return pat_call(self, f.__name__, a, k)
            if any(type(x) is FunctionType for x in a):
                return f(*a, **k)
            return f(*a, **k)
        if ts is slice and f.__name__ == "indices":
            return slice_indices(self, *a)
        if isinstance(self, PASS_SELF):
            if a and f.__name__ in KEYED_METHODS and isinstance(self, (dict, set)) and (TAINTED or _deepsym(a[0])):
                a = (key(self, a[0]),) + a[1:]
            elif a and f.__name__ == "update" and isinstance(self, set) and isinstance(a[0], (list, tuple, set)) and (id(self) in TAINTED or any(_deepsym(x) for x in a[0])):
                for it in a:
                    for x in it: self.add(key(self, x))
                return None
            if k: k = {n: _wrapdesc(v) for n, v in k.items()}
            return f(*a, **k)
        if any_sym(a, k) and ts.__module__ not in PASS_MODULES and not ts.__module__.startswith("parce"):
            return f(*map(realize, a), **{n: realize(v) for n, v in k.items()})
        return f(*a, **k)
    if t is type:
        m = MODELS.get(f)
        if m is not None: return m(*a, **k)
        if f in (set, frozenset) and a:
            it = list(a[0])
            if any(_deepsym(x) for x in it):
                r = mkset(it)
                if f is frozenset:
                    r = frozenset(r); TAINTED[id(r)] = r
                return r
            return f(it)
        if f in (map, filter) and a:
            return f(_wrapdesc(a[0]), *a[1:])
        return f(*a, **k)
    if t is MethodDescriptor:
        if f.__objclass__ is str and a and isinstance(a[0], Sym):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if f.__objclass__ is str:
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        return f(*a, **k)
    return f(*a, **k)

def fnmatch_func(f, a, k):
    """fnmatch() and fnmatchcase() with a symbolic name: a match of the translated pattern (POSIX: no case folding)."""
    import fnmatch
    name, pat = (list(a) + [k.get("name"), k.get("pat")])[:2] if len(a) == 2 else (a[0] if a else k["name"], k["pat"])
    pat = realize(pat)
    if f.__name__ in ("fnmatch", "fnmatchcase"):
        return pat_call(re.compile(fnmatch.translate(pat)), "match", [name], {}) is not None
    if f.__name__ == "filter":
        raise core.Inconclusive("fnmatch.filter on symbolic names")
    return f(*map(realize, a), **{n: realize(v) for n, v in k.items()})

def str_format(s, a, k):
    if not any_sym(a, k): return s.format(*a, **k)
    import string
    out = ""; auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out = out + lit
        if field is None: continue
        if spec or conv or "." in field or "[" in field:
            return s.format(*map(realize, a), **{n: realize(v) for n, v in k.items()})
        if field == "": v = a[auto]; auto += 1
        elif field.isdigit(): v = a[int(field)]
        else: v = k[field]
        out = out + (v if isinstance(v, (SymStr, FunStr)) else format(v))
    return out

def _symstr(x):
    if isinstance(x, str): return SymStr(tuple(map(ord, x)))
    if isinstance(x, FunStr): raise core.Inconclusive("regex on FunStr")
    return x

def pat_call(pat, name, a, k):
    sp = symre.SymPattern(pat)
    k = {("string" if n == "string" else n): v for n, v in k.items()}
    a = list(a)
    if name in ("sub", "subn"):
        if len(a) > 1: a[1] = _symstr(a[1])
        elif "string" in k: k["string"] = _symstr(k["string"])
    else:
        if a: a[0] = _symstr(a[0])
        elif "string" in k: k["string"] = _symstr(k["string"])
    return getattr(sp, name)(*a, **k)

def re_func(f, a, k):
    n = f.__name__
    if n in RE_FUNCS:
        a = list(a)
        flags = k.pop("flags", 0)
        p = a[0]
        limit = {"match": 2, "search": 2, "fullmatch": 2, "finditer": 2, "findall": 2, "sub": 4, "subn": 4, "split": 3}[n]
        if len(a) > limit: flags = a[limit]; del a[limit]
        if isinstance(p, Sym): p = realize(p)
        pat = p if isinstance(p, re.Pattern) else re.compile(p, flags)
        if any_sym(a[1:], k):
            return pat_call(pat, n, a[1:], k)
        return getattr(pat, n)(*a[1:], **k)
    if n == "escape":
        s = a[0]
        if isinstance(s, SymStr):
            sp = {i for i in range(128) if re.escape(chr(i)) != chr(i)}
            out = []
            for c in s.ch:
                if sym.decide(sym.char_test(c, "re.escape", lambda x: x in sp)): out.append(92)
                out.append(c)
            return sym.mkstr(tuple(out))
    return f(*map(realize, a), **{n: realize(v) for n, v in k.items()})

def contains(x, c):
    if isinstance(c, (dict, set, frozenset)) and (TAINTED or _deepsym(x)):
        return key(c, x) in c
    if isinstance(c, (SymStr,)):
        return c.__contains__(x)
    if isinstance(x, SymStr) and type(c) is str:
        return SymStr(sym.str_chars(c)).__contains__(x)
    if isinstance(x, SymInt) and type(c) is range and c.step == 1:
        return sym.sand([x >= c.start, x < c.stop])
    if isinstance(x, (SymStr, SymInt)) and type(c) in (list, tuple):
        zs = []
        for y in c:
            r = (y == x)
            zs.append(sym.tobool(r))
        return sym.sor(zs)
    return x in c

def not_contains(x, c):
    r = contains(x, c)
    if isinstance(r, SymBool): return r.negate()
    return not r

import operator as _operator
MODELS[_operator.contains] = lambda c, x: contains(x, c)
import itertools as _itertools
# islice() turns any exception of __index__ into a ValueError, so give it real numbers
MODELS[_itertools.islice] = lambda it, *a: _itertools.islice(it, *map(realize, a))
MODELS[_operator.getitem] = lambda c, k: getitem(c, k)

def truth(x):
    """Value with the same truth as x whose bool() is safe to take natively."""
    if isinstance(x, Sym) or x is None or x is True or x is False: return x
    t = type(x)
    f = getattr(t, "__bool__", None)
    if f is not None:
        if type(f) is FunctionType: return f(x)
        return x
    f = getattr(t, "__len__", None)
    if type(f) is FunctionType: return f(x)
    return x

def notop(x):
    x = truth(x)
    if isinstance(x, SymBool): return x.negate()
    if isinstance(x, SymInt): return x == 0
    return not x

def orop(a, f):
    return a if truth(a) else f()

def andop(a, f):
    return f() if truth(a) else a

def fstr(*parts):
    out = ""
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 97: v = ascii(v)
            elif conv == 114: v = repr(v)
            elif conv == 115: v = m_str(v)
            if isinstance(v, (SymStr, FunStr)) and not spec: pass
            else: v = format(v, spec)
            out = out + v
        else:
            out = out + p
    return out

ENV = {"__vp_or__": orop, "__vp_and__": andop, "__vp_getitem__": getitem, "__vp_key__": key, "__vp_mkset__": mkset, "__vp_mkdict__": mkdict, "__vp_call__": call, "__vp_in__": contains, "__vp_notin__": not_contains, "__vp_not__": notop, "__vp_truth__": truth,
       "__vp_tick__": tick, "__vp_fstr__": fstr}


# -- deterministic replacement for identity-hashed weak sets ------------------
import weakref as _weakref

class OrderedWeakSet:
    """weakref.WeakSet with insertion order (the original's order depends on addresses)."""
    def __init__(self, data=()):
        self._d = {}
        for x in data: self.add(x)
    def _key(self, x): return id(x)
    def add(self, x):
        k = id(x)
        if k in self._d and self._d[k]() is x: return
        self._d[k] = _weakref.ref(x)
    def discard(self, x):
        r = self._d.get(id(x))
        if r is not None and r() is x: del self._d[id(x)]
    def remove(self, x):
        if x not in self: raise KeyError(x)
        self.discard(x)
    def __contains__(self, x):
        r = self._d.get(id(x))
        return r is not None and r() is x
    def __iter__(self):
        for r in list(self._d.values()):
            x = r()
            if x is not None: yield x
    def __len__(self): return sum(1 for _ in self)
    def clear(self): self._d.clear()
    def pop(self):
        for x in self:
            self.discard(x); return x
        raise KeyError("pop from empty WeakSet")
    def update(self, it):
        for x in it: self.add(x)

_weakref.WeakSet = OrderedWeakSet
