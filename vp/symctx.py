import z3
from . import core, sym, symbytes
from .sym import SymInt, SymBool, SymStr, SymChar, Alphabet, FunStr, IV, mkbool, tobool, sand, sor, snot


class SymCtx:
    symbolic = True
    def __init__(self, eng):
        self.eng = eng
        self.eager = eng.eager
    def _reg(self, name, v):
        if name in self.eng.inputs: raise AssertionError("duplicate input " + name)
        self.eng.inputs[name] = v
    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            self._reg(name, lo); return lo
        v = sym.var(name)
        self._reg(name, v)
        if lo is not None: self.assume(v >= lo)
        if hi is not None: self.assume(v <= hi)
        if self.eager and lo is not None and hi is not None: return sym.realize(v)
        return v
    def bool(self, name):
        v = SymBool(core.Z(z3.Bool(name)))
        self._reg(name, v)
        if self.eager: return bool(v)
        return v
    def str(self, name, n, alphabet=None, small=None):
        alphabet = Alphabet(small if self.eager and small else alphabet)
        ch = []
        for i in range(n):
            c = SymChar("%s[%d]" % (name, i), alphabet)
            ch.append(c if len(alphabet.cps) > 1 else alphabet.cps[0])
            if len(alphabet.cps) > 1: self.eng.declare(core.InSet(c, alphabet.set))
        v = sym.mkstr(tuple(ch))
        self._reg(name, v)
        if self.eager and isinstance(v, SymStr): return v.realize()
        return v
    def const(self, name, value):
        self._reg(name, value)
        return value
    def fixed(self, v):
        """Have the solver enumerate the values of v (where the code needs a concrete value)."""
        return sym.realize(v)
    def text(self, name):
        v = FunStr.var(name)
        self._reg(name, v)
        return v
    def choice(self, name, options):
        if len(options) == 1:
            self._reg(name, 0); return options[0]
        v = sym.var(name)
        self._reg(name, v)
        self.eng.declare(core.Le(v.t, -1), neg=True)
        self.eng.declare(core.Le(v.t, len(options) - 1))
        return options[sym.realize(v)]
    def assume(self, cond):
        c = tobool(cond)
        if isinstance(c, bool): self.eng.assume(c)
        else: self.eng.assume(c.c, c.neg)
    def check(self, cond, label, detail=None):
        c = tobool(cond)
        if isinstance(c, bool): self.eng.check(c, label, detail)
        else: self.eng.check(c.c, label, detail, c.neg)
    def same_text(self, a, b, label):
        if isinstance(a, FunStr) or isinstance(b, FunStr):
            d = FunStr.of(a).diffz(b)
            self.check(snot(d), label)
        else:
            self.check(a == b, label)
    def same(self, a, b, label):
        self.check(deep_eq(a, b), label)
    def implies(self, a, b):
        return sor([snot(tobool(a)), tobool(b)])
    def all(self, *cs): return sand([tobool(c) for c in cs])
    def any(self, *cs): return sor([tobool(c) for c in cs])
    def iff(self, a, b):
        return tobool(a) == tobool(b)
    def ite(self, c, a, b):
        c = tobool(c)
        if isinstance(c, bool): return a if c else b
        return sym.mkint(z3.If(c.e, sym.intz(a), sym.intz(b)))


def deep_eq(a, b):
    """Structural equality of nested lists/tuples/dicts as a bool or SymBool."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b): return False
        return sand([deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            if set(a) != set(b): return False
        return sand([deep_eq(a[k], b[k]) for k in a])
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)): return a == b
        return False
    return tobool(a == b)


def evaluate(v, m):
    """Concrete Python value of a nested structure under model m."""
    if isinstance(v, SymInt): return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SymBool): return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymStr):
        return "".join(chr(c if isinstance(c, int) else m.eval(c.e, model_completion=True).as_long()) for c in v.ch)
    if isinstance(v, symbytes.SymBytes):
        return bytes(c if isinstance(c, int) else m.eval(c.e, model_completion=True).as_long() for c in v.ch)
    if isinstance(v, FunStr):
        n = m.eval(sym.intz(v.n), model_completion=True).as_long()
        out = []
        if n > 5000: raise core.Inconclusive("model text too long")
        for i in range(n):
            x = m.eval(v.at(IV(i)), model_completion=True).as_long()
            if not 0 <= x < 0xD800: x = 0xE000 + hash(x) % 0x1000
            out.append(chr(x))
        return "".join(out)
    if isinstance(v, list): return [evaluate(x, m) for x in v]
    if isinstance(v, tuple): return tuple(evaluate(x, m) for x in v)
    if isinstance(v, dict): return {k: evaluate(x, m) for k, x in v.items()}
    return v


def small_model(eng):
    """A model of the current path condition with short texts and small integers."""
    texts = [v for v in eng.inputs.values() if isinstance(v, FunStr)]
    ints = [v for v in eng.inputs.values() if isinstance(v, SymInt)]
    if texts:
        for bound in (3, 6, 20, 100):
            m = eng.model(*([sym.intz(t.n) <= bound for t in texts] + [z3.And(v.e >= -bound, v.e <= bound) for v in ints]))
            if m is not None: return m
    return eng.model()
