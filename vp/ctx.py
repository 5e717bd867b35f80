"""The context object given to harnesses: symbolic (SymCtx) or concrete (RealCtx)."""

class H:
    """A harness: fn(sx, **case) with a list of cases."""
    def __init__(self, name, fn, cases=None, split=None, bounds="", fuel=200000, expect=None, nonterm_s=10, validate=40, eager_ok=None, eager_cases=()):
        self.name = name; self.fn = fn; cases = list(cases) if cases is not None else [{}]
        self.nsym = len(cases); self.cases = cases + list(eager_cases)     # the last ones are for the degraded mode only
        self.split = split; self.bounds = bounds; self.fuel = fuel
        self.expect = expect or {}; self.nonterm_s = nonterm_s; self.eager_ok = eager_ok or (lambda case: not eager_cases); self.validate = validate


class Violation(Exception):
    def __init__(self, label, detail=None):
        super().__init__(label); self.label = label; self.detail = detail

class Assumed(Exception):
    pass


class RealCtx:
    """Replays recorded inputs on the real code."""
    symbolic = False
    eager = True
    def __init__(self, inputs): self.inputs = inputs
    def int(self, name, lo=None, hi=None): return self.inputs.get(name, lo if lo is not None else 0)
    def bool(self, name): return self.inputs.get(name, False)
    def str(self, name, n, alphabet=None, small=None): return self.inputs[name]
    def const(self, name, value): return self.inputs[name]
    def fixed(self, v): return v
    def text(self, name): return self.inputs[name]
    def choice(self, name, options):
        return options[self.inputs.get(name, 0)]
    def assume(self, cond):
        if not cond: raise Assumed()
    def check(self, cond, label, detail=None):
        if not cond: raise Violation(label, detail)
    def same_text(self, a, b, label):
        if a != b: raise Violation(label, "%r != %r" % (a, b))
    def same(self, a, b, label):
        if a != b: raise Violation(label, "%r != %r" % (a, b))
    def implies(self, a, b): return (not a) or b
    def all(self, *cs): return all(cs)
    def any(self, *cs): return any(cs)
    def ite(self, c, a, b): return a if c else b
    def iff(self, a, b): return bool(a) == bool(b)
