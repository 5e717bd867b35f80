"""Path explorer: decides branches and assertions with z3, re-executing the
program under test once per feasible path.

Conditions are `Cond` objects: linear integer atoms, membership of a symbolic
character in a set, or arbitrary z3 formulas.  A small propagation layer
(`Facts`: bounds of linear terms, remaining value sets of characters) answers
conditions that already follow from the path; everything else goes to z3."""
import time
import z3


class Stop(BaseException):
    """Control-flow exceptions of the engine; never an `Exception`, so that
    code under test cannot swallow them."""

class PathInfeasible(Stop): pass
class SplitHere(Stop): pass
class Inconclusive(Stop): pass
class OutOfFuel(Stop): pass
class CheckFailed(Stop):
    def __init__(self, label, detail=None):
        super().__init__(label)
        self.label = label
        self.detail = detail


CUR = None      # the running engine

TRIVIAL, FORCED, TWOWAY, OTHER = range(4)


class Node:
    __slots__ = ("cond", "taken", "alt", "pushed", "val", "kind", "constrains")
    def __init__(self, cond, taken, alt, val, kind, constrains):
        self.cond = cond; self.taken = taken; self.alt = alt
        self.pushed = False; self.val = val; self.kind = kind; self.constrains = constrains


class Counter:
    FIELDS = ("paths", "branches", "queries", "sat", "unsat", "solver_s", "checks", "check_queries", "witness", "propagated")
    def __init__(self):
        for f in self.FIELDS: setattr(self, f, 0)
        self.solver_s = 0.0
    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}
    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])


# ---------------------------------------------------------------- conditions
class Facts:
    __slots__ = ("lo", "hi", "ne", "sets", "dep", "known")
    def __init__(self):
        self.lo = {}; self.hi = {}; self.ne = {}      # linear terms -> bounds
        self.sets = {}                   # char var -> remaining code points
        self.dep = set()                 # char vars related to others
        self.known = {}                  # other conditions


class Le:
    """T <= k, T canonical linear terms."""
    __slots__ = ("t", "k", "key", "_z")
    def __init__(self, t, k): self.t = t; self.k = k; self.key = (0, t, k); self._z = None
    def z(self):
        if self._z is None: self._z = lin_z3(self.t, 0) <= iv(self.k)
        return self._z
    def decide(self, f):
        hi = f.hi.get(self.t)
        if hi is not None and hi <= self.k: return True
        lo = f.lo.get(self.t)
        if lo is not None and lo > self.k: return False
        return None
    def learn(self, f, v):
        t = self.t
        for n, _ in t: f.dep.update(DEPS.get(n, (n,)))
        if v:
            h = f.hi.get(t)
            if h is None or self.k < h: f.hi[t] = self.k
        else:
            l = f.lo.get(t)
            if l is None or self.k + 1 > l: f.lo[t] = self.k + 1
    independent = False
    def __repr__(self): return "%s <= %s" % (self.t, self.k)


class Eq:
    __slots__ = ("t", "k", "key", "_z")
    def __init__(self, t, k): self.t = t; self.k = k; self.key = (1, t, k); self._z = None
    def z(self):
        if self._z is None: self._z = lin_z3(self.t, 0) == iv(self.k)
        return self._z
    def decide(self, f):
        lo = f.lo.get(self.t); hi = f.hi.get(self.t)
        if lo is not None:
            if lo > self.k: return False
            if lo == hi and lo == self.k: return True
        if hi is not None and hi < self.k: return False
        n = f.ne.get(self.t)
        if n is not None and self.k in n: return False
        return None
    def learn(self, f, v):
        t = self.t
        for n, _ in t: f.dep.update(DEPS.get(n, (n,)))
        if v: f.lo[t] = f.hi[t] = self.k
        else:
            n = f.ne.setdefault(t, set()); n.add(self.k)
            l = f.lo.get(t)
            if l is not None:
                while l in n: l += 1
                f.lo[t] = l
            h = f.hi.get(t)
            if h is not None:
                while h in n: h -= 1
                f.hi[t] = h
    independent = False
    def __repr__(self): return "%s == %s" % (self.t, self.k)


class InSet:
    """Symbolic character (variable) in a set of code points."""
    __slots__ = ("ch", "sub", "key", "_z")
    def __init__(self, ch, sub): self.ch = ch; self.sub = sub; self.key = (2, ch.name, sub); self._z = None
    def z(self):
        if self._z is None:
            k = (self.ch.name, self.sub, self.ch.alpha)
            r = _inset_z.get(k)
            if r is None: r = _inset_z[k] = inset_z3(self.ch, self.sub)
            self._z = r
        return self._z
    def decide(self, f):
        cur = f.sets.get(self.ch.name)
        if cur is None: cur = self.ch.alpha.set
        if cur <= self.sub: return True
        if not (cur & self.sub): return False
        return None
    def learn(self, f, v):
        cur = f.sets.get(self.ch.name)
        if cur is None: cur = self.ch.alpha.set
        f.sets[self.ch.name] = (cur & self.sub) if v else (cur - self.sub)
    independent = True
    def __repr__(self): return "%s in %s" % (self.ch.name, sorted(self.sub)[:8])

_inset_z = {}


class Z:
    """Any z3 Bool; vars: character variables that occur in it (None: unknown)."""
    __slots__ = ("e", "key", "vars")
    def __init__(self, e):
        self.e = e; i = e.get_id(); self.key = (3, i); self.vars = z3_vars(e); _keep[i] = e
    def z(self): return self.e
    def decide(self, f): return f.known.get(self.key)
    def learn(self, f, v):
        f.known[self.key] = v
        f.dep.update(self.vars)
    independent = False
    def __repr__(self): return str(self.e)

_keep = {}
DEPS = {}       # opaque term name -> variables in it
_zvars = {}
def z3_vars(e):
    i = e.get_id()
    r = _zvars.get(i)
    if r is None:
        r = set()
        if z3.is_const(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(e.decl().name())
        else:
            for c in e.children(): r |= z3_vars(c)
        _zvars[i] = r = frozenset(r)
        _keep[i] = e
    return r
_ivs = {}
def iv(n):
    r = _ivs.get(n)
    if r is None: r = _ivs[n] = z3.IntVal(n)
    return r

VARS = {}       # term name -> z3 Int expression
_linz = {}
def lin_z3(t, c):
    """z3 expression for canonical terms + constant."""
    k = (t, c)
    r = _linz.get(k)
    if r is None:
        parts = [VARS[n] if q == 1 else VARS[n] * iv(q) for n, q in t]
        if c or not parts: parts.append(iv(c))
        r = parts[0] if len(parts) == 1 else z3.Sum(parts)
        _linz[k] = r
    return r


def inset_z3(ch, sub):
    uni = ch.alpha.cps
    idx = ch.alpha.index
    runs = []
    prev = None
    full = len(sub) == len(uni)     # the domain constraint itself
    for c in sorted(sub):
        i = c if full else idx[c]
        if runs and i == prev + 1: runs[-1][1] = c
        else: runs.append([c, c])
        prev = i
    e = VARS[ch.name]
    ors = [e == iv(a) if a == b else z3.And(e >= iv(a), e <= iv(b)) for a, b in runs]
    return ors[0] if len(ors) == 1 else z3.Or(*ors)


class Engine:
    def __init__(self, prefix=(), split_depth=None, fuel=200000, query_ms=30000, max_realize=400, eager=False):
        self.trace = []
        self.prefix = list(prefix)
        self.split_depth = split_depth
        self.fuel0 = fuel
        self.max_realize = max_realize
        self.eager = eager
        self.c = Counter()
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.solver.set("random_seed", 1)
        self.deadline = None
        self.nsync = 0

    # -- running ---------------------------------------------------------
    def explore(self, fn, on_path):
        """Run fn() on every feasible path. on_path(engine, outcome) is called
        at the end of each, outcome = ("ok", value) | ("fail", label, detail) |
        ("split", prefix).  on_path returns True to stop."""
        global CUR
        from . import rt
        while True:
            CUR = self
            self.pos = 0
            self.fuel = self.fuel0
            self.counters = {}
            self.inputs = {}
            self.cleanup = []
            self.facts = Facts()
            rt.forget_keys()
            self.npref = 0
            self.depth = 0
            outcome = None
            try:
                outcome = ("ok", fn())
            except PathInfeasible:
                pass
            except SplitHere:
                outcome = ("split", [(n.taken, n.val, n.kind) for n in self.trace if n.kind in (FORCED, TWOWAY)])
            except CheckFailed as e:
                outcome = ("fail", e.label, e.detail)
            except OutOfFuel as e:
                outcome = ("fail", "nontermination", str(e))
            except Stop:
                raise
            except RecursionError as e:
                outcome = ("fail", "exception:RecursionError", "recursion")
            except Exception as e:
                import traceback
                outcome = ("fail", "exception:" + type(e).__name__, traceback.format_exc(limit=-4))
            finally:
                for f in self.cleanup:
                    f()
            if outcome is not None:
                if outcome[0] != "split":
                    self.c.paths += 1
                    # reachability twin: the path condition is satisfiable
                    if not self.query():
                        raise Inconclusive("internal error: infeasible path explored")
                if on_path(self, outcome):
                    return
            CUR = None
            if not self._backtrack():
                return

    def _backtrack(self):
        tr = self.trace
        while tr:
            n = tr[-1]
            if n.pushed:
                self.solver.pop()
                n.pushed = False
            self.nsync = min(self.nsync, len(tr) - 1)
            if n.alt:
                n.taken = not n.taken
                n.alt = False
                return True
            tr.pop()
        return False

    # -- solver ------------------------------------------------------------
    def _sync(self):
        tr = self.trace
        s = self.solver
        while self.nsync < len(tr):
            n = tr[self.nsync]
            if n.constrains:
                s.push()
                z = n.cond.z()
                s.add(z if n.taken else z3.Not(z))
                n.pushed = True
            self.nsync += 1

    def query(self, *conds):
        t = time.perf_counter()
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("time budget exhausted")
        self._sync()
        r = self.solver.check(*conds)
        self.c.solver_s += time.perf_counter() - t
        self.c.queries += 1
        if r == z3.sat:
            self.c.sat += 1
            return True
        if r == z3.unsat:
            self.c.unsat += 1
            return False
        raise Inconclusive("solver answered unknown: " + self.solver.reason_unknown())

    def model(self, *conds):
        if not self.query(*conds):
            return None
        return self.solver.model()

    # -- decisions -----------------------------------------------------------
    def _node(self, cond, taken, kind, val=None, alt=False, constrains=True):
        self.trace.append(Node(cond, taken, alt, val, kind, constrains))
        self._step(kind)
        cond.learn(self.facts, taken)

    def _step(self, kind):
        self.pos += 1
        if kind == FORCED or kind == TWOWAY:
            self.npref += 1
            if kind == TWOWAY:
                self.depth += 1

    def _two_way(self, cond, val=None):
        if self.split_depth is not None and self.depth >= self.split_depth:
            raise SplitHere()
        self.c.branches += 1
        self._node(cond, True, TWOWAY, val, alt=True)

    def branch(self, cond):
        """Decide a Cond on this path."""
        r = cond.decide(self.facts)
        if r is not None:
            self.c.propagated += 1
            return r
        if self.pos < len(self.trace):
            n = self.trace[self.pos]
            if n.cond.key != cond.key:
                raise Inconclusive("non-deterministic execution: expected %s got %s" % (n.cond, cond))
            self._step(n.kind)
            cond.learn(self.facts, n.taken)
            return n.taken
        if self.npref < len(self.prefix):
            taken, v, kind = self.prefix[self.npref]
            self._node(cond, taken, kind, None, constrains=kind == TWOWAY)
            return taken
        if cond.independent and cond.ch.name not in self.facts.dep:
            # the variable occurs in set constraints only: both sides are possible
            self._two_way(cond)
            return True
        z = cond.z()
        t = self.query(z)
        if t and self.query(z3.Not(z)):
            self._two_way(cond)
            return True
        # the path condition (which is sat) implies the result
        self._node(cond, t, FORCED, constrains=False)
        return t

    def valid(self, cond, neg=False):
        """Does the path condition imply cond?  (Recorded, so that re-execution agrees.)"""
        r = cond.decide(self.facts)
        if r is not None: return r != neg
        if self.pos < len(self.trace):
            n = self.trace[self.pos]
            self._step(n.kind)
        elif self.npref < len(self.prefix):
            taken, v, kind = self.prefix[self.npref]
            self.trace.append(Node(cond, taken, False, None, kind, False))
            self._step(kind)
            n = self.trace[-1]
        else:
            r = not self.query(cond.z() if neg else z3.Not(cond.z()))
            self.trace.append(Node(cond, r, False, None, FORCED, False))
            self._step(FORCED)
            n = self.trace[-1]
        if n.taken: cond.learn(self.facts, not neg)
        return n.taken

    def assume(self, cond, neg=False):
        if isinstance(cond, bool):
            if cond == neg:
                raise PathInfeasible()
            return
        r = cond.decide(self.facts)
        if r is not None:
            if r == neg: raise PathInfeasible()
            return
        if self.pos < len(self.trace):
            n = self.trace[self.pos]
            if n.cond.key != cond.key: raise Inconclusive("non-deterministic execution (assume)")
            self._step(n.kind)
            cond.learn(self.facts, n.taken)
            return
        self._node(cond, not neg, OTHER)
        if not self.query():
            raise PathInfeasible()

    def declare(self, cond, neg=False):
        """Constrain a fresh input (known to be satisfiable)."""
        if self.pos < len(self.trace):
            n = self.trace[self.pos]
            self._step(n.kind)
            cond.learn(self.facts, n.taken)
            return
        self._node(cond, not neg, OTHER)

    def realize_int(self, mk):
        """Fork over the values of an integer term; mk: object with .lin() and .eq(v)."""
        for i in range(self.max_realize):
            if self.pos < len(self.trace):
                n = self.trace[self.pos]
                if n.val is None:
                    raise Inconclusive("non-deterministic execution (value)")
                self._step(n.kind)
                n.cond.learn(self.facts, n.taken)
                if n.taken:
                    return n.val
                continue
            if self.npref < len(self.prefix):
                taken, v, kind = self.prefix[self.npref]
                self._node(mk.cond_eq(v), taken, kind, v, constrains=kind == TWOWAY)
                if taken:
                    return v
                continue
            v, certain = mk.pick(self)
            cond = mk.cond_eq(v)
            if certain or self.query(z3.Not(cond.z())):
                self._two_way(cond, v)
            else:
                self._node(cond, True, FORCED, v, constrains=False)
            return v
        raise Inconclusive("more than %d values for %s" % (self.max_realize, mk))

    def check(self, cond, label, detail=None, neg=False):
        """Assert a Cond or bool; fails the path if it can be false."""
        self.c.checks += 1
        if isinstance(cond, bool):
            if cond == neg:
                raise CheckFailed(label, detail)
            return
        r = cond.decide(self.facts)
        if r is not None and r != neg:
            return
        if self.pos < len(self.trace):
            n = self.trace[self.pos]
            self._step(n.kind)
            cond.learn(self.facts, n.taken)
            return
        z = cond.z()
        self.c.check_queries += 1
        if self.query(z if neg else z3.Not(z)):
            self._node(cond, neg, OTHER)
            raise CheckFailed(label, detail)
        self._node(cond, not neg, OTHER)

    def fresh(self, name):
        """Deterministic fresh name."""
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return "%s!%d" % (name, n) if n else name

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise OutOfFuel("loop budget exhausted")
