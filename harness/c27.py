"""C27: a worker never hands out an outdated tree or transform."""
from vp.ctx import H
import parce
from parce import Language, lexicon
from parce.work import Worker
from parce.treebuilder import TreeBuilder
from parce.transform import Transformer, Transform
import parce.action as act

ASSUMPTIONS = [
    "the process is run stage by stage (Worker.process()), each stage as a whole; edits, requests and other changes happen between stages",
    "edits and requests are made from one thread, as documented",
    "a request that does not wait may return None while work is pending",
]


class N(Language):
    """Nested brackets."""
    @lexicon
    def root(cls):
        yield r"a", act.Name
        yield r"\(", act.Delimiter, cls.nest
        yield r"\)", act.Text
    @lexicon
    def nest(cls):
        yield r"\)", act.Delimiter, -1
        yield r"a", act.Name
        yield r"\(", act.Delimiter, cls.nest
    @lexicon
    def flat(cls):
        yield r"[()]", act.Text
        yield r"a", act.Name


class T1(Transform):
    def root(self, items): return ["root"] + show(items)
    def nest(self, items): return tuple(show(items))
    def flat(self, items): return ["flat"] + show(items)


class T2(Transform):
    def root(self, items): return ["ROOT"] + show(items)
    def nest(self, items): return [tuple(show(items))]
    def flat(self, items): return ["FLAT"] + show(items)


def show(items):
    return [i.text if i.is_token else i.obj for i in items]


def transformer(t):
    x = Transformer()
    x.add_transform(N, t())
    return x


def ref(text, lx):
    """Nested structure of the text: characters with positions and lists."""
    top = []
    stack = [top]
    for i, c in enumerate(text):
        if c == "(" and lx is N.root:
            stack[-1].append((i, c)); new = []; stack[-1].append(new); stack.append(new)
        else:
            stack[-1].append((i, c))
            if c == ")" and len(stack) > 1: stack.pop()
    return top if lx is not None else []


def ref_transform(text, lx, t):
    if lx is None: return None
    def conv(l):
        out = []
        for x in l:
            if isinstance(x, tuple): out.append(x[1])
            elif x: out.append(tuple(conv(x)) if t is T1 else [tuple(conv(x))])
        return out
    name = "root" if lx is N.root else "flat"
    return [name if t is T1 else name.upper()] + conv(ref(text, lx))


def nest_of(context):
    return [(n.pos, n.text) if n.is_token else nest_of(n) for n in context]


def drop_empty(l):
    return [x if isinstance(x, tuple) else drop_empty(x) for x in l if isinstance(x, tuple) or x]


class Steps(Worker):
    """Work is done when the harness says so."""
    procs = ()
    def run_process(self):
        self.procs = list(self.procs) + [self.process()]


class World:
    def __init__(self, sx, text, trans):
        self.sx = sx
        self.lx = N.root
        self.ts = {None: None, T1: transformer(T1), T2: transformer(T2)}
        self.t = trans
        self.w = Steps(TreeBuilder(N.root), self.ts[trans])
        self.d = parce.Document(N.root, text, worker=self.w)
        self.called = []
        self.asked = 0
        self.finished = []
        self.d.connect("tree_finished", lambda: self.finished.append("tree"))

    def step(self, i, n):
        """n stages of a running process; False when there is none."""
        ps = self.w.procs
        for _ in range(n):
            if i >= len(ps): return
            try: next(ps[i])
            except StopIteration:
                del ps[i]
                return
            self.look()

    def look(self, done=False):
        """What is handed out is right."""
        sx = self.sx; d = self.d
        text = d.text()
        r = d.get_root()
        if r is not None:
            sx.check(r is d.builder().root, "the root element is always the same")
            sx.check(r.lexicon is self.lx, "lexicon of a tree that is handed out")
            sx.check(nest_of(r) == drop_empty(ref(text, self.lx)), "an outdated tree is handed out")
        elif done: sx.check(False, "no tree although all work is done")
        x = d.get_transform()
        if self.t is None: sx.check(x is None, "a transform without transformer")
        elif x is not None: sx.check(x == ref_transform(text, self.lx, self.t), "an outdated transform is handed out")
        elif done: sx.check(self.lx is None or not text, "no transform although all work is done")

    def ask(self):
        """Request the tree, be called when it is not ready."""
        def cb(who):
            self.called.append(who)
        if self.d.get_root(callback=cb) is None: self.asked += 1

    def finish(self, newest):
        while self.w.procs:
            ps = self.w.procs
            self.step(len(ps) - 1 if newest else 0, 20)
        self.look(True)
        # waiting returns at once
        self.sx.check(self.d.get_root(True) is not None, "waiting for the tree")
        self.d.get_transform(True)
        self.sx.check(len(self.called) == self.asked, "a callback is called once")
        for who in self.called: self.sx.check(who is self.d, "argument of the callback")


def edit(sx, w, name, full=True):
    d = w.d
    n = len(d)
    p = sx.fixed(sx.int("p" + name, 0, n)) if full else sx.choice("p" + name, [0, max(0, n - 1)])
    c = sx.choice("c" + name, ["(", ")"] if p == n else ["(", ")", ""])
    if c: d.insert(p, c)
    else: del d[p:p+1]


def operate(sx, w, op, name, full):
    if op == "edit": edit(sx, w, name, full)
    elif op == "flat": w.lx = N.flat; w.d.set_root_lexicon(N.flat)
    elif op == "root": w.lx = N.root; w.d.set_root_lexicon(N.root)
    elif op == "none": w.lx = None; w.d.set_root_lexicon(None)
    elif op == "ask": w.ask()
    else:
        t = {"T0": None, "T1": T1, "T2": T2}[op]
        w.t = t; w.d.set_transformer(w.ts[t])
    w.look()


STAGES = 7


def schedule(sx, text, trans, ops, first=None, full=False):
    """Operations with any number of stages of any pending process between them."""
    w = World(sx, text, trans)
    w.look()
    if first: w.step(0, 20)
    for k, op in enumerate(ops):
        n = sx.fixed(sx.int("n%d" % k, 0, STAGES))
        if n:
            i = 0
            if len(w.w.procs) > 1: i = sx.fixed(sx.int("i%d" % k, 0, len(w.w.procs) - 1))
            w.step(i, n)
        operate(sx, w, op, str(k), full)
    # more than one process may be pending: run parts of them in turn
    if len(w.w.procs) > 1:
        n = sx.fixed(sx.int("m", 0, STAGES))
        w.step(sx.fixed(sx.int("mi", 0, len(w.w.procs) - 1)), n)
    w.finish(bool(sx.bool("newest")))
    return len(w.called)


def sync(sx, ops):
    """A worker that works at once: after every operation everything is up to date."""
    ts = {"T0": None, "T1": transformer(T1), "T2": transformer(T2)}
    t = None
    lx = N.root
    w = Worker(TreeBuilder(N.root))
    d = parce.Document(N.root, sx.str("t", 2, "a()"), worker=w)
    events = []
    for e in ("tree_updated", "tree_finished", "transform_finished"): d.connect(e, (lambda e: lambda *a: events.append(e))(e))
    for k, op in enumerate(ops):
        del events[:]
        text0 = d.text()
        if op == "edit":
            class D: pass
            o = D(); o.d = d
            edit(sx, o, str(k))
            sx.check(events[:2] == ["tree_updated", "tree_finished"], "notifications of a changed tree")
            sx.check(("transform_finished" in events) == (t is not None), "notification of a changed transform")
        elif op in ("flat", "root"):
            lx = getattr(N, op); d.set_root_lexicon(lx)
        else:
            t = {"T0": None, "T1": T1, "T2": T2}[op]
            d.set_transformer(ts[op])
        sx.check(nest_of(d.get_root()) == drop_empty(ref(d.text(), lx)), "tree")
        x = d.get_transform()
        if t is None: sx.check(x is None, "a transform without transformer")
        else: sx.check(x == ref_transform(d.text(), lx, t), "transform")
    return d.text()


def nested(sx):
    """A listener that changes the text or the transformer while it is told about a change."""
    w = Worker(TreeBuilder(N.root), transformer(T1))
    d = parce.Document(N.root, "(a)", worker=w)
    ev = sx.choice("event", ["tree_updated", "tree_finished", "transform_finished"])
    what = sx.choice("what", ["edit", "flat", "T2"])
    state = [N.root, T1, 0]
    def listener(*a):
        if state[2]: return
        state[2] = 1
        if what == "edit": d.insert(0, "(")
        elif what == "flat": state[0] = N.flat; d.set_root_lexicon(N.flat)
        else: state[1] = T2; d.set_transformer(transformer(T2))
        r = d.get_root()
        if r is not None: sx.check(nest_of(r) == drop_empty(ref(d.text(), state[0])), "tree inside a notification")
    d.connect(ev, listener)
    class D: pass
    o = D(); o.d = d
    edit(sx, o, "")
    sx.check(state[2] == 1, "the listener was called")
    sx.check(nest_of(d.get_root()) == drop_empty(ref(d.text(), state[0])), "tree")
    sx.check(d.get_transform() == ref_transform(d.text(), *state[:2]), "transform")
    return d.text()


def harnesses(tier):
    q = tier == "quick"
    two = [["edit", "edit"], ["edit", "flat"], ["flat", "edit"], ["edit", "T2"], ["T2", "edit"], ["T0", "edit"], ["edit", "T0"], ["ask", "edit"],
        ["edit", "ask"], ["none", "root"], ["T2", "flat"], ["T2", "T1"]]
    three = [["edit", "edit", "edit"], ["T2", "edit", "T1"], ["edit", "flat", "edit"], ["edit", "T2", "edit"], ["ask", "edit", "ask"]]
    cases = [dict(text=t, trans=T1, ops=o) for t in ("(a)",) for o in two]
    cases += [dict(text=t, trans=None, ops=o) for t in ("(a)",) for o in two if "T1" in o or "T2" in o or o == ["edit", "edit"]]
    cases += [dict(text="a(", trans=T1, ops=o, first=True) for o in (three[1:2] if q else three)]
    if not q: cases += [dict(text=t, trans=T1, ops=o) for t in ("a(a)", "") for o in two] + [dict(text="(", trans=T1, ops=o) for o in three[2:]]
    if not q:
        for c in cases: c["full"] = len(c["ops"]) == 2
    seqs = [[a, b, c] for a in ("T1", "T2") for b in ("edit", "T0", "T1", "T2", "flat", "root") for c in ("edit", "T1", "flat")]
    seqs += [["T1", "T2", "edit", "T1"], ["T1", "T0", "edit", "T1"], ["T1", "edit", "T2", "T1"], ["T1", "T2", "flat", "T1"], ["T1", "flat", "T2", "root", "T1"]]
    return [
        H("schedule", schedule, cases, bounds="2-3 operations with every number of stages between them, every pending process, %s of one bracket" % ("edits at the begin and the end" if q else "every edit"), split=7, eager_ok=lambda c: len(c["ops"]) == 2 and not c.get("full"), fuel=400000),
        H("sync", sync, [dict(ops=s) for s in seqs], bounds="texts of 2 characters, %d sequences of 3-5 operations" % len(seqs), split=5, eager_ok=lambda c: len(c["ops"]) == 3),
        H("nested", nested, [{}], bounds="listeners that edit, change the lexicon or the transformer", split=5),
    ]
