"""Languages given as data, an independent reference lexer for them, and tree comparison."""
import re
from parce import Language, lexicon, default_action, default_target
from parce.tree import Context
from parce.rule import bygroup, call, select, TEXT
import parce.action as act


class Lex:
    """rules: (pattern, action, *target); target items: int or the name of a lexicon.
    An action given as a tuple means bygroup. default: None, ("action", a) or ("target", ...)"""
    def __init__(self, name, *rules, default=None, consume=False, flags=0):
        self.name = name; self.rules = rules; self.default = default
        self.consume = consume; self.flags = flags


def rules_of(spec, hook=None):
    def rules(cls):
        for pat, a, *tg in spec.rules:
            if isinstance(a, tuple): a = bygroup(*a)
            elif hook is not None: a = select(call(hook, TEXT), a)
            yield (pat, a, *[getattr(cls, t) if isinstance(t, str) else t for t in tg])
        if spec.default is not None:
            kind, *x = spec.default
            if kind == "action": yield default_action, x[0]
            else: yield (default_target, *[getattr(cls, t) if isinstance(t, str) else t for t in x])
    rules.__name__ = spec.name
    return rules


def make(name, *specs, hook=None):
    """A Language class for the specs, with the specs in its `spec` dict.
    A hook is called with the text for every match of a rule that has no group action."""
    ns = {}
    for s in specs:
        ns[s.name] = lexicon(re_flags=s.flags, consume=s.consume)(rules_of(s, hook))
    L = type(Language)(name, (Language,), ns)
    L.spec = {s.name: s for s in specs}
    return L


_rx = {}
def rx(pat, flags):
    k = (pat, flags)
    if k not in _rx: _rx[k] = re.compile(pat, flags)
    return _rx[k]


def ref_match(spec, text, pos, skip_empty):
    """The first rule that matches at pos: (matched text, match, rule)."""
    for r in spec.rules:
        m = rx(r[0], spec.flags).match(text, pos)
        if m:
            if m.end() == pos and (skip_empty or len(r) == 2): return None
            return m.end(), m, r
    return None


def ref_lex(lang, root, text, pos=0, limit=None):
    """Reference lexer: returns (events, stack).  An event is (stack, [(pos, text, action)])
    with the stack of lexicon names in which the tokens belong."""
    stack = [root]
    events = []
    n = len(text)
    steps = 0
    moves = 0           # state changes without progress
    while True:
        steps += 1
        if limit is not None and steps > limit: return events, None
        spec = lang.spec[stack[-1]]
        kind = spec.default[0] if spec.default is not None else None
        found = None
        p = pos
        while p <= n:
            found = ref_match(spec, text, p, False)
            if found is not None or kind == "target": break
            p += 1
        if found is None:
            if kind == "action" and pos < n:
                events.append((list(stack), [(pos, text[pos:], spec.default[1])]))
            if kind == "target" and pos < n:
                tg = spec.default[1:]
                ref_target(stack, tg)
                continue
            return events, stack
        end, m, rule = found
        if kind == "action" and p > pos:
            events.append((list(stack), [(pos, text[pos:p], spec.default[1])]))
        pos = p
        a = rule[1]
        if isinstance(a, tuple):
            lexemes = [(m.start(i + 1), m.group(i + 1), b) for i, b in enumerate(a) if m.group(i + 1)]
        else:
            lexemes = [(pos, text[pos:end], a)]
        if end == pos: lexemes = []
        old = list(stack)
        if len(rule) > 2: ref_target(stack, rule[2:])
        if lexemes:
            into = stack if pushes(rule[2:]) and lang.spec[stack[-1]].consume else old
            events.append((list(into), lexemes))
        pos = end


def pushes(tg):
    """Whether a target ends with at least one pushed lexicon."""
    k = 0
    for t in tg:
        if isinstance(t, int) and t < 0: k = max(0, k + t)
        elif isinstance(t, int): k += t
        else: k += 1
    return k > 0


def ref_target(stack, tg):
    """Apply target items one by one; the root always remains."""
    cur = stack[-1]
    # what is left and what is entered; the root is kept even if more is popped
    keep = len(stack); new = []
    for t in tg:
        if isinstance(t, int):
            if t < 0:
                for _ in range(-t):
                    if new: new.pop()
                    else: keep -= 1
            else: new.extend([cur] * t)
        else: new.append(t)
    del stack[max(keep, 1):]
    stack.extend(new)


def fold(root, events):
    """Stack and lexemes per event of a Lexer event stream, from the targets alone."""
    stack = [root]
    out = []
    for target, lexemes in events:
        if target:
            stack = (stack[:target.pop] if target.pop else list(stack)) + list(target.push)
        out.append((list(stack), list(lexemes)))
    return out


def dump(context):
    """Nested description of a tree."""
    out = []
    for n in context:
        if n.is_token: out.append((n.pos, n.text, n.action, n.group))
        else: out.append([n.lexicon, dump(n)])
    return out


def show(context):
    out = []
    for n in context:
        if n.is_token: out.append([n.pos, n.text, str(n.action), n.group])
        else: out.append([n.lexicon.name, show(n)])
    return out


def same_tree(sx, a, b, label):
    """Trees are identical: lexicons, positions, texts, actions, groups, parent links."""
    sx.check(a.lexicon is b.lexicon, label + ": lexicon of a context")
    sx.check(len(a) == len(b), label + ": number of nodes in a context")
    for x, y in zip(a, b):
        if x.is_token:
            ok = (x.parent is a and y.is_token and x.pos == y.pos and x.action is y.action
                and x.group == y.group and len(x.text) == len(y.text))
            if not ok: sx.check(False, label + ": token differs")
            if x.text is not y.text: sx.check(x.text == y.text, label + ": token text")
        else:
            if x.parent is not a or y.is_token: sx.check(False, label + ": context differs")
            same_tree(sx, x, y, label)
