"""C08: undo and redo restore text and modified state for every history."""
from vp.ctx import H
from parce.document import Document
from harness.c07 import text_of

ASSUMPTIONS = [
    "edits change the length of the region they replace (so that no edit is a no-op); no-op edits are covered by C07",
    "text and replacement texts are opaque character sequences of arbitrary length",
]

OPS = ["edit", "undo", "redo", "save"]


def model_step(m, op, new=None):
    """Reference: a list of text states, the current index, and the saved marker."""
    if op == "edit":
        m["states"] = m["states"][:m["cur"] + 1] + [new]
        m["ids"] = m["ids"][:m["cur"] + 1] + [m["next"]]
        m["next"] += 1
        m["cur"] += 1
    elif op == "undo":
        if m["cur"] > 0: m["cur"] -= 1
    elif op == "redo":
        if m["cur"] < len(m["states"]) - 1: m["cur"] += 1
    elif op == "save":
        m["saved"] = m["ids"][m["cur"]]


def compare(sx, d, m, where):
    sx.same_text(d.text(), m["states"][m["cur"]], "text differs " + where)
    sx.check(d.modified == (m["ids"][m["cur"]] != m["saved"]), "modified state wrong " + where)
    sx.check(d.can_undo() == (m["cur"] > 0), "can_undo wrong " + where)
    sx.check(d.can_redo() == (m["cur"] < len(m["states"]) - 1), "can_redo wrong " + where)


def edit(sx, d, t, i, k, where=None):
    """One edit block with k non-overlapping replacements; returns expected text."""
    n = len(t)
    prev = 0
    regs = []
    if where is not None:
        # an insertion at the start or the end of the text
        r = text_of(sx, "r%d" % i, [1])
        sx.assume(len(r) > 0)
        if where == "start":
            d.insert(0, r)
            return r + t
        d.append(r)
        return t + r
    for j in range(k):
        nm = "%d_%d" % (i, j)
        a = sx.int("a" + nm, 0, 2 if sx.eager else None)
        b = sx.int("b" + nm, 0, 2 if sx.eager else None)
        r = text_of(sx, "r" + nm, [0, 1])
        sx.assume(sx.all(prev <= a, a <= b, b <= n, len(r) != b - a))
        if j: sx.assume(a > first)
        first = a
        prev = b
        regs.append((a, b, r))
    if k > 1:
        # the block as a whole changes the length of the text
        sx.assume(sum(len(r) - (b - a) for a, b, r in regs) != 0)
    with d:
        for a, b, r in reversed(regs):
            d[a:b] = r
    out = ""
    pos = 0
    for a, b, r in regs:
        out = out + t[pos:a] + r
        pos = b
    return out + t[pos:]


def history(sx, ops, k, events=False, free=2):
    t = text_of(sx, "t", [2])
    d = Document(t)
    log = []
    edits = 0
    if events:
        d.connect("undo_available", lambda v: log.append(("undo", v)))
        d.connect("redo_available", lambda v: log.append(("redo", v)))
        d.connect("modification_changed", lambda v: log.append(("mod", v)))
    m = dict(states=[t], ids=[0], cur=0, saved=0, next=1)
    done = []
    for i, op in enumerate(ops):
        if op == "?": op = sx.choice("op%d" % i, OPS)
        done.append(op)
        before = (d.can_undo(), d.can_redo(), d.modified)
        del log[:]
        if op == "edit":
            new = edit(sx, d, d.text(), i, k if i == 0 else 1, None if edits < free else ("start", "end")[edits % 2])
            edits += 1
            model_step(m, op, new)
        elif op == "undo":
            d.undo(); model_step(m, op)
        elif op == "redo":
            d.redo(); model_step(m, op)
        else:
            d.modified = False; model_step(m, op)
        compare(sx, d, m, "after " + ",".join(done))
        if events:
            after = (d.can_undo(), d.can_redo(), d.modified)
            for nm, b, a in zip(("undo", "redo", "mod"), before, after):
                ev = [v for x, v in log if x == nm]
                sx.check(ev == ([a] if a != b else []), "wrong %s notification after %s" % (nm, ",".join(done)))
    # finally, walk all the way back and forth
    c = m["cur"]
    while m["cur"] > 0:
        d.undo(); model_step(m, "undo"); compare(sx, d, m, "undoing all after " + ",".join(done))
    d.undo()
    compare(sx, d, m, "undo at the start")
    while m["cur"] < len(m["states"]) - 1:
        d.redo(); model_step(m, "redo"); compare(sx, d, m, "redoing all after " + ",".join(done))
    d.redo()
    compare(sx, d, m, "redo at the end")
    return (done, len(d.text()))


def misc(sx, how):
    t = text_of(sx, "t", [0, 3])
    d = Document(t)
    if how == "clear":
        new = edit(sx, d, t, 0, 1)
        d.undo()
        d.clear_undo_redo()
        sx.check(not d.can_undo() and not d.can_redo(), "clear")
        d.redo(); d.undo()
        sx.same_text(d.text(), t, "undo after clear changed the text")
    elif how == "disabled":
        d.undo_redo_enabled = False
        new = edit(sx, d, t, 0, 1)
        sx.check(not d.can_undo(), "undo recorded although disabled")
        d.undo()
        sx.same_text(d.text(), new, "undo although disabled")
    elif how == "off_undo":
        new = edit(sx, d, t, 0, 1)
        d.undo_redo_enabled = False
        d.undo()
        sx.same_text(d.text(), t, "undo while recording is off")
        sx.check(not d.can_undo() and not d.can_redo(), "recorded although recording is off")
        d.redo()
        sx.same_text(d.text(), t, "redo of what was not recorded")
    elif how == "in_context":
        new = edit(sx, d, t, 0, 1)
        bad = 0
        for f in (d.undo, d.redo):
            try:
                with d:
                    f()
            except RuntimeError:
                bad += 1
        sx.check(bad == 2, "undo allowed in an edit block")
        sx.same_text(d.text(), new, "rejected undo changed the text")
        d.undo()
        sx.same_text(d.text(), t, "undo after rejected undo")
    elif how == "revision":
        r0 = d.revision()
        new = edit(sx, d, t, 0, 1)
        sx.check(d.revision() != r0, "revision not changed by an edit")
        r1 = d.revision()
        d.undo()
        sx.check(d.revision() not in (r0, r1), "revision not changed by undo")
    elif how == "rejected":
        n = len(t)
        sx.assume(n >= 3)
        raised = False
        try:
            with d:
                d[0:2] = "abc"
                d[1:3] = "xyz"
        except RuntimeError:
            raised = True
        sx.check(raised, "overlap accepted")
        sx.check(not d.can_undo() and not d.modified, "rejected edits recorded for undo")
        new = edit(sx, d, t, 0, 1)
        d.undo()
        sx.same_text(d.text(), t, "undo after a rejected batch")
    return len(d.text())


def harnesses(tier):
    n = 4 if tier == "quick" else 5
    cs = [dict(ops=["edit"] + ["?"] * (n - 1), k=1), dict(ops=["edit"] + ["?"] * n, k=1, free=1)]
    cs += [dict(ops=["edit", "?", "?"], k=2, free=1), dict(ops=["edit", "edit", "undo", "undo"], k=2)]
    if tier == "thorough":
        cs += [dict(ops=["edit", "edit", "edit", "?"], k=1, free=3), dict(ops=["edit", "undo", "redo"], k=3), dict(ops=["edit"] + ["?"] * 6, k=1, free=1)]
    return [
        H("history", history, cs, split=6, bounds="every sequence of up to %d operations out of edit/undo/redo/save starting with an edit, then full undo and redo; the first %d edits anywhere, later ones insert at the start or end; edit blocks of up to %d regions; unbounded texts and positions" % (
            7 if tier == "thorough" else 5, 3 if tier == "thorough" else 2, 3 if tier == "thorough" else 2),
          eager_ok=lambda c: c["k"] < 2 and len(c["ops"]) < 5),
        H("events", history, [dict(ops=["edit"] + ["?"] * n, k=1, events=True, free=1)], split=5, bounds="availability and modification notifications, %d operations" % (n + 1)),
        H("misc", misc, [dict(how=h) for h in ("clear", "disabled", "off_undo", "in_context", "revision", "rejected")], bounds="one edit, unbounded"),
    ]
