"""C01: incremental re-parse equals a fresh parse."""
from vp.ctx import H
from parce.treebuilder import TreeBuilder, build_tree
from parce.lexer import Lexer
from parce.rule import call, derive, TEXT, ARG, MATCH, arg as rule_arg
import parce
from harness.langlib import *

ASSUMPTIONS = [
    "patterns of the harness languages look ahead less than 10 tokens and look back at most one character",
]

T, N, S, C = act.Text, act.Name, act.String, act.Comment

NEST = make("Nest",
    Lex("root", ("a", T), (r"\(", N, "par"), ("q", S, "string"), (r"\)", C, -1)),
    Lex("par", ("a", T), (r"\(", N, "par"), ("q", S, "string"), (r"\)", C, -1)),
    Lex("string", ("q", S, -1), default=("action", C)))

GROUPS = make("Groups",
    Lex("root", ("(a)(b)(c)?", (N, S, T)), ("(a)(c)", (N, C), "eat"), ("b", T, "eat"), ("c", T)),
    Lex("eat", ("(c)(b)?", (C, S), -1), ("(a)(a)?", (N, S)), consume=True))

DEFTARGET = make("Deft",
    Lex("root", ("a", T, "one"), ("b", N)),
    Lex("one", ("a+", S), ("c", C, "two", "one"), default=("target", -1)),
    Lex("two", ("b", C), ("a(?=b)", T), default=("target", -1)))

WORDS = make("Words",
    Lex("root", (r"a+", N), (r"b(?=a*c)", S, "one"), ("b", T), ("c", C)),
    Lex("one", (r"c", C, -1), (r"a+", T), (r"bb", N, -1, "one"), default=("action", S)))


def hmake():
    class Here(Language):
        """Derived lexicons: a block is ended by the text that started it."""
        @lexicon
        def root(cls):
            yield "<([ab])", N, derive(cls.block, MATCH[1])
            yield "a", T
            yield "b", S
        @lexicon(consume=True)
        def block(cls):
            yield rule_arg(), C, -1
            yield "<([ab])", N, derive(cls.block, MATCH[1])
            yield parce.default_action, T
    return Here

def amake():
    class Ahead(Language):
        """Derived lexicons whose argument is found by looking ahead over other tokens."""
        @lexicon
        def root(cls):
            yield "<(?=a*([bc]))", N, derive(cls.block, MATCH[1])
            yield "a", T
            yield "b", S
            yield "c", C
        @lexicon
        def block(cls):
            yield rule_arg(), C, -1
            yield "<(?=a*([bc]))", N, derive(cls.block, MATCH[1])
            yield "a", T
            yield "b", S
            yield "c", N
    return Ahead

LANGS = dict(nest=(NEST, "a()q"), groups=(GROUPS, "abc"), deft=(DEFTARGET, "abc"), words=(WORDS, "abc"), here=(hmake, "<ab"), ahead=(amake, "<abc"))

def language(lang):
    L, alpha = LANGS[lang]
    if not isinstance(L, type): L = L()           # caches derived lexicons, so it is made anew on every path
    return L, alpha

# fixed text around the symbolic part; more than ten tokens, so that a rebuild starts in the middle
PREFIX = dict(
    none=dict.fromkeys(LANGS, ""), front=dict.fromkeys(LANGS, ""),
    long=dict(nest="a(aa(aaqaaqa(aaaa))aaaaa(aa", groups="abcacaacbcabcbaabcccabababcac", deft="abacbaabbacabbbabababaca", words="aabcabbcabcaacbaacbbabaaacba", here="aba<bababb<aababa<babaab", ahead="aba<acabcba<aba<aba"),
)
SUFFIX = dict(none=dict.fromkeys(LANGS, ""), some=dict(nest="a)a(a)q", groups="cbabcac", deft="bacbab", words="acbcaba", here="ab<ab<", ahead="ab<acb"))


def tokens(context, stack):
    out = []
    for n in context:
        if n.is_token: out.append((n, stack))
        else: out.extend(tokens(n, stack + [n.lexicon]))
    return out


def snapshot(root):
    return [(t.pos, t.text, t.action, st) for t, st in tokens(root, [root.lexicon])]


def open_lexicons(root_lexicon, text):
    if root_lexicon is None: return []
    lexer = Lexer([root_lexicon])
    for _ in lexer.events(text): pass
    return lexer.lexicons[1:]


def state(sx, b, lex, text, label, lexicons=True):
    fresh = build_tree(lex, text)
    same_tree(sx, b.root, fresh, label)
    sx.check(b.root.parent is None, label + ": root")
    if lexicons:
        got, exp = list(b.lexicons), open_lexicons(lex, text)
        sx.check(len(got) == len(exp) and all(x is y for x, y in zip(got, exp)), label + ": open lexicons")
    return fresh


def region(sx, b, old, offset, label):
    """Outside of the reported region, the tokens are the old ones."""
    start, end = b.start, b.end
    new = tokens(b.root, [b.root.lexicon])
    before = [x for x in new if x[0].end <= start]
    sx.check(len(before) <= len(old), label + ": unchanged tokens before the region")
    for (t, st), o in zip(before, old):
        sx.check(same_token(t, st, o, 0), label + ": token before the region changed")
    after = [x for x in new if x[0].pos >= end]
    sx.check(len(after) <= len(old), label + ": unchanged tokens after the region")
    if after:
        for (t, st), o in zip(after[::-1], old[::-1]):
            sx.check(same_token(t, st, o, offset), label + ": token after the region changed")


def same_token(t, st, o, offset):
    pos, text, action, ost = o
    return t.pos == pos + offset and t.text == text and t.action is action and len(st) == len(ost) and all(a is b for a, b in zip(st, ost))


def edit_of(sx, name, length, alpha, lo, hi, removed, added):
    """A symbolic edit: position between lo and hi, up to `removed` characters replaced by `added` ones."""
    p = sx.choice(name + ".pos", list(range(lo, hi + 1)))
    r = sx.choice(name + ".removed", [x for x in range(removed + 1) if p + x <= length])
    m = sx.choice(name + ".added", list(range(added + 1)))
    s = sx.str(name + ".text", m, alpha)
    return p, r, s


def one_edit(sx, lang, pre, suf, n, removed, added):
    L, alpha = language(lang)
    head, tail = PREFIX[pre][lang], SUFFIX[suf][lang]
    text = head + sx.str("text", n, alpha) + tail
    b = TreeBuilder(L.root)
    seen = []
    b.connect("updated", lambda s, e: seen.append((s, e)))
    b.rebuild(text)
    state(sx, b, L.root, text, "first build")
    old = snapshot(b.root)
    # the edit happens in or next to the symbolic part
    p, r, s = edit_of(sx, "e", len(text), alpha, len(head), len(head) + n, removed, added)
    new = text[:p] + s + text[p+r:]
    b.rebuild(new, False, p, r, len(s))
    state(sx, b, L.root, new, "after an edit")
    region(sx, b, old, len(s) - r, "region")
    sx.check(len(seen) == 2 and seen[1] == (b.start, b.end), "updated event")
    sx.check(b.start <= p and b.end >= p + len(s), "reported region contains the edit")
    sx.check(not b.busy, "busy afterwards")
    return show(b.root)


def far_edit(sx, lang, n, removed, added):
    """A long fixed text with a symbolic part at its end; an edit anywhere in the fixed part."""
    L, alpha = language(lang)
    head, tail = PREFIX["long"][lang], SUFFIX["some"][lang]
    text = head + tail + sx.str("text", n, alpha) + tail
    b = TreeBuilder(L.root)
    b.rebuild(text)
    old = snapshot(b.root)
    p, r, s = edit_of(sx, "e", len(text), alpha, 0, len(head) + len(tail), removed, added)
    new = text[:p] + s + text[p+r:]
    b.rebuild(new, False, p, r, len(s))
    state(sx, b, L.root, new, "after an edit")
    region(sx, b, old, len(s) - r, "region")
    return show(b.root)


def two_edits(sx, lang, pre, n, removed, added):
    """Two edits after each other; the second one anywhere near the first."""
    L, alpha = language(lang)
    head, tail = PREFIX[pre][lang], SUFFIX["some"][lang]
    text = head + sx.str("text", n, alpha) + tail
    b = TreeBuilder(L.root)
    b.rebuild(text)
    lo = len(head)
    for e in "12":
        p, r, s = edit_of(sx, "e" + e, len(text), alpha, lo, min(len(text), lo + n + 1), removed, added)
        old = snapshot(b.root)
        text = text[:p] + s + text[p+r:]
        b.rebuild(text, False, p, r, len(s))
        region(sx, b, old, len(s) - r, "region")
    state(sx, b, L.root, text, "after two edits")
    return show(b.root)


def pending(sx, lang, third):
    """Edits far from each other that are made before the tree is updated."""
    L, alpha = language(lang)
    text = PREFIX["long"][lang] + SUFFIX["some"][lang] + PREFIX["long"][lang]
    b = TreeBuilder(L.root)
    b.rebuild(text)
    old = snapshot(b.root)
    size = len(text)
    for e in range(3 if third else 2):
        p = sx.choice("pos%d" % e, [0, 3, len(text) // 2, len(text) - 4] if not third else [1, len(text) // 2])
        r = sx.choice("removed%d" % e, [0, 3])
        c = sx.choice("added%d" % e, [0, 1, 4] if not third else [0, 4])
        s = sx.str("text%d" % e, 1, alpha[:2]) + alpha[0] * (c - 1) if c == 1 or c and e == 1 and not third else alpha[1] * c
        text = text[:p] + s + text[p+r:]
        b.add_changes(text, False, p, r, len(s))
    for stage in b.process(): pass
    state(sx, b, L.root, text, "after pending edits")
    region(sx, b, old, len(text) - size, "region")
    return show(b.root)


class Hook:
    """Called while text is lexed; runs a function at the k-th call after it was armed."""
    def __init__(self): self.k = None
    def __call__(self, text):
        if self.k is not None:
            self.k -= 1
            if self.k == 0:
                self.k = None
                self.run()
        return 0

HOOK = Hook()
HLANGS = dict(
    nest=make("HNest", *NEST.spec.values(), hook=HOOK),
    groups=make("HGroups", *GROUPS.spec.values(), hook=HOOK),
    deft=make("HDeft", *DEFTARGET.spec.values(), hook=HOOK),
    words=make("HWords", *WORDS.spec.values(), hook=HOOK))


def during(sx, lang, pre, n, calls, removed, added, what):
    """A second edit (or another root lexicon) arrives while the first one is being processed."""
    L = HLANGS[lang]; alpha = LANGS[lang][1]
    HOOK.k = None
    head, tail = PREFIX[pre][lang], SUFFIX["some"][lang]
    if pre == "front": tail = PREFIX["long"][lang]
    text0 = head + sx.str("text", n, alpha) + tail
    b = TreeBuilder(L.root)
    b.rebuild(text0)
    old = snapshot(b.root)
    lo = len(head)
    p, r, s = edit_of(sx, "e1", len(text0), alpha, lo, lo + n, 1, 1)
    if pre == "front": sx.assume(len(s) > 0)
    text1 = text0[:p] + s + text0[p+r:]
    root2 = L.root
    if what == "edit":
        lo2 = max(0, lo - 3)
        p2, r2, s2 = edit_of(sx, "e2", len(text1), alpha, lo2, len(text1) if pre == "front" else min(len(text1), lo + n + 4), removed, added)
        text2 = text1[:p2] + s2 + text1[p2+r2:]
        change = (text2, False, p2, r2, len(s2))
    elif what == "root":
        text2 = text1
        root2 = sx.choice("root2", [x for x in [getattr(L, m) for m in L.spec] + [None]])
        change = (text2, root2, 0, 0, None)
    k = sx.choice("k", calls)
    ran = []
    def run():
        ran.append(1)
        b.rebuild(*change)
    HOOK.run = run
    HOOK.k = k
    b.rebuild(text1, False, p, r, len(s))
    HOOK.k = None
    if ran:
        state(sx, b, root2, text2, "after a change during an update")
        if what == "edit": region(sx, b, old, len(text2) - len(text0), "region")
        sx.check(b.start <= p or not ran, "reported region")
    else: state(sx, b, L.root, text1, "after an edit")
    sx.check(not b.busy and not b.changes, "all changes were processed")
    return [len(ran), show(b.root)]


def root_change(sx, lang, n):
    """Another root lexicon, or none; with or without a new text."""
    L, alpha = language(lang)
    text = sx.str("text", n, alpha)
    names = sx.const("names", ["root", "par", "string"] if lang == "nest" else ["root", "one", "two"])
    b = TreeBuilder(None)
    b.rebuild(text)
    sx.check(len(b.root) == 0, "tokens without a root lexicon")
    cur = None
    for i in range(2):
        cur = sx.choice("root%d" % i, [None] + [getattr(L, m) for m in names])
        b.rebuild(text, cur)
        if cur is None:
            sx.check(b.root.lexicon is None and len(b.root) == 0, "tokens without a root lexicon")
            sx.check(len(b.lexicons) == 0, "open lexicons without a root lexicon")
        else: state(sx, b, cur, text, "after changing the root lexicon")
    p, r, s = edit_of(sx, "e", n, alpha, 0, n, 1, 1)
    text = text[:p] + s + text[p+r:]
    b.rebuild(text, False, p, r, len(s))
    if cur is not None: state(sx, b, cur, text, "after an edit")
    else: sx.check(len(b.root) == 0, "tokens without a root lexicon")
    return show(b.root)


def peeking(sx, lang, pre, n, threshold):
    """A preview of the tree does not disturb the result."""
    L, alpha = language(lang)
    head, tail = PREFIX[pre][lang], SUFFIX["some"][lang]
    text = head + sx.str("text", n, alpha) + tail
    b = TreeBuilder(L.root)
    b.peek_threshold = sx.choice("threshold", threshold)
    seen = []
    def peek(start, tree): seen.append((start, [t for t, st in tokens(tree, [tree.lexicon])]))
    b.connect("peek", peek)
    b.rebuild(text)
    state(sx, b, L.root, text, "first build")
    p, r, s = edit_of(sx, "e", len(text), alpha, len(head), len(head) + n, 1, 1)
    text = text[:p] + s + text[p+r:]
    del seen[:]
    b.rebuild(text, False, p, r, len(s))
    state(sx, b, L.root, text, "after an edit")
    # the preview contains tokens the text has
    for start, toks in seen:
        for t in toks:
            sx.check(t.pos >= start, "preview before its start")
            sx.check(text[t.pos:t.end] == t.text, "preview differs from the text")
    return [len(seen), show(b.root)]


def harnesses(tier):
    q = tier == "quick"
    langs = list(LANGS)
    n = 3 if q else 4
    hl = list(HLANGS)
    return [
        H("one_edit", one_edit, [dict(lang=l, pre=p, suf=s, n=n if p == "none" else n - 1, removed=2, added=2 if p == "none" or not q else 1) for l in langs for p in ("none", "long") for s in SUFFIX], split=7, fuel=400000,
          eager_ok=lambda c: c["pre"] == "none", bounds="6 languages; text of %d symbolic characters (%d after a fixed text of more than 10 tokens), with or without text after it; every edit in it that removes and inserts up to 2 characters" % (n, n - 1)),
        H("far_edit", far_edit, [dict(lang=l, n=1, removed=2, added=1) for l in langs], split=4, fuel=400000, bounds="6 languages; fixed text of about 30 tokens, then a symbolic character; every edit that removes up to 2 characters and inserts up to 1"),
        H("two_edits", two_edits, [dict(lang=l, pre=p, n=n, removed=1, added=1) for l in langs for p, n in (("none", 1), ("long", 0) if q else ("long", 1))], split=7, fuel=400000, eager_ok=lambda c: c["pre"] == "none", bounds="two successive edits of up to 1 character"),
        H("during_edit", during, [dict(lang=l, pre=p, n=n, calls=c, removed=1, added=1, what="edit") for l in hl for p, n, c in (("none", 1, [1, 2, 4]), ("long", 1, [3, 12]), ("front", 0, [2, 13, 17]))], split=7, fuel=400000,
          eager_ok=lambda c: c["pre"] == "none", bounds="4 languages; an edit of up to 1 character, during its processing another edit of up to 1 character; it arrives at the 1st, 2nd or 4th match (3rd or 12th when the edit is after the long fixed text; 2nd, 13th or 17th when it is before it)"),
        H("during_root", during, [dict(lang=l, pre=p, n=1, calls=c, removed=1, added=1, what="root") for l in hl for p, c in (("none", [1, 2, 4]), ("long", [2, 12]))], split=7, fuel=400000,
          eager_ok=lambda c: c["pre"] == "none", bounds="another root lexicon (or none) set while an edit is processed"),
        H("pending", pending, [dict(lang=l, third=t) for l in langs for t in (False, True)], split=6, fuel=400000, eager_ok=lambda c: not c["third"],
          bounds="%d languages; two or three edits spread over a fixed text of about 40 tokens, made before the tree is updated" % len(langs)),
        H("root_change", root_change, [dict(lang=l, n=2) for l in ("nest", "deft")], split=6, bounds="every pair of root lexicons or none, texts of 2 characters, then an edit of 1 character"),
        H("peeking", peeking, [dict(lang=l, pre=p, n=1, threshold=[1, 3]) for l in langs for p in ("none", "long")], split=6, fuel=400000, bounds="preview after 1 or 3 characters, edits of 1 character"),
    ]
