"""C20: generated regular expressions match exactly the given words."""
from vp.ctx import H
import re
import warnings
warnings.simplefilter("ignore", FutureWarning)
from parce import Language, lexicon, default_action
from parce import regex
from parce.rule import words, chars
import parce.action as act

ASSUMPTIONS = [
    "a regular expression has to be concrete before it can be matched: the solver enumerates the word lists, character sets and expressions within the bound; the text to match stays symbolic",
    "word lists are not empty",
]

OTHER = "~"


def in_words(text, ws):
    for w in ws:
        if text == w: return True
    return False


def word_list(sx, count, length, alphabet, n, form):
    """The expression matches a text exactly when it is one of the words; used as a
    prefix it finds a match exactly when the text starts with one of the words."""
    ws = []
    for i in range(count):
        k = sx.choice("len%d" % i, list(range(length, -1, -1)))
        ws.append(sx.fixed(sx.str("word%d" % i, k, alphabet)))
    if form == "iterator": expr = regex.words2regexp(iter(ws))
    elif form == "words": expr = words(ws, "<", ">")
    elif form == "set": expr = regex.words2regexp(set(ws))
    else: expr = regex.words2regexp(ws)
    rx = re.compile(expr)
    text = sx.str("text", n, alphabet + OTHER)
    if form == "words":
        m = rx.fullmatch("<" + text + ">")
    else:
        m = rx.fullmatch(text)
        p = rx.match(text)
        some = False
        for i in range(n + 1):
            if in_words(text[:i], ws): some = True
        sx.check((p is not None) == some, "match at the start of a text")
        if p is not None: 
            sx.check(in_words(p.group(), ws), "matched text is one of the words")
            for i in range(p.end() + 1, n + 1): sx.check(not in_words(text[:i], ws), "the longest word is found")
    sx.check((m is not None) == in_words(text, ws), "exactly the words match")
    return [m is not None]


def one_of(c, cs):
    for x in cs:
        if c == x: return True
    return False


def char_set(sx, n, alphabet, positive):
    cs = sx.fixed(sx.str("chars", n, alphabet))
    t = sx.str("text", 1, alphabet + OTHER)
    rx = re.compile(chars(cs, positive))
    sx.check((rx.fullmatch(t) is not None) == (one_of(t, cs) == positive), "character class")
    sx.check(rx.fullmatch(t + t) is None and rx.fullmatch("") is None, "one character")
    if positive:
        it = re.compile("[" + regex.make_charclass(list(cs)) + "]")
        sx.check((it.fullmatch(t) is not None) == one_of(t, cs), "character class of a list")
    return [one_of(t, cs)]


def plain(sx, n, alphabet, textlen):
    """An expression that is turned into a plain string matches that string and nothing else."""
    expr = sx.fixed(sx.str("expr", n, alphabet))
    try: rx = re.compile(expr)
    except re.error: sx.assume(False)
    s = regex.to_string(expr)
    if s is None: return [None]
    k = sx.choice("len", list(range(textlen + 1)))
    text = sx.str("text", k, sorted(set(alphabet + "\n\t\x07\x01\x0a" + s)))
    sx.check((rx.fullmatch(text) is not None) == (text == s), "plain string")
    return [s]


PATTERNS = ["ab", "a b", "a#b", r"a\ b", r"a\tb", r"\x61b", "A", r"a\.", r"\a", "a", r"\141", r"\u0061\b"]
FLAGS = [0, re.IGNORECASE, re.VERBOSE, re.MULTILINE | re.DOTALL, re.ASCII]


def shortcut(sx, p, n):
    """A lexicon with one pattern finds what the regular expression finds, whatever its flags."""
    f = sx.choice("flags", FLAGS)
    d = sx.choice("default", [None, act.Text])
    class L(Language):
        @lexicon(re_flags=f)
        def root(cls):
            yield PATTERNS[p], act.Name
            if d is not None: yield default_action, d
    text = sx.str("text", n, "abA# .\t\x07")
    exp = []; pos = 0
    for m in re.compile(PATTERNS[p], f).finditer(text):
        if d is not None and m.start() > pos: exp.append((pos, text[pos:m.start()], d))
        exp.append((m.start(), m.group(), act.Name)); pos = m.end()
    if d is not None and pos < n: exp.append((pos, text[pos:], d))
    got = [(p, t, a) for p, t, m, a, tg in L.root.parse(text, 0)]
    sx.check(len(got) == len(exp), "number of matches")
    for (p, t, a), (q, u, b) in zip(got, exp): sx.check(p == q and t == u and a is b, "match")
    return [len(got)]


def harnesses(tier):
    q = tier == "quick"
    W = [dict(count=2, length=2, alphabet="abc", n=m) for m in (0, 1, 2, 3)] + [dict(count=3, length=2, alphabet="ab", n=m) for m in (1, 2, 3)] \
        + [dict(count=2, length=3, alphabet="ab", n=m) for m in (3, 4)] + [dict(count=1, length=2, alphabet="a.-]^\\", n=2), dict(count=2, length=1, alphabet="a|[-]^\\", n=1)] \
        + [dict(count=4, length=3, alphabet="a", n=m) for m in (2, 3)] + [dict(count=3, length=3, alphabet="ab", n=m) for m in (2, 3, 4)]
    if not q: W += [dict(count=3, length=3, alphabet="ab", n=m) for m in (2, 3, 4)] + [dict(count=4, length=2, alphabet="ab", n=2), dict(count=5, length=4, alphabet="a", n=3)]
    X = [dict(w, form="list") for w in W] + [dict(count=2, length=2, alphabet="ab", n=2, form=f) for f in ("iterator", "words", "set")]
    S = "a-]^\\b[c" if q else "a-]^\\b[c&|~. "
    return [
        H("words", word_list, X, split=8, bounds="word lists of up to %d words of up to %d characters, texts of up to 4 characters" % (4 if q else 5, 3 if q else 4)),
        H("chars", char_set, [dict(n=m, alphabet=S, positive=b) for m in ((1, 2, 3) if q else (1, 2, 3, 4)) for b in (True, False)], split=6,
          bounds="sets of up to %d characters, special characters included" % (3 if q else 4)),
        H("plain", plain, [dict(n=m, alphabet=a, textlen=2) for m, a in ((0, "a"), (1, "a\\.^$|()[]{}+*?x \n"), (2, "a\\.^$|()[]{}+*?xnbdAZ08 \n"), (3, "a\\.n01x[4" if q else "a\\.n0147xuN{}*?"), (4, "\\01a4x" if q else "\\0147ax6"))] , split=6,
          bounds="expressions of up to 4 characters"),
        H("shortcut", shortcut, [dict(p=p, n=m) for p in range(len(PATTERNS)) for m in ((2, 3) if q else (1, 2, 3, 4))], split=5,
          bounds="%d patterns, %d sets of flags, texts of up to %d characters" % (len(PATTERNS), len(FLAGS), 3 if q else 4)),
    ]
