"""C14: HTML output preserves and escapes the text."""
from vp.ctx import H
from parce import Document, Cursor, Language, lexicon
from parce.out.html import HtmlFormatter, SimpleHtmlFormatter, escape, attrescape, inline_css
from parce.css import Value
from parce.theme import TextFormat
import parce.action as act
from parce.work import Worker
from parce.treebuilder import TreeBuilder

ASSUMPTIONS = ["themes are stand-ins that give a style text for an action"]


class Lang(Language):
    @lexicon
    def root(cls):
        yield "[&<]+", act.Text
        yield ">", act.Name, cls.inner
        yield '"', act.String
    @lexicon
    def inner(cls):
        yield "x", act.Text
        yield ">", act.Name, -1


def document(text):
    """A document that is tokenized in the same thread."""
    return Document(Lang.root, text, worker=Worker(TreeBuilder(Lang.root)))


class Theme:
    """A style text per action, given by the harness."""
    def __init__(self, styles, base=""): self.styles = styles; self.base = base
    def textformat(self, action): return self.styles.get(str(action), "")
    def baseformat(self, role="window", state="default"): return self.base


ALPHA = "&<>\"'x;"
ENT = [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", '"'), ("&#39;", "'"), ("&#x27;", "'")]


def decode(sx, html, attr=False):
    """What a browser shows for text without tags, None if it is not plain text."""
    out = ""
    i = 0
    n = len(html)
    while i < n:
        c = html[i]
        if c == "<" or c == ">" or attr and c == '"': return None
        if c == "&":
            for e, t in ENT:
                if html[i:i+len(e)] == e:
                    out += t; i += len(e)
                    break
            else: return None
        else:
            out += c; i += 1
    return out


def parse_html(sx, html, attribute):
    """[(style or None, text)] of a sequence of texts and <span attribute="...">text</span>; None if malformed."""
    out = []
    i = 0
    n = len(html)
    start = "<span " + attribute + '="'
    def until(i, *stops):
        while i < n and not any(html[i:i+len(s)] == s for s in stops): i += 1
        return i
    while i < n:
        if html[i:i+len(start)] == start:
            i += len(start)
            j = until(i, '"')
            if html[j:j+2] != '">': return None
            style = decode(sx, html[i:j], True)
            k = until(j + 2, "<")
            if html[k:k+7] != "</span>": return None
            text = decode(sx, html[j+2:k])
            if style is None or text is None: return None
            out.append((style, text)); i = k + 7
        else:
            j = until(i, "<")
            if j == i: return None
            text = decode(sx, html[i:j])
            if text is None: return None
            out.append((None, text)); i = j
    return out


SPACE = "&\r\n\t \xa0<"

def escaping(sx, n, alphabet=ALPHA):
    s = sx.str("s", n, alphabet)
    e = escape(s); a = attrescape(s)
    d = decode(sx, e); da = decode(sx, a, True)
    sx.check(d is not None, "text is not escaped")
    sx.check(da is not None, "attribute is not escaped")
    sx.check(sx.all(len(d) == n, len(da) == n) and d == s and da == s, "escaped text decodes to something else")
    return [e, a]


def expected(f, cursor):
    return list(f.format_document(cursor))


def output(sx, n, which, k, alphabet=ALPHA):
    text = sx.str("text", n, alphabet)
    d = document(text)
    a = sx.choice("a", list(range(n + 1))); b = sx.choice("b", [x for x in range(n + 1) if x >= a])
    c = Cursor(d, a, b)
    if which == "simple":
        f = SimpleHtmlFormatter()
        attribute = "class"
    else:
        style = sx.str("style", k, ALPHA)
        f = HtmlFormatter(Theme({"Text": style, "Name": "n: 1;"}), lambda s: s or None)
        attribute = "style"
    html = f.html(c)
    parts = parse_html(sx, html, attribute)
    sx.check(parts is not None, "malformed HTML")
    shown = ""
    for style, t in parts: shown += t
    sx.check(len(shown) == b - a and shown == text[a:b], "text shown by the HTML")
    # every formatted piece is in a span with its format
    i = 0
    pieces = [p for p in f.format_document(c)]
    styled = [(s, t) for s, t in parts if s is not None]
    want = [(s, t) for t, s in pieces if s]
    sx.check(len(styled) == len(want), "number of spans")
    for (s, t), (ws, wt) in zip(styled, want):
        sx.check(len(s) == len(ws) and s == ws, "attribute of a span")
        sx.check(len(t) == len(wt) and t == wt, "text of a span")
    return html


def full(sx, n, k):
    """The complete document: the base style is an attribute, too."""
    text = sx.str("text", n, ALPHA)
    base = sx.str("base", k, ALPHA)
    d = document(text)
    c = Cursor(d, 0, None)
    f = HtmlFormatter(Theme({}, base), lambda s: s or None)
    html = f.full_html(c)
    start = '<pre style="white-space: pre; '
    i = html.find(start)
    sx.check(i >= 0, "no pre element")
    i += len(start)
    j = i
    while html[j] != '"': j += 1
    style = decode(sx, html[i:j], True)
    sx.check(style is not None and len(style) == k and style == base, "base style")
    sx.check(html[j:j+2] == '">', "malformed pre element")
    e = html.find("</pre>", j)
    parts = parse_html(sx, html[j+2:e], "style")
    sx.check(parts is not None, "malformed HTML")
    shown = ""
    for s, t in parts: shown += t
    sx.check(len(shown) == n and shown == text, "text shown by the HTML")
    return html


def css(sx, k):
    """A font family with any characters stays inside the style attribute."""
    family = sx.str("family", k, "\"' a\\")
    tf = TextFormat({"font-family": [Value(family, quoted=True)]})
    style = inline_css(tf)
    d = document("&")
    f = HtmlFormatter(Theme({"Text": style}), lambda s: s or None)
    html = f.html(Cursor(d, 0, None))
    parts = parse_html(sx, html, "style")
    sx.check(parts is not None, "malformed HTML")
    sx.check(len(parts) == 1 and len(parts[0][0] or "") == len(style) and (k == 0 or parts[0][0] == style), "style attribute")
    return html


def harnesses(tier):
    q = tier == "quick"
    n = 4 if q else 5
    return [
        H("escaping", escaping, [dict(n=m) for m in range(0, n + 2)] + [dict(n=m, alphabet=SPACE) for m in (1, 2, 3)], split=4, bounds="every text of up to %d characters from %r, up to 3 from %r" % (n + 1, ALPHA, SPACE)),
        H("output", output, [dict(n=m, which=w, k=1) for m in range(0, n + 1) for w in ("simple", "style")] + [dict(n=2, which="simple", k=1, alphabet=SPACE)], split=4, eager_ok=lambda c: c["n"] <= 2, bounds="every text of up to %d characters, every selection, every style of 1 character" % n),
        H("full", full, [dict(n=m, k=k) for m in (0, 2) for k in (0, 2)], split=4, bounds="texts and base styles of up to 2 characters"),
        H("css", css, [dict(k=k) for k in range(0, n + 1)], split=4, bounds="font family names of up to %d characters" % n),
    ]
