"""C28: every bundled language lexes every text faithfully, and edits keep its tree right."""
from vp.ctx import H
from parce.lexer import Lexer
from parce.treebuilder import TreeBuilder, build_tree

ASSUMPTIONS = [
    "texts consist of a fixed beginning that brings the lexer into a context of interest, and symbolic characters from the alphabet of that language",
]

# language: (alphabet, beginnings)
LANGS = {
    "bash.Bash": ("$({})\"'`#\\a=;<\n ", ["", "a=\"$(", "${a:-", "cat <<E\n", "(( 1+", "case a in "]),
    "c.C": ("/*\"'#\\a1(){};\n ", ["", "/* ", "\"a\\", "#define a \\", "int a[", "'"]),
    "css.Css": ("@{}:;\"'/*#.a1\\()\n ", ["", "a{b:", "/*", "@media (", "a[b=\"", "url("]),
    "csv.Csv": ("\",a\n\r;", ["", "a,\"b\"", "\"a"]),
    "docbook.DocBook": ("<>/&;!-\"=a ?[]", ["", "<para ", "<!--", "<a>b</"]),
    "xml.Dtd": ("<>!%;\"-[]a ?E", ["", "<!ELEMENT a (", "<!--", "<!ENTITY % a \""]),
    "ini.Ini": ("[]=;#\\a\n :\"", ["", "[a", "a=b\\", "a = "]),
    "javascript.JavaScript": ("/*`$\"'\\a1({})[]\n.", ["", "`${", "/*", "a=/[", "\"\\"]),
    "json.Json": ("{}[]\":,\\u1-.et ", ["", "{\"a\":", "[1,", "\"\\u00", "{\"a\": [", "-1"]),
    "html.Html": ("<>/&;!-\"=a{} ", ["", "<style>a{", "<script>a(", "<br ", "<p style=\"", "<!--"]),
    "html.XHtml": ("<>/&;!-\"=a{}", ["", "<style>a{", "<script>a(", "<p style=\""]),
    "tex.Latex": ("\\{}[]$%a\n&^(", ["", "\\begin{a}", "$a", "\\verb|", "\\begin{verbatim}", "\\[a"]),
    "lilypond.LilyPond": ("\\{}<>\"#%'c4~-( \n", ["", "\\relative c' {", "\\lyricmode { a", "#(", "<<", "{ c4-", "\\markup {", "%{"]),
    "numbers.Deutsch": ("einszwof hud", ["", "hundert", "ein"]),
    "numbers.English": ("onetwhudrf -", ["", "twenty", "one hundred"]),
    "numbers.Français": ("undexcatqr -", ["", "quatre", "cent"]),
    "numbers.Nederlands": ("enëtwiduhrg", ["", "twee", "honderd"]),
    "python.Python": ("\"'#\\a1({}):\nfrb =", ["", "f\"{a", "\"\"\"", "def a(", "r'\\", "f'{a!r:{"]),
    "python.PythonConsole": (">. \"(a\n1", ["", ">>> a", ">>> (\n... "]),
    "tcl.Tcl": ("{}[]\"$\\#;a1\n (", ["", "set a \"", "a {", "[b ", "$a("]),
    "texinfo.Texinfo": ("@{}a\n c*", ["", "@c ", "@verb{|", "@lilypond\n", "@ignore\n"]),
    "troff.Troff": (".'\\\"(a\n[fn ", ["", ".de a\n", ".\\\"", "\\fB", "'"]),
    "scheme.Scheme": ("()'`#;\"|!a1.-\\ \n", ["", "#|", "(a \"", "'#(", "#\\", "`(a ,"]),
    "toml.Toml": ("[]{}=\"'#\\a1.,\n", ["", "a=\"\"\"", "a = [1,", "[[a", "a = {b=", "a = 1979-05-27T"]),
    "xml.Xml": ("<>/&;!-\"=a ?[]", ["", "<a b=\"", "<!--", "<![CDATA[", "<!DOCTYPE a [", "<?xml "]),
    "xslt.Xslt": ("<>/&;!-\"=a ", ["", "<xsl:if ", "<!--"]),
}


def lexicon(name):
    m, c = name.split(".")
    return getattr(__import__("parce.lang." + m, fromlist=[c]), c).root


def faithful(sx, lx, text):
    """Order, no overlap, non-empty, inside the text; the targets reproduce the contexts."""
    lexer = Lexer([lx])
    last = 0
    stack = [lx]
    out = []
    for e in lexer.events(text):
        if e.target:
            if e.target.pop: del stack[e.target.pop:]
            stack.extend(e.target.push)
        sx.check(stack and stack[0] is lx, "root left")
        for pos, txt, action in e.lexemes:
            sx.check(pos >= last, "tokens overlap or are out of order")
            sx.check(len(txt) > 0, "empty token")
            sx.check(text[pos:pos+len(txt)] == txt, "token text differs from the source")
            last = pos + len(txt)
            out.append((pos, last, action, list(stack)))
    sx.check(last <= len(text), "token outside of the text")
    sx.check(lexer.lexicons[0] is lx, "root lexicon left")
    return out


def leaves(context, stack):
    for n in context:
        if n.is_token: yield n, stack
        else: yield from leaves(n, stack + [n.lexicon])


def same(sx, root, toks, label):
    got = list(leaves(root, [root.lexicon]))
    sx.check(len(got) == len(toks), label + ": number of tokens")
    for (n, st), (pos, end, action, stack) in zip(got, toks):
        sx.check(n.pos == pos and n.end == end and n.action is action, label + ": token")
        sx.check(len(st) == len(stack) and all(a is b for a, b in zip(st, stack)), label + ": contexts of a token")


def lexing(sx, lang, begin, n):
    alpha, begins = LANGS[lang]
    lx = lexicon(lang)
    text = begins[begin] + sx.str("t", n, alpha)
    toks = faithful(sx, lx, text)
    same(sx, build_tree(lx, text), toks, "tree")
    return [(a, b) for a, b, c, d in toks]


def edit(sx, lang, begin, n, m):
    """An edit next to the symbolic characters, or in the beginning."""
    alpha, begins = LANGS[lang]
    lx = lexicon(lang)
    text = begins[begin] + sx.str("t", n, alpha)
    b = TreeBuilder(lx)
    b.rebuild(text)
    l = len(text)
    p = sx.choice("p", sorted({0, len(begins[begin]) // 2, max(0, len(begins[begin]) - 1), len(begins[begin]), l}))
    r = sx.choice("r", [0, 1] if p < l else [0])
    s = sx.str("s", m, alpha)
    new = text[:p] + s + text[p+r:]
    b.rebuild(new, False, p, r, len(s))
    toks = faithful(sx, lx, new)
    same(sx, b.root, toks, "after an edit")
    return [(a, b) for a, b, c, d in toks]


def harnesses(tier):
    q = tier == "quick"
    n = 3 if q else 4
    cs = [(l, i) for l in LANGS for i in range(len(LANGS[l][1]))]
    return [
        H("lexing", lexing, [dict(lang=l, begin=i, n=2 if q and l.startswith("javascript") else n) for l, i in cs], split=5, fuel=400000, bounds="26 languages, %d beginnings; every %d characters from the alphabet of the language after it" % (len(cs), n), eager_cases=[dict(lang=l, begin=i, n=1) for l, i in cs]),
        H("edit", edit, [dict(lang=l, begin=i, n=1, m=1) for l, i in cs], split=5, fuel=400000, bounds="the same beginnings and one character; every edit of one character there", eager_cases=[dict(lang=l, begin=i, n=0, m=1) for l, i in cs]),
    ]
