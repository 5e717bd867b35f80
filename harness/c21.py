"""C21: CSS cascade and selector matching follow the CSS rules."""
from vp.ctx import H
import os
from parce import css
from parce.css import Element, StyleSheet, Style, Rule, Condition, Atrule, Value

ASSUMPTIONS = [
    "functional pseudo classes such as :not() and :is(), the column combinator and namespaces are outside the claim (documented as not handled)",
    "a style sheet is imported at most once (documented: circular references are avoided)",
]

OPS = [" ", ">", "+", "~"]


# ---------------------------------------------------------------- selectors

class Tree:
    """Elements with parents and children known to the reference."""
    def __init__(self, sx, n, wrap):
        self.parent = [None]; self.kids = [[]]
        for i in range(1, n):
            # depth first order: the parent is the previous element or one of its ancestors
            anc = []; p = i - 1
            while p is not None: anc.append(p); p = self.parent[p]
            p = sx.choice("parent%d" % i, anc)
            self.parent.append(p); self.kids.append([]); self.kids[p].append(i)
        self.name = [sx.str("name%d" % i, 1, "ab") for i in range(n)]
        self.e = []
        for i in range(n):
            p = self.parent[i]
            self.e.append(wrap(self.name[i], None if p is None else self.e[p]))
    def before(self, i):
        p = self.parent[i]
        if p is None: return []
        k = self.kids[p]
        return k[:k.index(i)][::-1]
    def after(self, i):
        p = self.parent[i]
        if p is None: return []
        k = self.kids[p]
        return k[k.index(i) + 1:]
    def related(self, op, i):
        """The elements that stand before element i according to the combinator."""
        if op == ">": return [] if self.parent[i] is None else [self.parent[i]]
        if op == "+": return self.before(i)[:1]
        if op == "~": return self.before(i)
        out = []; p = self.parent[i]
        while p is not None: out.append(p); p = self.parent[p]
        return out
    def pseudo(self, c, i):
        if c == "first-child": return not self.before(i)
        if c == "last-child": return not self.after(i)
        if c == "only-child": return not self.before(i) and not self.after(i)
        if c == "empty": return not self.kids[i]
        for j in (self.before(i) if c == "first-of-type" else self.after(i)):
            if self.name[j] == self.name[i]: return False
        return True


def expected(t, sel, ops, i):
    if not sel[-1](i): return False
    if not ops: return True
    for j in t.related(ops[-1], i):
        if expected(t, sel[:-1], ops[:-1], j): return True
    return False


class FakeLxml(list):
    """What LxmlElement uses of an element of lxml."""
    def __init__(self, tag, parent):
        self.tag = tag; self.parent = parent; self.attrib = {}
        if parent is not None: parent.append(self)
    def getparent(self): return self.parent
    def itersiblings(self, preceding=False):
        if self.parent is None: return iter(())
        i = [k is self for k in self.parent].index(True)
        return iter(self.parent[:i][::-1]) if preceding else iter(self.parent[i + 1:])


def combinators(sx, n, k, wrap):
    """A selector with combinators matches exactly the elements with a chain of related elements."""
    t = Tree(sx, n, Element if wrap == "element" else FakeLxml)
    sel = []; ops = []; given = []
    for j in range(k):
        if j:
            ops.append(sx.choice("op%d" % j, OPS)); given.append(ops[-1])
        kind = sx.choice("kind%d" % j, ["name", "any"])
        if kind == "any":
            given.append({}); sel.append(lambda i: True)
        else:
            s = sx.str("sel%d" % j, 1, "ab")
            given.append({"element_selector": [s]}); sel.append(lambda i, s=s: t.name[i] == s)
    i = n - 1
    if wrap == "element":
        e = t.e[i]
        got = e.match([given])
        sx.check(e.match([]) is False, "no selector")
    else:
        rules = [Rule([given], {"x": [Value("y")]})]
        got = "x" in Style(rules).select_lxml_element(t.e[i]).properties()
    exp = expected(t, sel, ops, i)
    sx.check(bool(got) == exp, "combinators")
    return [exp]


PSEUDO = ["first-child", "last-child", "only-child", "first-of-type", "last-of-type", "empty"]

def pseudo(sx, n):
    t = Tree(sx, n, Element)
    c = sx.choice("pseudo", PSEUDO)
    i = sx.choice("element", list(range(n)))
    sx.check(t.e[i].match_selector({"pseudo_class": [(c, None)]}) == t.pseudo(c, i), "pseudo class")
    t.e[i].pseudo_classes = ["hover"]; t.e[i].pseudo_elements = ["before"]
    sx.check(t.e[i].match_selector({"pseudo_class": [("hover", None)], "pseudo_element": ["before"]}) is True, "own pseudo class and element")
    sx.check(t.e[i].match_selector({"pseudo_class": [("focus", None)]}) is False, "pseudo class it does not have")
    sx.check(t.e[i].match_selector({"pseudo_element": ["after"]}) is False, "pseudo element it does not have")
    sx.check(list(t.e[i].children()) == [t.e[j] for j in t.kids[i]] and t.e[i].get_child_count() == len(t.kids[i]), "children")
    return [c, t.pseudo(c, i)]


def words_of(v):
    """The words in a text that are separated by spaces."""
    out = []; w = ""
    for c in v:
        if c == " ":
            if len(w): out.append(w)
            w = ""
        else: w = w + c
    if len(w): out.append(w)
    return out


def attribute(sx, op, n, k, flag):
    value = sx.str("value", n, "ab- A")
    text = sx.str("text", k, "ab- A")
    has = sx.choice("has", [True, False])
    e = Element("x", **({"k": value} if has else {}))
    got = e.match_selector({"attribute_selector": [("k", op, None if op is None else text, flag)]})
    v, t = value, text
    if flag == "i": v = v.lower(); t = t.lower()
    if not has: exp = False
    elif op is None: exp = True
    elif op == "=": exp = v == t
    elif op == "~=":
        exp = False
        for w in words_of(v):
            if w == t: exp = True
    elif op == "|=": exp = v == t or v[:k + 1] == t + "-"
    elif op == "^=": exp = k > 0 and v[:k] == t
    elif op == "$=": exp = k > 0 and k <= n and v[n - k:] == t
    else:
        exp = False
        for i in range(n - k + 1):
            if k and v[i:i + k] == t: exp = True
    sx.check(bool(got) == bool(exp), "attribute selector")
    return [bool(exp)]


def compound(sx, n):
    """All parts of a compound selector have to match."""
    cls = sx.str("class", n, "ab ")
    ident = sx.choice("id", [None, "a", "b"])
    attrs = {"class": cls}
    if ident is not None: attrs["id"] = ident
    name = sx.str("name", 1, "ab")
    e = Element(name, **attrs)
    s = {}
    ws = words_of(cls)
    exp = True
    if sx.choice("with class", [0, 1]):
        c = sx.str("c", 1, "ab"); s["class_selector"] = [c]
        if not any(w == c for w in ws): exp = False
        if sx.choice("with classes", [0, 1]):
            d = sx.str("d", 1, "ab"); s["class_selector"].append(d)
            if not any(w == d for w in ws): exp = False
    if sx.choice("with id", [0, 1]):
        i = sx.choice("i", ["a", "b"]); s["id_selector"] = [i]
        if i != ident: exp = False
    if sx.choice("with element", [0, 1]):
        x = sx.str("x", 1, "ab"); s["element_selector"] = [x]
        if not x == name: exp = False
    sx.check(bool(e.match_selector(s)) == exp, "compound selector")
    return [exp]


# ---------------------------------------------------------------- cascade

# selector text, specificity of the part that matches the element <a class="x" id="i"> in <b>, or None
SELECTORS = [
    ("*", (0, 0, 0)), ("a", (0, 0, 1)), (".x", (0, 1, 0)), ("#i", (1, 0, 0)), ("a.x", (0, 1, 1)), ("b > a", (0, 0, 2)),
    ("b, a", (0, 0, 1)), ("a, #k", (0, 0, 1)), ("#k.x, .x, a", (0, 1, 0)), ("b", None), ("#k", None), (".y", None),
    ("a[k]:hover", None), ("a:last-child", (0, 1, 1)), ("[id=i]", (0, 1, 0)), ("[id='i'], #k", (0, 1, 0)), ('b a[class~="x"]', (0, 1, 2)),
]


def declaration(sx, name, few):
    """Text of a declaration with (property, value, important)."""
    k = sx.choice(name, ["p", "p!", "q"] if few else ["p", "p!", "q!", "p-empty"])
    v = "v" + name
    if k == "p-empty": return "p: ;", None
    imp = k.endswith("!")
    return "%s: %s%s;" % (k[0], v, " !important" if imp else ""), (k[0], v, imp)


def cascade(sx, rules, decls, selectors, form):
    """The value of a property is the most important, most specific, last one."""
    text = ""; cands = []
    order = 0
    for r in range(rules):
        s, spec = SELECTORS[sx.choice("selector%d" % r, list(range(len(SELECTORS))) if selectors is None else selectors)]
        body = ""
        for d in range(decls):
            t, info = declaration(sx, "%d%d" % (r, d), rules > 2)
            body += t + " "
            order += 1
            if info is not None and spec is not None: cands.append((info[2], spec, order, info[0], info[1]))
        rule = "%s { %s}\n" % (s, body)
        if form == "media" and r == 1: rule = "@media print { %s }\n" % rule
        text += rule
    if form == "add":
        i = text.index("}\n") + 2
        sheet = StyleSheet.from_text(text[:i]) + StyleSheet.from_text(text[i:])
    else: sheet = StyleSheet.from_text(text)
    parent = Element("b")
    e = Element("a", parent, class_="x", id="i")
    props = sheet.style.select_element(e).properties()
    for p in "pq":
        best = None
        for c in cands:
            if c[3] == p and (best is None or c[:3] > best[:3]): best = c
        if best is None: sx.check(p not in props, "property without declaration")
        else:
            sx.check(p in props, "property is there")
            sx.check(len(props[p]) == 1 and props[p][0].text == best[4], "value of a property")
    return sorted(props)


def conditions(sx):
    """Only the conditions with the keyword for which the predicate is false are left out."""
    text = "a { p: 1; }"
    exp = ["1"]; ats = []
    kw = sx.choice("keyword", ["media", "supports"])
    want = sx.choice("want", ["print", "screen"])
    for i in range(3):
        k = sx.choice("kind%d" % i, ["rule", "media", "supports", "page", "bare"])
        v = str(i + 2)
        if k == "rule": text += "a { p: %s; }" % v; exp.append(v)
        elif k == "page": text += "@page :left { p: %s; }" % v; ats.append("page")
        elif k == "bare": text += "@namespace x;"; ats.append("namespace")
        else:
            q = sx.choice("query%d" % i, ["print", "screen"])
            text += "@%s %s { a { p: %s; } @font-face { q: r; } }" % (k, q, v)
            if k != kw or q == want: exp.append(v); ats.append("font-face")
    sheet = StyleSheet.from_text(text)
    f = sheet.filter_conditions(kw, lambda rule: any(isinstance(v, Value) and v.text == want for v in rule.node))
    got = [r.properties["p"][0].text for r in f.style.rules]
    sx.check(got == exp[::-1], "rules left")
    sx.check([r.keyword for r in f.at.rules] == ats, "at-rules left")
    sx.check([r.keyword for r in f.at.select("page").rules] == [a for a in ats if a == "page"], "selected at-rules")
    sx.check(len(sheet.rules) == 4, "the original is unchanged")
    return [got, ats]


FILES = ["x.css", "d/y.css", "d/z.css"]

def imports(sx, n):
    """Rules of imported files come in place of the @import rule; circular imports end."""
    spec = {}
    for i in range(n):
        out = []
        for j in range(2 if i == 0 else 1):
            t = sx.choice("import%d%d" % (i, j), [None] + [k for k in range(n)])
            if t is not None: out.append((t, sx.choice("query%d%d" % (i, j), ["", " print"]), sx.choice("form%d%d" % (i, j), ["url(%s)", '"%s"'])))
        spec[FILES[i]] = out
    def text_of(f):
        t = ""
        for k, q, form in spec[f]:
            t += "@import %s%s;" % (form % os.path.relpath(FILES[k], os.path.dirname(f) or "."), q)
        return t + "a { p: v%d; }" % FILES.index(f)
    loads = []
    class Sheet(StyleSheet):
        @classmethod
        def load_from_file(cls, filename):
            loads.append(filename)
            return cls.load_from_text(text_of(filename))
    def rules(f, seen):
        out = []
        for k, q, form in spec[f]:
            g = FILES[k]
            if g in seen: continue
            seen.add(g)
            inner = rules(g, seen)
            out.append(("if", inner)) if q else out.extend(inner)
        out.append("v%d" % FILES.index(f))
        return out
    def found(sheet):
        out = []
        for r in sheet.rules:
            if isinstance(r, Condition): out.append(("if", found(r.style)))
            else: out.append(r.properties["p"][0].text)
        return out
    sheet = Sheet.from_file(FILES[0])
    sx.check(len(loads) <= 30, "circular imports end")
    sx.check(found(sheet) == rules(FILES[0], {FILES[0]}), "rules of imported files")
    sx.check(sheet.filenames()[0] == FILES[0], "own file name comes first")
    sx.check(sorted(sheet.filenames()) == sorted(loads), "names of the files")
    sx.check(found(Sheet.from_file(FILES[0], allow_import=False)) == ["v0"], "imports not allowed")
    return [len(loads)]


def harnesses(tier):
    q = tier == "quick"
    return [
        H("combinators", combinators, [dict(n=n, k=k, wrap=w) for n, k, w in ([(1, 1, "element"), (2, 2, "element"), (3, 2, "element"), (3, 3, "element"), (4, 3, "element"), (1, 2, "lxml"), (3, 2, "lxml"), (3, 3, "lxml")] + ([] if q else [(5, 3, "element"), (4, 4, "element"), (4, 3, "lxml")]))],
          split=8, bounds="trees of up to %d elements in every shape, selectors of up to %d parts with every combinator" % ((4, 3) if q else (5, 4))),
        H("pseudo", pseudo, [dict(n=m) for m in range(1, 5 if q else 6)], split=6, bounds="trees of up to %d elements" % (4 if q else 5)),
        H("attribute", attribute, [dict(op=o, n=n, k=k, flag=f) for o in (None, "=", "~=", "|=", "^=", "$=", "*=") for n in range(0, 4 if q else 5) for k in range(0, 3) for f in (None, "i") if k <= n + 1],
          bounds="attribute values of up to %d characters, texts of up to 2" % (3 if q else 4)),
        H("compound", compound, [dict(n=m) for m in range(0, 4)], split=6, bounds="up to two classes, id, element name; class attribute of up to 3 characters"),
        H("cascade", cascade, [dict(rules=1, decls=2, selectors=None, form="text"), dict(rules=2, decls=1, selectors=None, form="text"), dict(rules=2, decls=2, selectors=[1, 2, 7, 9], form="text"),
            dict(rules=2, decls=1, selectors=[1, 2, 3], form="media"), dict(rules=2, decls=1, selectors=[1, 2, 3], form="add"), dict(rules=3, decls=1, selectors=[0, 1, 2, 6, 8, 9] if q else None, form="text")],
          split=8, bounds="up to 3 rules with %d selectors and 2 declarations, important or not" % len(SELECTORS)),
        H("conditions", conditions, split=5, bounds="4 rules, conditional or not"),
        H("imports", imports, [dict(n=m) for m in ((1, 2) if q else (1, 2, 3))], split=5, bounds="up to %d files importing each other" % (2 if q else 3)),
    ]
