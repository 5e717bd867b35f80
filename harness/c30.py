"""C30: themes give every action and role the format its style sheet says."""
from vp.ctx import H
import itertools
import os
import shutil
import tempfile
import parce
import parce.action as act
from parce import css
from parce.css import Value, Color, Rule, StyleSheet
from parce.theme import Theme, TextFormat

ASSUMPTIONS = [
    "shorthand properties set the properties they name; resetting those they do not name is outside the claim, and so are the keyword normal and unquoted font names inside a font property",
    "values are those listed in the documentation (highlighting.rst)",
]

ATTRS = ["color", "background_color", "caret_color", "text_decoration_color", "text_decoration_line", "text_decoration_style",
         "font_family", "font_kerning", "font_size", "font_size_unit", "font_stretch", "font_style", "font_style_angle",
         "font_style_angle_unit", "font_variant_caps", "font_variant_position", "font_weight"]
DEFAULT = {"text_decoration_line": (), "font_family": ()}


def attrs(f):
    d = {}
    for k in ATTRS:
        v = getattr(f, k)
        d[k] = list(v) if k in DEFAULT else v
    return d


def same_format(sx, f, exp, label):
    """f has exactly the attributes of exp."""
    for k in ATTRS:
        v = getattr(f, k); e = exp.get(k, DEFAULT.get(k))
        if k in DEFAULT: v = list(v); e = list(e)
        sx.check(v == e, label + ": " + k)


# ---------------------------------------------------------------- precedence

class SheetTheme(Theme):
    """A theme with a given style sheet."""
    def __init__(self, sheet):
        super().__init__()
        self.sheet = sheet
    @property
    def style(self): return self.sheet.style


def color(sx, name): return Color(sx.int(name, 0, 255), 0, 0, 1.0)

def d_color(prop, attr):
    def make(sx, name):
        c = color(sx, name)
        return prop, [Value(color=c)], {attr: c}
    return make

def d_size(sx, name):
    n = sx.int(name, 0, 99)
    return "font-size", [Value(number=n, unit="pt")], {"font_size": n, "font_size_unit": "pt"}

def d_keyword_size(sx, name):
    return "font-size", [Value(text="larger")], {"font_size": "larger", "font_size_unit": None}

def d_font(sx, name):
    n = sx.int(name, 0, 99)
    return "font", [Value(number=n, unit="em"), Value(text="serif")], {"font_size": n, "font_size_unit": "em", "font_family": ["serif"]}

def d_family(sx, name):
    return "font-family", [Value(text="Foo Bar", quoted=True), ",", Value(text="monospace")], {"font_family": ["Foo Bar", "monospace"]}

def d_italic_font(sx, name):
    n = sx.int(name, 0, 99)
    return "font", [Value(text="italic"), Value(number=n, unit="px"), Value(text="serif")], \
        {"font_size": n, "font_size_unit": "px", "font_family": ["serif"], "font_style": "italic", "font_style_angle": None, "font_style_angle_unit": None}

def d_oblique(sx, name):
    n = sx.int(name, 0, 99)
    return "font-style", [Value(text="oblique"), Value(number=n, unit="deg")], {"font_style": "oblique", "font_style_angle": n, "font_style_angle_unit": "deg"}

def d_style(sx, name):
    return "font-style", [Value(text="italic")], {"font_style": "italic", "font_style_angle": None, "font_style_angle_unit": None}

def d_line(sx, name):
    return "text-decoration-line", [Value(text="underline"), Value(text="overline")], {"text_decoration_line": ["underline", "overline"]}

def d_none(sx, name):
    return "text-decoration", [Value(text="none")], {"text_decoration_line": []}

def d_deco(sx, name):
    c = color(sx, name)
    return "text-decoration", [Value(color=c), Value(text="line-through"), Value(text="wavy")], \
        {"text_decoration_color": c, "text_decoration_line": ["line-through"], "text_decoration_style": "wavy"}

def d_unknown(sx, name): return "margin", [Value(number=1, unit="px")], {}

GROUPS = {
    "background": [d_color("background", "background_color"), d_color("background-color", "background_color")],
    "color": [d_color("color", "color"), d_color("caret-color", "caret_color"), d_unknown],
    "size": [d_size, d_keyword_size, d_font, d_family],
    "style": [d_oblique, d_style, d_italic_font],
    "decoration": [d_line, d_none, d_deco, d_color("text-decoration-color", "text_decoration_color")],
}

PARCE = {"class_selector": ["parce"]}
def cls(*names, **kw): return dict({"class_selector": list(names)}, **kw)

# selector, specificity
ROLE_SEL = [([PARCE], 1), ([cls("parce", "current-line")], 2), ([cls("parce", pseudo_class=[("focus", None)])], 2),
            ([cls("parce", "current-line", pseudo_class=[("focus", None)])], 3), ([cls("parce", pseudo_element=["selection"])], 1.5)]
ROLES = [("window", "default"), ("current-line", "default"), ("current-line", "focus"), ("selection", "focus"), ("window", "disabled")]

def role_match(n, role, state):
    return [True, role == "current-line", state == "focus", role == "current-line" and state == "focus", role == "selection"][n]

ACTION_SEL = [([PARCE, " ", cls("escape")], 2), ([PARCE, " ", cls("string")], 2), ([PARCE, " ", cls("string", "escape")], 3), ([PARCE], 1),
              ([cls("literal", "string")], 2)]
ACTIONS = [act.String.Escape, act.Escape, act.String, act.Comment]
ACTION_MATCH = [[True, True, True, False, True], [True, False, False, False, False], [False, True, False, False, True], [False] * 5]


def precedence(sx, where, group, sels, per):
    """Every attribute is that of the matching declaration with the highest precedence."""
    rules = []; decls = []
    if where == "role":
        q = sx.choice("role", ROLES)
        table = ROLE_SEL; match = [role_match(n, *q) for n in range(5)]
    else:
        n = sx.choice("action", list(range(len(ACTIONS))))
        table = ACTION_SEL; match = ACTION_MATCH[n]
    for i, s in enumerate(sels):
        props = {}
        for j in range(per[i]):
            make = sx.choice("decl%d%d" % (i, j), GROUPS[group])
            prop, values, sets = make(sx, "v%d%d" % (i, j))
            imp = sx.choice("imp%d%d" % (i, j), [False, True]) if j == 0 else False
            if prop in props: continue          # one rule declares a property once here
            props[prop] = values + ["!important"] if imp else values
            if match[s]: decls.append(((imp, table[s][1], i, j), prop, sets))
        rules.append(Rule([table[s][0]], props))
    theme = SheetTheme(StyleSheet(rules))
    f = theme.baseformat(*q) if where == "role" else theme.textformat(ACTIONS[n])
    exp = {}
    decls.sort(key=lambda d: d[0])
    last = {prop: key for key, prop, sets in decls}
    for key, prop, sets in decls:
        if last[prop] == key: exp.update(sets)      # one property: only the winner counts
    same_format(sx, f, exp, "precedence")
    sx.check(bool(f) == bool(exp), "a format without properties is false")
    return attrs(f)


def order_text(sx, k):
    """The same within one rule and between rules, read from text."""
    OPT = [("background: #010203", "background_color", Color(1, 2, 3, 1.0)), ("background-color: red", "background_color", Color(255, 0, 0, 1.0)),
           ("background-color: rgb(1, 1, 1) !important", "background_color", Color(1, 1, 1, 1.0)),
           ("font: 12pt/14pt serif", "font_size", 12), ("font-size: 10pt", "font_size", 10), ("font: large serif", "font_size", "large"), ("font-size: 0 !important", "font_size", 0)]
    parts = []; best = {}
    for i in range(k):
        d = sx.choice("decl%d" % i, OPT)
        if i: parts.append(sx.choice("sep%d" % i, ["; ", "; } .parce { "]))
        parts.append(d[0])
        key = ("!important" in d[0], i)
        if d[1] not in best or key > best[d[1]][0]: best[d[1]] = (key, d[2])
    text = ".parce { " + "".join(parts) + "; }"
    f = Theme(stylesheet=text).baseformat()
    for a in ("background_color", "font_size"):
        sx.check(getattr(f, a) == (best[a][1] if a in best else None), "the last declaration wins: " + a, text)
    return [text]


# ---------------------------------------------------------------- reading

STYLES = [("", None, None, None), ("italic", "italic", None, None), ("oblique", "oblique", None, None), ("oblique 10deg", "oblique", 10, "deg")]
CAPS = [("", None), ("small-caps", "small-caps")]
WEIGHTS = [("", None), ("bold", "bold"), ("700", 700)]
STRETCH = [("", None), ("condensed", "condensed")]
SIZES = [("12pt", 12, "pt"), ("1.5em/2", 1.5, "em"), ("120%", 120, "%"), ("x-large", "x-large", None), ("larger / 14px", "larger", None)]
FAMILIES = [("monospace", ["monospace"]), ('"Foo Bar", serif', ["Foo Bar", "serif"]), ("'A',\"B\"", ["A", "B"])]

def shorthand(sx, order):
    """A font property sets all values it contains, whatever the order of the first ones."""
    st = sx.choice("style", STYLES); ca = sx.choice("caps", CAPS); we = sx.choice("weight", WEIGHTS); sr = sx.choice("stretch", STRETCH)
    si = sx.choice("size", SIZES); fa = sx.choice("family", FAMILIES)
    first = [(st, ca, we, sr)[i][0] for i in order]
    text = "font: " + " ".join(p for p in first + [si[0], fa[0]] if p)
    f = Theme(stylesheet=".parce { font-weight: bolder; " + text + "; }").baseformat()
    exp = {"font_style": st[1], "font_style_angle": st[2], "font_style_angle_unit": st[3], "font_variant_caps": ca[1],
           "font_weight": "bolder" if we[1] is None else we[1], "font_stretch": sr[1], "font_size": si[1], "font_size_unit": si[2], "font_family": fa[1]}
    same_format(sx, f, exp, "font property")
    return [text]


LONGHAND = [
    ("color: %s", "color", "color"), ("background-color: %s", "background_color", "color"), ("caret-color: %s", "caret_color", "color"),
    ("text-decoration-color: %s", "text_decoration_color", "color"), ("background: url(x.png) %s", "background_color", "color"),
    ("text-decoration-style: %s", "text_decoration_style", ["solid", "double", "dotted", "dashed", "wavy"]),
    ("font-kerning: %s", "font_kerning", ["auto", "normal", "none"]),
    ("font-size: %s", "font_size", ["xx-small", "x-small", "small", "medium", "large", "x-large", "xx-large", "xxx-large", "larger", "smaller"]),
    ("font-stretch: %s", "font_stretch", ["ultra-condensed", "extra-condensed", "condensed", "semi-condensed", "semi-expanded", "expanded", "extra-expanded", "ultra-expanded"]),
    ("font-style: %s", "font_style", ["normal", "italic", "oblique"]),
    ("font-variant-caps: %s", "font_variant_caps", ["normal", "small-caps", "all-small-caps", "petite-caps", "all-petite-caps", "unicase", "titling-caps"]),
    ("font-variant-position: %s", "font_variant_position", ["normal", "sub", "super"]),
    ("font-weight: %s", "font_weight", ["normal", "bold", "lighter", "bolder"]),
]
COLORS = [("red", Color(255, 0, 0, 1.0)), ("#0a0B0c", Color(10, 11, 12, 1.0)), ("#123", Color(17, 34, 51, 1.0)), ("rgb(1, 20, 255)", Color(1, 20, 255, 1.0)),
          ("rgba(1, 20, 255, 0.5)", Color(1, 20, 255, 0.5)), ("transparent", Color(0, 0, 0, 0)), ("#00000000", Color(0, 0, 0, 0)), ("antiquewhite", Color(250, 235, 215, 1.0))]
GENERIC = ["serif", "sans-serif", "monospace", "cursive", "fantasy", "system-ui", "math", "emoji", "fangsong"]

def longhand(sx, p):
    """Every documented value of a property is read as such, and sets nothing else."""
    text, attr, values = LONGHAND[p]
    if values == "color": v, e = sx.choice("value", COLORS)
    else: v = e = sx.choice("value", values)
    f = Theme(stylesheet=".parce { " + text % v + " }").baseformat()
    same_format(sx, f, {attr: e}, text % v)
    return [text % v]


def numeric(sx, p):
    prop, attr, unit_attr, units = [("font-size", "font_size", "font_size_unit", ["", "pt", "%", "em"]), ("font-stretch", "font_stretch", None, ["%"]),
                                    ("font-weight", "font_weight", None, [""]), ("font-style: oblique", "font_style_angle", "font_style_angle_unit", ["deg", "rad", "grad", "turn", ""])][p]
    n, e = sx.choice("number", [("0", 0), ("7", 7), ("700", 700), ("1.5", 1.5), (".5", 0.5)])
    u = sx.choice("unit", units)
    text = prop + (" " if ":" in prop else ": ") + n + u
    f = Theme(stylesheet=".parce { " + text + " }").baseformat()
    exp = {attr: e}
    if unit_attr: exp[unit_attr] = u or None
    if p == 3: exp["font_style"] = "oblique"
    same_format(sx, f, exp, text)
    return [text]


def system_font(sx):
    """A font property naming a system font sets that font."""
    name = sx.choice("name", ["caption", "icon", "menu", "message-box", "small-caption", "status-bar"])
    before = sx.choice("before", ["", "font-family: serif; ", "color: red; "])
    f = Theme(stylesheet=".parce { " + before + "font: " + name + " }").baseformat()
    same_format(sx, f, dict({"font_family": [name]}, **({"color": Color(255, 0, 0, 1.0)} if "color" in before else {})), "system font " + name)
    return [before, name]


def lists(sx, k):
    names = []; text = []
    for i in range(k):
        fam = sx.choice("family%d" % i, GENERIC[:3 if k > 1 else None] + ["Foo Bar", "x"])
        names.append(fam); text.append(fam if fam in GENERIC else '"%s"' % fam)
    lines = sx.choice("lines", [["underline"], ["overline", "line-through"], ["none"]])
    f = Theme(stylesheet=".parce { font-family: " + ", ".join(text) + "; text-decoration-line: " + " ".join(lines) + " }").baseformat()
    same_format(sx, f, {"font_family": names, "text_decoration_line": [] if lines == ["none"] else lines}, "lists")
    return names


# ---------------------------------------------------------------- arithmetic

def some(sx, name, group):
    """Properties of one group (possibly none), the values symbolic."""
    make = sx.choice(name, [None] + GROUPS[group])
    if make is None: return {}
    prop, values, sets = make(sx, name + "v")
    return {prop: values}

PARTS = [("color",), ("background_color",), ("caret_color",), ("text_decoration_color",), ("text_decoration_line",), ("text_decoration_style",),
         ("font_family",), ("font_kerning",), ("font_size", "font_size_unit"), ("font_stretch",),
         ("font_style", "font_style_angle", "font_style_angle_unit"), ("font_variant_caps",), ("font_variant_position",), ("font_weight",)]

def isset(f, props):
    v = getattr(f, props[0])
    return v is not None and v != ()

def part(f, props): return [list(getattr(f, p)) if p in DEFAULT else getattr(f, p) for p in props]


def algebra(sx, group, other):
    pa = some(sx, "a", group); pb = some(sx, "b", group)
    po = some(sx, "o", other); side = sx.choice("side", ["a", "b", "both"])
    if side != "b": pa = dict(pa, **po)
    if side != "a": pb = dict(pb, **po)
    a = TextFormat(pa); b = TextFormat(pb)
    ba = attrs(a); bb = attrs(b)
    s = a + b; d = a - b
    sx.check(attrs(a) == ba and attrs(b) == bb, "the operands are not changed")
    for p in PARTS:
        src = b if isset(b, p) else a
        sx.check(part(s, p) == part(src, p), "sum has the other's properties, then ours: " + p[0])
        if isset(d, p): sx.check(part(d, p) == part(a, p), "difference has only our properties: " + p[0])
        elif isset(a, p): sx.check(isset(b, p) and part(a, p) == part(b, p), "difference removes only what is the same: " + p[0])
        if isset(a, p) and isset(b, p) and part(a, p) == part(b, p) and not p[0].startswith("text_decoration"):
            sx.check(not isset(d, p), "what is the same is removed: " + p[0])
    sx.check(b + d == b + a, "adding the difference gives the sum")
    sx.check(not (a - a) and not (b - b), "nothing is left after subtracting itself")
    e = TextFormat(pa)
    sx.check(a == e and not (a != e), "equal formats")
    eq = attrs(a) == attrs(b) and [isset(a, p) for p in PARTS] == [isset(b, p) for p in PARTS]
    sx.check((a == b) == eq and (a != b) == (not eq), "formats are equal when their properties are")
    sx.check(bool(a) == bool([p for p in PARTS if isset(a, p)]), "truth value")
    sx.check(attrs(a + TextFormat({})) == attrs(a) and attrs(TextFormat({}) + a) == attrs(a) and attrs(a - TextFormat({})) == attrs(a), "the empty format")
    return [attrs(s), attrs(d)]


# ---------------------------------------------------------------- writing

WRITE = {
    "color": ["", "color: #0a0b0c", "color: rgba(1, 2, 3, 0)", "color: transparent"],
    "back": ["", "background-color: white", "background: #fff8"],
    "caret": ["", "caret-color: #010101"],
    "size": ["", "font-size: 12pt", "font-size: 0", "font-size: 1.5em", "font-size: 80%", "font-size: larger"],
    "stretch": ["", "font-stretch: 75%", "font-stretch: 0%", "font-stretch: expanded"],
    "style": ["", "font-style: oblique 10deg", "font-style: oblique", "font-style: italic", "font-style: normal"],
    "family": ["", "font-family: monospace", 'font-family: "Foo Bar", serif', 'font-family: "a\\22 b;c", "x y"'],
    "weight": ["", "font-weight: 700", "font-weight: bold"],
    "caps": ["", "font-variant-caps: small-caps"],
    "position": ["", "font-variant-position: sub"],
    "kerning": ["", "font-kerning: none"],
    "line": ["", "text-decoration-line: underline overline", "text-decoration-line: none"],
    "deco": ["", "text-decoration-style: wavy"],
    "decocolor": ["", "text-decoration-color: #010203"],
}

def roundtrip(sx, keys):
    text = ";".join(sx.choice(k, WRITE[k]) for k in keys)
    f = Theme(stylesheet=".parce { " + text + " }").baseformat()
    props = f.css_properties()
    back = "; ".join(k + ": " + v for k, v in props.items())
    g = Theme(stylesheet=".parce { " + back + " }").baseformat()
    sx.check(g == f and attrs(g) == attrs(f), "written as CSS and read back", [text, back])
    sx.check(bool(props) == bool(f), "an empty format writes nothing")
    return [text]


def bundled(sx, name):
    """A bundled theme with a style sheet added: the added rules come last; the other formats remain."""
    fn = os.path.join(os.path.dirname(parce.__file__), "themes", name + ".css")
    th = Theme(fn)
    sx.check(th.filenames() == [fn], "file names")
    action = sx.choice("action", [act.Comment, act.String.Escape, act.Name.Tag.Definition, act.Number])
    extra = sx.choice("extra", ["comment", "number", "tag"])
    t = Theme(fn, stylesheet=".parce ." + extra + " { color: #010203; caret-color: #040506 }")
    f = th.textformat(action); g = t.textformat(action)
    hit = extra in repr(action).lower().split(".")
    exp = attrs(f)
    if hit: exp["caret_color"] = Color(4, 5, 6, 1.0); exp["color"] = g.color
    sx.check(attrs(g) == exp, "rules added to a theme")
    if hit and f.color is None: sx.check(g.color == Color(1, 2, 3, 1.0), "color added")
    sx.check(attrs(th.baseformat()) == attrs(t.baseformat()), "base format")
    return [repr(action), extra, hit]


def files(sx, k, text):
    """Of several style sheets the rules come in the order the sheets are given in, the text last."""
    dirname = tempfile.mkdtemp(prefix="vp30")
    try:
        exp = {}; kw = {}; names = []
        for i in range(k + text):
            prop, attr = sx.choice("prop%d" % i, [("color", "color"), ("caret-color", "caret_color"), ("background", "background_color")])
            sheet = ".parce { %s: #00000%d }" % (prop, i + 1)
            exp[attr] = Color(0, 0, i + 1, 1.0)
            if i == k: kw["stylesheet"] = sheet; break
            names.append(os.path.join(dirname, "s%d.css" % i))
            with open(names[-1], "w") as fobj: fobj.write(sheet)
        t = Theme(*names, **kw)
        same_format(sx, t.baseformat(), exp, "several style sheets")
        sx.check(set(t.filenames()) == set(names), "the file names of several style sheets")
    finally:
        shutil.rmtree(dirname)
    return [sorted(exp), text]


def harnesses(tier):
    q = tier == "quick"
    R = [(0, 0), (0, 1), (1, 0), (3, 1), (2, 1), (4, 0)] + ([] if q else [(1, 2, 0), (0, 1, 0), (3, 0, 4)])
    A = [(0, 1), (2, 0), (1, 2), (3, 0), (4, 1)] + ([] if q else [(0, 1, 2), (2, 0, 4)])
    P = [dict(where=w, group=g, sels=s, per=tuple(2 if i == 0 and len(s) < 3 else 1 for i in range(len(s))))
         for w, S in (("role", R), ("action", A)) for g in GROUPS for s in S]
    ks = list(WRITE)
    pairs = [(ks[i], ks[(i + d) % len(ks)]) for i in range(len(ks)) for d in ((1, 4) if q else range(1, 8))] + [("line", "deco", "decocolor")]
    G = [(g, o) for g in GROUPS for o in (["color", "size"] if q else list(GROUPS)) if g != o]
    return [
        H("precedence", precedence, P, split=6, bounds="%d rules with up to 2 declarations each, shorthand properties and importance included; values symbolic" % (2 if q else 3)),
        H("text", order_text, [dict(k=k) for k in ((1, 2, 3) if q else (1, 2, 3, 4))], split=3, bounds="up to %d declarations from text, in one rule or more" % (3 if q else 4)),
        H("shorthand", shorthand, [dict(order=o) for o in ([(0, 1, 2, 3), (2, 3, 0, 1)] if q else list(itertools.permutations(range(4))))], split=4, bounds="font properties with style, caps, weight, stretch, size, line height and family"),
        H("longhand", longhand, [dict(p=p) for p in range(len(LONGHAND))], bounds="every documented keyword value; 8 colour notations"),
        H("numeric", numeric, [dict(p=p) for p in range(4)], bounds="5 numbers, the documented units"),
        H("lists", lists, [dict(k=k) for k in ((1, 2) if q else (1, 2, 3))], split=3, bounds="up to %d font families; text decoration lines" % (2 if q else 3)),
        H("systemfont", system_font, [dict()], bounds="the six system fonts, alone or after another declaration"),
        H("files", files, [dict(k=k, text=t) for k in ((1, 2) if q else (1, 2, 3)) for t in (0, 1)], split=2, bounds="up to %d style sheet files and a text, 3 properties" % (2 if q else 3)),
        H("algebra", algebra, [dict(group=g, other=o) for g, o in G], split=5, bounds="two formats with properties of two groups, values symbolic"),
        H("roundtrip", roundtrip, [dict(keys=p) for p in pairs], split=3, bounds="formats with two or three properties"),
        H("bundled", bundled, [dict(name=n) for n in (["debug"] if q else ["debug", "default", "dark"])], fuel=3000000, bounds="bundled themes with a rule added"),
    ]
