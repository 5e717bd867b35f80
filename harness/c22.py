"""C22: CSS text, colour and escape values convert without loss."""
from vp.ctx import H
from parce import css
from parce.css import Color, CssTransform, StyleSheet, Value

ASSUMPTIONS = [
    "colour functions get at least three numeric arguments; hexadecimal colours have 3, 4, 6 or 8 digits",
    "after an escape only a space is taken as its end (no tab or newline)",
]

HEX = "0123456789abcdefABCDEF"


def digit(sx, c):
    """The value of a hexadecimal digit."""
    n = ord(c)
    return sx.ite(n < 58, n - 48, sx.ite(n < 71, n - 55, n - 87))


def hexcolor(sx, n):
    """Every digit counts for its own component only."""
    k = n // 3 if n in (3, 6) else n // 4
    text = sx.str("text", 3 * k, HEX, small="0a9F")
    # opacity is a fraction: the solver enumerates its digits
    if n in (4, 8): text = text + sx.fixed(sx.str("alpha", k, HEX))
    c = CssTransform().get_hex_color(text)
    exp = []
    for i in range(n // k):
        d = text[i * k:i * k + k]
        exp.append(digit(sx, d) * 17 if k == 1 else digit(sx, d[0]) * 16 + digit(sx, d[1]))
    for i, x in enumerate((c.r, c.g, c.b)): sx.check(x == exp[i], "component %d" % i)
    if len(exp) == 4: sx.check(c.a == exp[3] / 255, "opacity")
    else: sx.check(c.a == 1, "opaque")
    return [n]


def roundtrip(sx, which):
    """A colour is written as a notation that is read as the same colour."""
    base = [sx.choice("base", [0, 7, 255])] * 4
    v = sx.fixed(sx.int("value", 0, 255))
    base[which] = v
    r, g, b, a = base
    if which < 3: a = sx.choice("alpha", [255, 128, 1, 0])
    c = Color(r, g, b, a / 255)
    text = css.color2hex(c)
    sx.check(text[0] == "#" and (len(text) == 7) == (a == 255), "form of the text")
    d = CssTransform().get_hex_color(text[1:])
    sx.check(d == c, "colour read back")
    # an opacity that has no such notation: the nearest
    o = sx.choice("opacity", [0.1, 0.3, 0.501, 0.7, 0.99, 0.997])
    t = css.color2hex(Color(r, g, b, o))
    sx.check(t[:7] == text[:7] and abs(int(t[7:], 16) - o * 255) <= 0.5, "nearest opacity")
    return [text]


def number(sx, which, percent, count):
    """Components are used as they are given, within their range."""
    vals = []; exp = []
    for i in range(count):
        top = 255 if i < 3 else 1.0
        if i == which:
            n = sx.int("value", -3, 260 if not percent else 103)
            vals.append(Value(text="?", number=n, unit="%" if percent else None))
            if percent: n = sx.fixed(n) * top / 100
            n = 0 if n < 0 else top if n > top else n
            if i < 3 and percent: n = int(n + .5) if n % 1 != .5 else None
            exp.append(n)
        else:
            n = sx.choice("other%d" % i, [0, 1, 255] if i < 3 else [0, 0.5, 1])
            vals.append(Value(text=str(n), number=n)); exp.append(n)
        vals.append(",")
    c = CssTransform().get_rgba_color(vals)
    for i, (x, y) in enumerate(zip(c, exp)):
        if y is None: sx.check(0 <= x <= 255 and isinstance(x, int), "rounded component")
        else: sx.check(x == y, "component")
        if i < 3: sx.check(isinstance(x, int), "component is an integer")
    if count == 3: sx.check(c.a == 1, "opaque")
    return [count]


def value(sx, text):
    """The values of a property in a rule, and that the rule after it is read as well."""
    rules = StyleSheet.load_from_text("a { x: " + text + "; } b { y: z; }")
    sx.check(len(rules) == 2 and list(rules[0].properties) == ["x"] and list(rules[1].properties) == ["y"], "rules")
    return rules[0].properties["x"]


def rgbtext(sx, n, fn):
    """Colours in a style sheet."""
    num = sx.fixed(sx.str("number", n, "0159.%"))
    t = num[:-1] if num.endswith("%") else num
    parts = t.split(".")
    sx.assume("%" not in t and len(parts) <= 2 and parts[-1] != "")
    args = ["0", num, "7"] + (["0.5"] if fn == "rgba" else [])
    v, = value(sx, "%s(%s)" % (fn, sx.choice("separator", [", ", " "]).join(args)))
    g = float(t) * (2.55 if num.endswith("%") else 1)
    g = 255 if g > 255 else g
    sx.check(v.color.r == 0 and v.color.b == 7 and abs(v.color.g - g) <= .5001, "components")
    sx.check(v.color.a == (0.5 if fn == "rgba" else 1), "opacity")
    return [v.color.g]


ALPHA = "a1-\"\\ '\n_\u00e9{};/*)"

def quote(sx, n, alphabet):
    """Quoting a string, where needed, makes CSS that reads as the same string."""
    s = sx.str("text", n, alphabet)
    q = css.quote_if_needed(s)
    v = value(sx, q)
    sx.check(len(v) == 1 and isinstance(v[0], Value), "one value")
    sx.check(v[0].text == s, "text")
    return [len(q)]


def escape(sx, n, where):
    s = sx.str("text", n, ALPHA + "\x00\x7f\u4e2d\U0001f600" if n < 2 else ALPHA)
    for c in s: sx.assume(c != "\x00")
    e = css.escape(s)
    if where == "string": v = value(sx, '"' + e + '"')
    elif where == "single": v = value(sx, "'" + e + "'")
    elif where == "url": v = value(sx, "url(" + e + ")")
    else: v = value(sx, "q" + e + "q")
    sx.check(len(v) == 1, "one value")
    sx.check((v[0].url if where == "url" else v[0].text) == ("q" + s + "q" if where == "name" else s), "text")
    return [n]


def unescape(body):
    """The text a CSS string with this body stands for; None if the body has no such meaning."""
    out = ""; i = 0; n = len(body)
    while i < n:
        c = body[i]
        if c == "\n" or c == '"': return None
        if c != "\\": out = out + c; i += 1; continue
        i += 1
        if i == n: return None
        j = i
        while j < n and j - i < 6 and one_of(body[j], HEX): j += 1
        if j > i:
            code = int(body[i:j], 16)
            if code == 0 or code > 0x10ffff or 0xd800 <= code <= 0xdfff: out = out + "\ufffd"
            else: out = out + chr(code)
            if j < n and body[j] == " ": j += 1
            i = j
        elif body[i] == "\n": i += 1
        else: out = out + body[i]; i += 1
    return out


def one_of(c, s):
    for x in s:
        if c == x: return True
    return False


def strings(sx, n, prefix, alphabet):
    """Reading a quoted string gives the text it stands for."""
    body = prefix + sx.str("body", n, alphabet)
    exp = unescape(body)
    sx.assume(exp is not None)
    v = value(sx, '"' + body + '"')
    sx.check(len(v) == 1 and v[0].quoted is True, "one quoted string")
    sx.check(v[0].text == exp, "text")
    return [len(exp)]


def harnesses(tier):
    q = tier == "quick"
    return [
        H("hex", hexcolor, [dict(n=m) for m in (3, 4, 6, 8)], eager_ok=lambda c: c["n"] < 5, bounds="every hexadecimal colour"),
        H("roundtrip", roundtrip, [dict(which=w) for w in range(4)], split=8, bounds="every value of every component, with 3 values of the others"),
        H("number", number, [dict(which=w, percent=p, count=c) for c in (3, 4) for w in range(c) for p in (False, True)], split=8, bounds="every component from -3 to 260 or 103%, with 3 values of the others"),
        H("rgbtext", rgbtext, [dict(n=m, fn=f) for m in range(1, 5) for f in ("rgb", "rgba")], split=6, bounds="numbers of up to 4 characters"),
        H("quote", quote, [dict(n=m, alphabet=a) for m, a in [(0, "a"), (1, ALPHA), (2, ALPHA), (3, "a1-\"\\ \n")] + ([] if q else [(3, ALPHA), (4, "a1-\"\\\n")])], split=6, bounds="texts of up to %d characters" % (3 if q else 4)),
        H("escape", escape, [dict(n=m, where=w) for m in ((0, 1, 2) if q else (0, 1, 2, 3)) for w in ("string", "single", "name", "url")], split=6, bounds="texts of up to %d characters" % (2 if q else 3)),
        H("strings", strings, [dict(n=m, prefix=p, alphabet=a) for m, p, a in [(0, "", "a"), (1, "", "aA4\\\" '\n"), (2, "", "aA4\\\" '\n"), (3, "", "aA4\\\" \n"), (2, "\\", "aA40\\\" g\n\u0663"), (3, "\\", "a40\\ gd"), (2, "\\1100", "0 f"), (2, "\\00d", "78e "), (1, "\\00d80", "0f a"), (1, "\\ffffff", "0f a"), (1, "\\0010ff", "f 0")] + ([] if q else [(4, "", "a4\\ \""), (4, "\\", "a40\\ g")])],
          split=6, bounds="string bodies of up to %d characters" % (4 if q else 5)),
    ]
