"""C29: the bundled transforms give the data a text denotes."""
import re
from vp.ctx import H
from parce.transform import transform_text, Transformer
from parce.treebuilder import build_tree
from parce.lang.json import Json
from parce.lang.csv import Csv
from parce.lang.ini import Ini
from parce.lang import numbers

ASSUMPTIONS = [
    "JSON: texts that are valid according to RFC 8259 (with exactly one value); duplicate keys keep the last value",
    "CSV: lines are separated by a newline; no blank lines; no spaces next to quotes; an empty field is None, an empty quoted field is ''",
    "INI: lines are blank, a comment, a section or key = value; escapes of the characters that stand for themselves, and hexadecimal ones",
    "numbers: below a hundred million, written in the usual way, words separated by nothing, a space or a hyphen where usual",
]


class Invalid(Exception):
    pass


def both(sx, lx, text, label):
    """The result; it is the same for the text and for its tree."""
    r = transform_text(lx, text)
    sx.check(r == Transformer().transform_tree(build_tree(lx, text)), label + ": text and tree")
    return r


class JsonRef:
    """Reads a JSON text (RFC 8259)."""
    ESC = {'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
    def __init__(self, sx, text):
        self.sx = sx; self.t = text; self.i = 0
        self.v = self.ws() or self.value(); self.ws()
        if self.i != len(text): raise Invalid
    def at(self, chars):
        c = self.t[self.i:self.i+1]
        return len(c) > 0 and any(c == x for x in chars)
    def need(self, s):
        for c in s:
            if not self.at(c): raise Invalid
            self.i += 1
    def ws(self):
        while self.at(" \n"): self.i += 1
    def value(self):
        for k, v in (("true", True), ("false", False), ("null", None)):
            if self.at(k[0]): self.need(k); return v
        if self.at('"'): return self.string()
        if self.at("["):
            self.i += 1; r = []; self.ws()
            if self.at("]"): self.i += 1; return r
            while True:
                self.ws(); r.append(self.value()); self.ws()
                if self.at(","): self.i += 1; continue
                self.need("]"); return r
        if self.at("{"):
            self.i += 1; r = []; self.ws()
            if self.at("}"): self.i += 1; return Obj(r)
            while True:
                self.ws()
                if not self.at('"'): raise Invalid
                k = self.string(); self.ws(); self.need(":"); self.ws()
                r.append((k, self.value())); self.ws()
                if self.at(","): self.i += 1; continue
                self.need("}"); return Obj(r)
        return self.number()
    def digits(self):
        n = 0
        while self.at("0123456789"): self.i += 1; n += 1
        if not n: raise Invalid
        return n
    def number(self):
        a = self.i
        if self.at("-"): self.i += 1
        zero = self.at("0")
        if self.digits() > 1 and zero: raise Invalid
        whole = True
        if self.at("."): self.i += 1; self.digits(); whole = False
        if self.at("eE"):
            self.i += 1
            if self.at("+-"): self.i += 1
            self.digits(); whole = False
        s = self.sx.fixed(self.t[a:self.i])
        return int(s) if whole else float(s)
    def string(self):
        self.i += 1
        r = []
        while not self.at('"'):
            if self.i >= len(self.t) or self.at("\n"): raise Invalid
            if self.at("\\"):
                self.i += 1
                if self.at("u"):
                    self.i += 1
                    h = self.t[self.i:self.i+4]
                    if len(h) < 4: raise Invalid
                    for c in h:
                        if not any(c == x for x in "0123456789abcdefABCDEF"): raise Invalid
                    self.i += 4
                    n = int(self.sx.fixed(h), 16)
                    if r and isinstance(r[-1], int) and 0xd800 <= r[-1] < 0xdc00 and 0xdc00 <= n < 0xe000:
                        r[-1] = chr(0x10000 + (r[-1] - 0xd800) * 0x400 + n - 0xdc00)
                    else: r.append(n)
                    continue
                for k, v in self.ESC.items():
                    if self.at(k): r.append(v); break
                else: raise Invalid
            else: r.append(self.t[self.i])
            self.i += 1
        self.i += 1
        return "".join(chr(c) if isinstance(c, int) else c for c in r)


class Obj:
    """Members of an object."""
    def __init__(self, items): self.items = items


def equal(sx, got, exp, label):
    if isinstance(exp, Obj):
        sx.check(isinstance(got, dict), label + ": object expected")
        keys = []
        for k, v in exp.items:
            if not any(k == x for x in keys): keys.append(k)
        sx.check(len(got) == len(keys), label + ": number of keys")
        for k in keys:
            v = [v for x, v in exp.items if x == k][-1]
            hit = [g for x, g in got.items() if x == k]
            sx.check(len(hit) == 1, label + ": key missing")
            equal(sx, hit[0], v, label)
    elif isinstance(exp, list):
        sx.check(isinstance(got, list) and len(got) == len(exp), label + ": list expected")
        for a, b in zip(got, exp): equal(sx, a, b, label)
    elif exp is None or exp is True or exp is False: sx.check(got is exp, label + ": constant")
    else: sx.check(got is not None and got == exp, label + ": value")


def json(sx, head, n, tail, alphabet):
    text = head + sx.str("t", n, alphabet) + tail
    try: exp = JsonRef(sx, text).v
    except Invalid:
        sx.assume(False)
    equal(sx, both(sx, Json.root, text, "json"), exp, "json")
    return text


def csv_ref(sx, text):
    """Records of a CSV text."""
    out = []; rec = []; i = 0
    at = lambda c: i < len(text) and text[i] == c
    while True:
        if at('"'):
            i += 1; f = ""
            while True:
                if i >= len(text): raise Invalid
                if at('"'):
                    i += 1
                    if not at('"'): break
                f = f + text[i]; i += 1
        else:
            a = i
            while i < len(text) and not at(",") and not at("\n"):
                if at('"'): raise Invalid
                i += 1
            f = text[a:i] if i > a else None
        rec.append(f)
        if at(","): i += 1; continue
        if i < len(text) and not at("\n"): raise Invalid
        out.append(rec)
        if len(rec) == 1 and rec[0] is None: raise Invalid      # a blank line
        rec = []
        if i >= len(text): return out
        i += 1
        if i >= len(text): return out


def csv(sx, head, n, alphabet):
    text = head + sx.str("t", n, alphabet)
    try: exp = csv_ref(sx, text)
    except Invalid: sx.assume(False)
    got = both(sx, Csv.root, text, "csv")
    sx.check(len(got) == len(exp), "csv: number of records")
    for g, e in zip(got, exp):
        sx.check(isinstance(g, tuple) and len(g) == len(e), "csv: number of fields")
        for a, b in zip(g, e):
            if b is None: sx.check(a is None, "csv: empty field")
            else: sx.check(a is not None and a == b, "csv: field")
    return text


def piece(sx, name, n, alphabet, plain):
    """A key, value or section name: source text and meaning."""
    if plain:
        c = sx.str(name, n, alphabet)
        return c, c
    src = ""; val = ""
    for i in range(n):
        k = sx.choice("%s%dk" % (name, i), ["plain", "escape", "hex"])
        if k == "plain": c = sx.str("%s%d" % (name, i), 1, alphabet); src = src + c; val = val + c
        elif k == "escape": c = sx.str("%s%de" % (name, i), 1, "\\'\";#=:"); src = src + "\\" + c; val = val + c
        else:
            h = sx.choice("%s%dh" % (name, i), ["x0041", "X20aC"]); src = src + "\\" + h; val = val + chr(int(h[1:], 16))
    return src, val


def ini(sx, kinds, k):
    text = ""; exp = []; section = None; keys = 0
    for i, kind in enumerate(kinds):
        if i: text = text + "\n"
        sp = sx.choice("sp%d" % i, ["", " ", "\t"] if len(kinds) == 1 else ["", " "])
        if kind == "blank": continue
        if kind == "comment": text = text + sx.choice("cc%d" % i, [";", "#"]) + sx.str("c%d" % i, 2, "a=[\\;"); continue
        if kind == "section":
            s = sx.str("s%d" % i, k, "a b=#;\\")
            text = text + "[" + s + "]"
            section = s.strip(" ")
            exp.append((section, None, None))
            continue
        a, b = piece(sx, "k%d" % i, k, "ab ", keys)
        sx.assume(b.strip(" ") != "")
        v, w = ("", None) if kind == "empty" else piece(sx, "v%d" % i, k, "ab ", keys)
        if w is not None: sx.assume(w.strip(" ") != "")
        text = text + a + sp + "=" + sp + v
        keys += 1
        exp.append((section, b.strip(" "), None if w is None else w.strip(" ")))
        tail = sx.choice("tail%d" % i, ["", "; a=b", "\t"] if len(kinds) == 1 else ["", "; a=b"])
        text = text + tail
    got = both(sx, Ini.root, text, "ini")
    secs = []
    for s, key, val in exp:
        if key is None and s is not None: secs = [x for x in secs if x[0] is None or x[0] != s] + [(s, [])]
        else:
            if not any((x[0] is None) == (s is None) and (s is None or x[0] == s) for x in secs): secs.append((s, []))
            l = [x for x in secs if (x[0] is None) == (s is None) and (s is None or x[0] == s)][0][1]
            for j, (kk, vv) in enumerate(l):
                if kk == key: l[j] = (key, val); break
            else: l.append((key, val))
    sx.check(len(got) == len(secs), "ini: number of sections")
    for s, l in secs:
        hit = [d for x, d in got.items() if (x is None) == (s is None) and (s is None or x == s)]
        sx.check(len(hit) == 1, "ini: section missing")
        sx.check(len(hit[0]) == len(l), "ini: number of keys")
        for key, val in l:
            vs = [b for a, b in hit[0].items() if a == key]
            sx.check(len(vs) == 1, "ini: key missing")
            if val is None: sx.check(vs[0] is None or vs[0] == "", "ini: absent value")
            else: sx.check(vs[0] is not None and vs[0] == val, "ini: value")
    return text


EN = "zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen".split()
EN10 = "twenty thirty forty fifty sixty seventy eighty ninety".split()
NL = "nul een twee drie vier vijf zes zeven acht negen tien elf twaalf dertien veertien vijftien zestien zeventien achttien negentien".split()
NL10 = "twintig dertig veertig vijftig zestig zeventig tachtig negentig".split()
DE = "null ein zwei drei vier fünf sechs sieben acht neun zehn elf zwölf dreizehn vierzehn fünfzehn sechzehn siebzehn achtzehn neunzehn".split()
DE10 = "zwanzig dreißig vierzig fünfzig sechzig siebzig achtzig neunzig".split()
FR = "zéro un deux trois quatre cinq six sept huit neuf dix onze douze treize quatorze quinze seize dix-sept dix-huit dix-neuf".split()
FR10 = "vingt trente quarante cinquante soixante".split()


def below100(lang, n, sep):
    if lang == "en": return EN[n] if n < 20 else EN10[n // 10 - 2] + (sep + EN[n % 10] if n % 10 else "")
    if lang == "nl":
        if n < 20: return NL[n]
        return (NL[n % 10] + ("ën" if n % 10 in (2, 3) else "en") if n % 10 else "") + NL10[n // 10 - 2]
    if lang == "de":
        if n < 20: return DE[n]
        return (DE[n % 10] + "und" if n % 10 else "") + DE10[n // 10 - 2]
    if n < 20: return FR[n]
    if n >= 80: return "quatre-vingts" if n == 80 else "quatre-vingt-" + FR[n - 80]
    if n >= 60: base, r = "soixante", n - 60
    else: base, r = FR10[n // 10 - 2], n % 10
    if not r: return base
    if r in (1, 11): return base + " et " + FR[r]
    return base + "-" + FR[r]


WORDS = {"en": ("hundred", "thousand", "million"), "nl": ("honderd", "duizend", "miljoen"), "de": ("hundert", "tausend", "million"), "fr": ("cent", "mille", "million")}
LX = {"en": numbers.English, "nl": numbers.Nederlands, "de": numbers.Deutsch, "fr": numbers.Français}


def join(sep, *parts):
    return sep.join(p for p in parts if p)


def below1000(lang, n, sep):
    h, r = divmod(n, 100)
    hundred = WORDS[lang][0]
    if not h: return below100(lang, r, sep)
    one = "" if h == 1 and lang != "en" else below100(lang, h, sep)
    if lang == "fr" and h > 1 and not r: hundred = "cents"
    return join(sep, one, hundred, below100(lang, r, sep) if r else "")


def numeral(lang, n, sep):
    m, r = divmod(n, 1000000)
    t, u = divmod(r, 1000)
    parts = []
    if m: parts += [below100(lang, m, sep), WORDS[lang][2] + ("s" if lang == "fr" and m > 1 else "")]
    if t:
        s = "" if t == 1 and lang != "en" else below1000(lang, t, sep)
        if s.endswith("quatre-vingts") or s.endswith("cents"): s = s[:-1]      # only at the end and before million
        parts += [s, WORDS[lang][1]]
    if u or not n: parts.append(below1000(lang, u, sep))
    return join(sep, *parts)


def number(sx, lang, lo, hi, step, seps):
    i = sx.fixed(sx.int("n", 0, (hi - lo) // step))
    n = lo + i * step
    sep = sx.choice("sep", seps)
    text = numeral(lang, n, sep)
    case = sx.choice("case", ["lower", "title", "upper"])
    if case != "lower" and "ß" not in text: text = getattr(text, case)()
    sx.check(both(sx, LX[lang].root, text, "numbers") == [n], "numbers: %s" % lang)
    return text


def several(sx, lang, k):
    """Numbers after each other that can not be read as one number."""
    ns = [sx.fixed(sx.int("n%d" % i, 20, 29)) for i in range(k)]
    text = " ".join(numeral(lang, n, "" if lang in ("nl", "de") else "-") for n in ns)
    sx.assume(all(n != 20 for n in ns[:-1]) or lang in ("nl", "de"))
    sx.check(both(sx, LX[lang].root, text, "numbers") == ns, "several numbers: %s" % lang)
    return text


def harnesses(tier):
    q = tier == "quick"
    J = [("", 3, "", '{}[]",:1-e.0 '), ("", 4, "", '{}[]",1 '), ('{"a":', 4, '}', '[]{}"1,:b'), ('{', 5, '}', '"a:1, '), ('"', 3, '"', '\\"u/bfnrtaé'), ('["\\u', 4, '"]', '0dDaF8'),
        ('"\\ud83', 7, '"', 'd\\ue0'), ('"\\udbff\\udf', 2, '"', 'fF0eE'), ('"\\ud800\\udc', 2, '"', 'fF0eE'), ("", 4, "", "1-.e+0E"), ("[", 4, "]", "1-.e,0 "), ('[', 4, ']', 'true'), ("", 5, "", "false"), ('{"a": [', 3, '], "b": {}}', '1,"{}: '), ("900719925474099", 3, "", "1239.e")]
    C = [("", 5 if q else 7, 'a",\n'), ('a,"b', 4, 'a",\n'), ('"a"\n', 5 if q else 6, 'b",\n'), ("a b,", 3, 'c ,\n')]
    I = [["key"], ["section"], ["section", "key"], ["empty"], ["empty", "key"], ["comment", "key"], ["key", "comment"], ["key", "key"], ["key", "section"], ["section", "section"], ["key", "blank", "key"], ["section", "key", "section", "empty"]]
    N = []
    for l in ("en", "nl", "de", "fr"):
        seps = {"en": ["", " ", "-"], "nl": ["", " "], "de": ["", " "], "fr": [" ", "-"]}[l]
        N += [dict(lang=l, lo=a, hi=a + 249, step=1, seps=seps) for a in (0, 250, 500, 750)] + [dict(lang=l, lo=1000, hi=999999, step=7919 if q else 997, seps=seps), dict(lang=l, lo=1000000, hi=99999999, step=787873 if q else 78781, seps=seps)]
    return [
        H("json", json, [dict(head=h, n=n, tail=t, alphabet=a) for h, m, t, a in J for n in range(0 if not h else 1, m + (1 if q else 2) + 1)], split=6, fuel=400000, bounds="every valid text of up to %d symbolic characters in 15 surroundings" % (8 if q else 9)),
        H("csv", csv, [dict(head=h, n=n, alphabet=a) for h, m, a in C for n in range(1, m + 1)], split=6, bounds="every CSV text of up to %d symbolic characters in 4 surroundings" % (5 if q else 7)),
        H("ini", ini, [dict(kinds=k, k=m) for k in I for m in ((1, 2) if len(k) == 1 or not q else (1,)) if len(k) < 4 or m == 1], split=6, bounds="%d sequences of lines; keys, values and names of up to 2 characters or escapes" % len(I)),
        H("numbers", number, N, split=5, bounds="4 languages: every number below 1000, every %d-th below a million, every %d-th below 100 million; lower, title and upper case; separators" % ((7919, 787873) if q else (997, 78781))),
        H("several", several, [dict(lang=l, k=k) for l in LX for k in (2,) + (() if q else (3,))], split=5, bounds="two or three numbers of 20..29"),
    ]
