"""C25: loading and saving preserve text and encoding."""
from vp.ctx import H
import codecs
import os
import shutil
import tempfile
import parce
from parce import Language, lexicon
from parce.docio import IO, decode_data, encode_text, localfile
from parce.util import get_bom_encoding, language_sister_class
from parce.work import Worker
from parce.treebuilder import TreeBuilder
from parce.lang.xml import Xml
from parce.lang.css import Css
from parce.lang.html import Html
import parce.action as act

ASSUMPTIONS = [
    "texts do not begin with characters whose encoded form is a byte order mark or makes one (a NUL after a UTF-16 mark)",
    "newlines: read and written untranslated (newline='') where the text has carriage returns",
    "a text that declares an encoding is saved in that encoding (no other one is requested), or the declared one is the requested one",
    "an encoding is declared within the first 5000 bytes",
    "codecs of the Python library are modelled for ASCII, Latin-1, UTF-8, UTF-16 and UTF-32 and trusted for others",
]


class Lat(Language):
    """Has its own default encoding."""
    @lexicon
    def root(cls):
        yield "x", act.Text


class LatIO(IO):
    def default_encoding(self): return "latin1"


class SubLat(Lat):
    pass


class Odd(Language):
    @lexicon
    def root(cls):
        yield "x", act.Text


class OddIO(IO):
    """Unusable default, its own way to declare the encoding."""
    def default_encoding(self): return "no-such-encoding"
    def find_encoding(self, text):
        i = text.find("%")
        if i >= 0: return text[i+1:i+6]


BOMS = [(codecs.BOM_UTF32_LE, "utf-32-le"), (codecs.BOM_UTF32_BE, "utf-32-be"), (codecs.BOM_UTF8, "utf-8"),
        (codecs.BOM_UTF16_LE, "utf-16-le"), (codecs.BOM_UTF16_BE, "utf-16-be")]


def has_bom(data):
    for b, e in BOMS:
        if data.startswith(b): return b, e
    return None


def bom(sx, n):
    data = sx.str("b", n, "\x00\xef\xbb\xbf\xfe\xffa").encode("latin1")
    enc, rest = get_bom_encoding(data)
    x = has_bom(data)
    if x is None:
        sx.check(enc is None and rest == data, "no byte order mark")
    else:
        sx.check(enc is not None, "a byte order mark is not recognized")
        sx.check(codecs.lookup(enc).name == x[1], "encoding of a byte order mark")
        sx.check(rest == data[len(x[0]):], "the data after the mark")
    return enc


CHARS = "a\u00e9\u20ac\U0001f600"
ENCODINGS = ["utf-8", "latin1", "ascii", "utf-16", "utf-32", "utf-8-sig", "utf_16_le", "utf_16_be", "utf_32_le"]


def roundtrip(sx, n, enc, alphabet):
    """Text to bytes and back in the same encoding."""
    t = sx.str("t", n, alphabet)
    nl = sx.choice("newline", ["", "\n", None, "\r\n", "\r"])
    if nl is not None and nl != "": sx.assume("\r" not in t)
    if nl is None: sx.assume("\r" not in t)
    try: data = encode_text(t, None, enc, nl)
    except UnicodeEncodeError:
        sx.check(enc in ("latin1", "ascii"), "a text that can be encoded")
        sx.check(any(ord(c) >= (256 if enc == "latin1" else 128) for c in t), "a text that can be encoded is refused")
        return None
    if enc == "latin1": sx.assume(has_bom(data) is None)
    back = decode_data(data, None, enc, None, "" if nl == "" or nl == "\n" else None)
    sx.check(back.text == t, "text after saving and loading")
    sx.check(back.root_lexicon is None, "no language")
    sx.check(back.encoding == enc, "the specified encoding is kept")
    return back.text


def reload(sx, n, alphabet, lx=None):
    """Whatever was loaded can be saved and loaded again."""
    data = sx.str("b", n, alphabet).encode("latin1")
    try: r = decode_data(data, lx, None, None, "")
    except UnicodeDecodeError: sx.assume(False)
    again = encode_text(r.text, lx, r.encoding, "")
    sx.assume(not r.text.startswith("\ufeff") and not r.text.startswith("\0"))
    r2 = decode_data(again, lx, None, None, "")
    sx.check(r2.text == r.text, "text after loading, saving and loading")
    return r.text


DECL = ['encoding="%s"', 'encoding: %s', 'coding: %s', 'coding:%s', 'coding="%s"', 'encoding =\t"%s"', '# -*- coding: %s -*-']
NAMES = ["latin1", "utf-8", "utf-16", "nope", "hex", "undefined", "iso-8859-1", "cp1252"]


def usable(name):
    """Python can encode text with it."""
    if not name: return False
    try: "".encode(name)
    except (LookupError, UnicodeError): return False
    return True


def declared(sx, d, before, after):
    """A declared encoding is recognized, and the text survives saving and loading."""
    name = sx.choice("name", NAMES)
    a = sx.str("a", before, "b \n-")
    z = sx.str("z", after, " \"\u00e9-\n")
    text = a + DECL[d] % name + ("" if sx.bool("nosep") else "\n") + z
    found = IO().find_encoding(text)
    wordy = a[-1:] == "b"
    if wordy and not DECL[d].startswith("#"): pass
    elif text[len(a + DECL[d] % name):][:1] not in ("-", "\u00e9"): sx.check(found == name, "a declared encoding is not found")
    try: data = encode_text(text, None, None, "")
    except UnicodeEncodeError: sx.assume(False)
    if usable(found): sx.check(data == text.encode(found), "not saved in the declared encoding")
    elif found is None or found in NAMES: sx.check(data == text.encode("utf-8"), "not saved in the default encoding")
    r = decode_data(data, None, None, None, "")
    sx.check(r.text == text, "text after saving and loading")
    if usable(found): sx.check(r.encoding is not None, "the declared encoding is not remembered")
    return r.text


def context(sx, before, after):
    """The same with other characters around the declaration."""
    a = sx.str("a", before, "\u00e9\u05d0n# ")
    z = sx.str("z", after, "\u00e9\u05d0\u00d7 ")
    text = a + "coding: latin1" + z + " \u00e9"
    try: data = encode_text(text, None, None, "")
    except UnicodeEncodeError: sx.assume(False)
    sx.assume(has_bom(data) is None)
    r = decode_data(data, None, None, None, "")
    sx.check(r.text == text, "text after saving and loading")
    return r.text


def precedence(sx):
    """A byte order mark, then the declaration, then the given encoding, then the language's default, then UTF-8."""
    lang = sx.choice("lang", [None, Lat.root, SubLat.root, Odd.root])
    dec = sx.choice("declared", [None, "latin1", "utf-8", "cp850", "nopes"])
    spec = sx.choice("specified", [None, "cp1252", "utf-8"])
    mark = sx.choice("bom", [None, 0, 2, 3, 4])
    body = sx.str("t", 2, "a\u00c3\u00a9")
    text = body + ("" if dec is None else (" %" if lang is Odd.root else " coding: ") + dec + "\n")
    # the bytes are those of `real`
    if mark is not None: real = BOMS[mark][1]; data = BOMS[mark][0] + text.encode(real)
    else: data = text.encode("latin1")
    dflt = "latin1" if lang in (Lat.root, SubLat.root) else "utf-8"
    dec_ok = dec if dec != "nopes" else None
    if mark is not None: exp = text
    else:
        try: exp = data.decode(dec_ok or spec or dflt)
        except UnicodeDecodeError:
            try: decode_data(data, lang, spec, None, ""); sx.check(False, "undecodable data accepted")
            except UnicodeDecodeError: return None
    r = decode_data(data, lang, spec, None, "")
    sx.check(r.text == exp, "the encoding that is used to read")
    sx.check(r.root_lexicon is lang, "the language")
    if spec is not None: sx.check(r.encoding == spec, "the specified encoding is returned")
    # without an encoding: the declaration or the default of the language
    try: out = encode_text(text, lang, None, "")
    except UnicodeEncodeError: sx.assume(False)
    sx.check(out == text.encode(dec_ok or dflt), "the encoding that is used to write")
    return r.text


def limit(sx, lx, decl):
    """Saving and loading agree on declarations around the end of the part that is searched."""
    k = sx.fixed(sx.int("at", 4975, 5001))
    z = sx.str("z", 1, "\u00e9a")
    text = (" " * k) + decl + "\n" + z
    try: data = encode_text(text, lx, None, "")
    except UnicodeEncodeError: sx.assume(False)
    r = decode_data(data, lx, None, None, "")
    sx.check(r.text == text, "text after saving and loading")
    return k


def by_language(sx, lx, before, mid, after):
    """The declarations of XML, HTML and CSS."""
    enc = sx.choice("name", ["latin1", "utf-8", "utf-16", "hex", "nope"])
    q = sx.str("q", 1, "\"' a")
    text = before + mid[0] + q + enc + q + mid[1] + sx.str("z", 2, "a\u00e9 ") + after
    h = IO.get(lx)
    found = h.find_encoding(text)
    if q == '"': sx.check(found == enc, "a declared encoding is not found")
    try: data = encode_text(text, lx, None, "")
    except UnicodeEncodeError: sx.assume(False)
    if q == '"' and usable(enc): sx.check(data == text.encode(enc), "not saved in the declared encoding")
    r = decode_data(data, lx, None, None, "")
    sx.check(r.text == text, "text after saving and loading")
    return r.text


def files(sx):
    """Documents on disk."""
    enc = sx.choice("enc", [None, "latin1", "utf-16"])
    t = sx.str("t", 2, "a\u00e9\n")
    lx = sx.choice("lang", [None, "css", "x.css", "x.txt"])
    mk = lambda: Worker(TreeBuilder())
    d = parce.Document(None, t, worker=mk())
    dirname = tempfile.mkdtemp(prefix="vp25")
    try:
        name = os.path.join(dirname, lx if lx and "." in lx else "f")
        url = "file://" + name if sx.bool("scheme") else name
        d.modified = True
        d.save(url, enc)
        sx.check(not d.modified, "modified after saving")
        sx.check(d.url == url, "url of the document")
        sx.check(d.encoding == enc, "encoding of the document")
        with open(name, "rb") as f: data = f.read()
        sx.check(data == t.encode(enc or "utf-8"), "contents of the file")
        e = parce.Document.load(url, True if lx is None or "." in lx else lx, enc, worker=mk())
        sx.check(e.text() == t, "text after saving and loading")
        sx.check(e.url == url and e.encoding == (enc or None if enc != "utf-16" else "utf-16"), "attributes of the document")
        sx.check(e.root_lexicon() is (Css.root if lx in ("css", "x.css") else None), "language of the document")
        sx.check(not e.modified, "modified after loading")
        # saving again needs no arguments
        e.append("b"); e.save()
        f = parce.Document.load(url, None, enc, worker=mk())
        sx.check(f.text() == t + "b", "text after changing, saving and loading")
        for bad in ("http://x/y", "file://host/x", "ftp:x"):
            try: localfile(bad); sx.check(False, "only local files")
            except ValueError: pass
    finally:
        shutil.rmtree(dirname)
    return d.url == url


def harnesses(tier):
    q = tier == "quick"
    N = 3 if q else 4
    B = "\x00\xef\xbb\xbf\xfe\xffa"
    return [
        H("bom", bom, [dict(n=n) for n in range(0, 7 if q else 9)], bounds="every sequence of <=%d bytes over %d values" % (6 if q else 8, 7), split=5),
        H("roundtrip", roundtrip, [dict(n=n, enc=e, alphabet=CHARS + "\n\r" if n < 3 else CHARS + "\n") for n in range(N + 1) for e in ENCODINGS],
          bounds="texts <=%d over 6 characters of 1-4 bytes, %d encodings, every newline mode" % (N, len(ENCODINGS)), split=5, eager_ok=lambda c: c["n"] <= 1),
        H("reload", reload, [dict(n=n, alphabet=B) for n in range(0, 5 if q else 7)] + [dict(n=n, alphabet=[0xff, 0xfe, 0, 0x41, 0xd8]) for n in ((6,) if q else (6, 8))] + [dict(n=3, alphabet=B, lx=Lat.root)],
          bounds="byte sequences <=%d" % (6 if q else 8), split=5, eager_ok=lambda c: c["n"] <= 3 and "lx" not in c),
        H("declared", declared, [dict(d=d, before=b, after=2 if q else 3) for d in range(len(DECL)) for b in (0, 1)], bounds="%d forms, %d encoding names, characters around it" % (len(DECL), len(NAMES)), split=5, eager_cases=[dict(d=d, before=0, after=1) for d in range(len(DECL))]),
        H("context", context, [dict(before=b, after=a) for b in range(0, 3) for a in range(0, 2)], bounds="other characters around a declaration", split=5, eager_ok=lambda c: c["before"] + c["after"] <= 1),
        H("precedence", precedence, [{}], bounds="every combination of mark, declaration, given encoding and language", split=5),
        H("limit", limit, [dict(lx=None, decl="coding: latin1"), dict(lx=None, decl="coding: utf-8")], bounds="declarations at 4975..5001", split=4),
        H("by_language", by_language, [
            dict(lx=Xml.root, before="", mid=('<?xml version="1.0" encoding=', "?><a>"), after="</a>"),
            dict(lx=Css.root, before="", mid=("@charset ", ";"), after=""),
            dict(lx=Html.root, before="<html><head>", mid=("<meta charset=", "/>"), after=""),
            ], bounds="declarations of 3 languages", split=5),
        H("files", files, [{}], bounds="texts of 2 characters, 3 encodings, 4 ways to name the language", split=4),
    ]
