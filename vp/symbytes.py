"""Bytes of concrete length whose values may be symbolic, with the codecs and the io classes parce uses.

A byte that encodes an ASCII (or Latin-1, or 16/32 bit with zero high bytes) character stays symbolic;
other bytes are decided one value at a time."""
import codecs
import io
from . import core, sym
from .sym import Sym, SymStr, char_eq, char_test, char_realize, decide, sand, snot


def mkbytes(ch):
    ch = tuple(ch)
    if all(isinstance(c, int) for c in ch): return bytes(ch)
    return SymBytes(ch)


def byte_items(b):
    return b.ch if isinstance(b, SymBytes) else tuple(b)


class SymBytes(Sym):
    __slots__ = ("ch",)
    def __init__(self, ch): self.ch = ch
    def __vp_len__(self): return len(self.ch)
    def __len__(self): return len(self.ch)
    def __bool__(self): return bool(self.ch)
    def realize(self): return bytes(char_realize(c) for c in self.ch)
    def __repr__(self): return repr(self.realize())
    def __hash__(self): return hash(self.realize())
    def eqz(self, o):
        if not isinstance(o, (SymBytes, bytes, bytearray)): return None
        oc = byte_items(o)
        if len(oc) != len(self.ch): return False
        return sand(char_eq(a, b) for a, b in zip(self.ch, oc))
    def __eq__(self, o):
        z = self.eqz(o)
        return NotImplemented if z is None else z
    def __ne__(self, o):
        z = self.eqz(o)
        return NotImplemented if z is None else snot(z)
    def __add__(self, o): return mkbytes(self.ch + byte_items(o))
    def __radd__(self, o): return mkbytes(byte_items(o) + self.ch)
    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkbytes(self.ch[slice(*[None if x is None else sym.realize(x) for x in (k.start, k.stop, k.step)])])
        return char_realize(self.ch[sym.realize(k)])
    def __iter__(self): return iter([char_realize(c) for c in self.ch])
    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple): return sym.sor([sym.tobool(self.startswith(x, start, end)) for x in p])
        c = self.ch[start:end]; p = byte_items(p)
        if len(p) > len(c): return False
        return sand(char_eq(a, b) for a, b in zip(c, p))
    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self
    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self.ch, sym.realize(encoding), errors or "strict")
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        return getattr(self.realize(), name)


def codec(name):
    return codecs.lookup(name).name


def decode(ch, enc, errors="strict"):
    n = codec(enc)
    if all(isinstance(c, int) for c in ch): return bytes(ch).decode(enc, errors)
    if n == "iso8859-1": return sym.mkstr(ch)
    if n in ("utf-8", "utf-8-sig", "ascii"): return _decode8(ch, n, errors)
    for size in (16, 32):
        if n.startswith("utf-%d" % size):
            order = n[7:] or None
            k = size // 8
            if order is None:
                order = "le"
                if len(ch) >= k:
                    for o in ("le", "be"):
                        bom = getattr(codecs, "BOM_UTF%d_%s" % (size, o.upper()))
                        if decide(sand(char_eq(a, b) for a, b in zip(ch, bom))):
                            order = o; ch = ch[k:]; break
            return _decode_wide(ch, k, order, errors)
    return bytes(char_realize(c) for c in ch).decode(enc, errors)


def _decode8(ch, n, errors):
    out = []
    i = 0
    if n == "utf-8-sig":
        n = "utf-8"
        if len(ch) >= 3 and decide(sand(char_eq(a, b) for a, b in zip(ch, codecs.BOM_UTF8))): i = 3
    while i < len(ch):
        c = ch[i]
        if decide(char_test(c, "<128", lambda x: x < 128)):
            out.append(c); i += 1; continue
        run = [char_realize(c)]
        i += 1
        need = 0 if n == "ascii" or run[0] < 0xC2 else 1 if run[0] < 0xE0 else 2 if run[0] < 0xF0 else 3
        while need and i < len(ch) and decide(char_test(ch[i], "continuation", lambda x: 0x80 <= x < 0xC0)):
            run.append(char_realize(ch[i])); i += 1; need -= 1
        out.extend(map(ord, bytes(run).decode(n, errors)))
    return sym.mkstr(tuple(out))


def _decode_wide(ch, k, order, errors):
    enc = "utf-%d-%s" % (8 * k, order)
    out = []
    i = 0
    while i < len(ch):
        u = ch[i:i+k]
        if len(u) == k:
            lo = u[0] if order == "le" else u[-1]
            hi = u[1:] if order == "le" else u[:-1]
            if decide(sand(char_eq(h, 0) for h in hi)):
                out.append(lo); i += k; continue
        run = [char_realize(c) for c in u]
        i += len(u)
        if k == 2 and len(run) == 2 and i + 1 < len(ch) and 0xD8 <= run[1 if order == "le" else 0] < 0xDC:
            nxt = [char_realize(c) for c in ch[i:i+2]]
            if 0xDC <= nxt[1 if order == "le" else 0] < 0xE0:
                run += nxt; i += 2
        out.extend(map(ord, bytes(run).decode(enc, errors)))
    return sym.mkstr(tuple(out))


def encode(s, enc, errors="strict"):
    """Encodes a SymStr."""
    n = codec(enc)
    ch = s.ch
    out = []
    bom = b""
    wide = 0
    if n in ("iso8859-1", "ascii"): limit = 256 if n[0] == "i" else 128
    elif n in ("utf-8", "utf-8-sig"):
        limit = 128
        if n != "utf-8": bom = codecs.BOM_UTF8
        n = "utf-8"
    elif n.startswith(("utf-16", "utf-32")):
        limit = 256
        wide = int(n[4:6]) // 8
        if len(n) == 6:
            bom = getattr(codecs, "BOM_UTF%s_LE" % n[4:6]); n += "-le"
    else:
        return s.realize().encode(enc, errors)
    out.extend(bom)
    for c in ch:
        if decide(char_test(c, ("<", limit), lambda x: x < limit)):
            if not wide: out.append(c)
            elif n.endswith("le"): out.extend([c] + [0] * (wide - 1))
            else: out.extend([0] * (wide - 1) + [c])
        else: out.extend(chr(char_realize(c)).encode(n, errors))
    return mkbytes(out)


SymStr.encode = lambda self, encoding="utf-8", errors="strict": encode(self, sym.realize(encoding), errors or "strict")


class VBytesIO:
    """io.BytesIO for symbolic bytes (reading everything, or appending)."""
    def __init__(self, data=b""): self.data = data; self.pos = 0
    def write(self, b):
        self.data = self.data[:self.pos] + b + self.data[self.pos+len(b):]
        self.pos += len(b)
        return len(b)
    def read(self, n=-1):
        r = self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos+n]
        self.pos += len(r)
        return r
    def getvalue(self):
        if self.data is None: raise ValueError("I/O operation on closed file.")
        return self.data
    getbuffer = getvalue
    def seek(self, p, w=0): self.pos = p if w == 0 else p + (self.pos if w == 1 else len(self.data)); return self.pos
    def flush(self): pass
    def close(self): self.data = None
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


class VTextIOWrapper:
    def __init__(self, buffer, encoding=None, errors=None, newline=None, line_buffering=False, write_through=False):
        encoding = sym.realize(encoding)
        io.TextIOWrapper(io.BytesIO(), encoding, errors, newline)       # raises what the real one raises
        self.buffer = buffer; self.encoding = encoding or "utf-8"; self.errors = errors or "strict"; self.newline = newline
        self.pending = None; self.started = False
    def read(self, n=-1):
        if n is not None and n >= 0: raise core.Inconclusive("TextIOWrapper.read(n)")
        b = self.buffer.read()
        t = b.decode(self.encoding, self.errors) if isinstance(b, SymBytes) else bytes(b).decode(self.encoding, self.errors)
        if self.newline is None: t = t.replace("\r\n", "\n").replace("\r", "\n")
        return t
    def write(self, t):
        n = len(t)
        if self.newline in ("\r", "\r\n"): t = t.replace("\n", self.newline)
        self.pending = t if self.pending is None else self.pending + t
        return n
    def flush(self):
        if self.pending is not None:
            t, self.pending = self.pending, None
            enc = self.encoding
            if self.started and codec(enc) in ("utf-16", "utf-32", "utf-8-sig"): raise core.Inconclusive("TextIOWrapper: several writes with a byte order mark")
            if len(t): self.buffer.write(encode(t, enc, self.errors) if isinstance(t, SymStr) else t.encode(enc, self.errors)); self.started = True
    def close(self):
        if self.buffer is not None: self.flush(); self.buffer.close(); self.buffer = None
    def detach(self):
        self.flush(); b, self.buffer = self.buffer, None; return b
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


def m_BytesIO(*a, **k):
    data = a[0] if a else k.get("initial_bytes", b"")
    return VBytesIO(data)


def m_TextIOWrapper(buffer, *a, **k):
    if isinstance(buffer, VBytesIO): return VTextIOWrapper(buffer, *a, **k)
    return io.TextIOWrapper(buffer, *a, **k)


def m_StringIO(*a, **k):
    return io.StringIO(*map(sym.realize, a), **k)
