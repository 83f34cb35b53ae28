"""Transfer functions for the ``construct`` declarations PyFLP is written with.

A declaration tree is read off the source by the interpreter; ``parse`` maps
abstract bytes to abstract containers of provenance terms (which slice, which
codec), ``build`` maps them back to abstract bytes.  Encoding a term that is
exactly the decoded slice gives that slice back, which is what makes layouts
comparable byte by byte and independent of field names.
"""
from __future__ import annotations

import struct as _st

from .terms import *
from .values import *


def cerr(it, name, *args):
    raise PyRaise(ExcVal(Ext("construct." + name), args), it.where())


class Stream:
    fast = False  # building inside a compiled structure

    def __init__(self, data=b"", pos=0):
        self.data = data
        self.pos = pos
        self.closed = False

    @property
    def data(self):
        if self._parts:
            segs = list(to_abytes(self._data).segs)
            for p in self._parts:
                segs.extend(to_abytes(p).segs)
            self._data = norm_bytes(ABytes(segs))
            self._parts = []
        return self._data

    @data.setter
    def data(self, v):
        self._data, self._parts = norm_bytes(v), []
        self._len = len(self._data)

    def read(self, n=None):
        L = len(self.data)
        end = L if n is None or n < 0 else min(L, self.pos + n)
        r = to_abytes(self.data).cut(self.pos, end) if end > self.pos else b""
        self.pos = max(self.pos, end)
        return r

    def write(self, b):
        n = len(b)
        if self.pos == self._len and not isinstance(b, VByteArray):
            # appending: pieces are joined when the content is asked for
            self._parts.append(b)
            self._len += n
            self.pos += n
            return n
        d = to_abytes(self.data)
        b = to_abytes(b)
        pad = (b"\0" * (self.pos - len(d)),) if self.pos > len(d) else ()
        self.data = norm_bytes(ABytes(d.cut_(0, self.pos) + pad + b.segs + d.cut_(self.pos + n, max(self.pos + n, len(d)))))
        self.pos += n
        return n

    def __repr__(self):
        return f"<stream @{self.pos}/{len(self.data)}>"


class ThisExpr:
    """``construct.this`` paths and the operators applied to them."""

    def __init__(self, fn, text):
        self.fn, self.text = fn, text

    def __repr__(self):
        return self.text


THIS = ThisExpr(lambda it, ctx: ctx, "this")


def this_attr(e, name):
    return ThisExpr(lambda it, ctx: it.getattr(e.fn(it, ctx), name), f"{e.text}.{name}")


def this_item(e, k):
    return ThisExpr(lambda it, ctx: it.getitem(e.fn(it, ctx), k), f"{e.text}[{k!r}]")


def this_bin(op, a, b):
    f = lambda x, it, ctx: x.fn(it, ctx) if isinstance(x, ThisExpr) else x
    return ThisExpr(lambda it, ctx: it.binop(op, f(a, it, ctx), f(b, it, ctx)), f"({a!r} {op} {b!r})")


def this_cmp(op, a, b):
    f = lambda x, it, ctx: x.fn(it, ctx) if isinstance(x, ThisExpr) else x
    return ThisExpr(lambda it, ctx: it.compare(op, f(a, it, ctx), f(b, it, ctx)), f"({a!r} {op} {b!r})")


def evaluate(it, p, ctx):
    if isinstance(p, ThisExpr):
        return p.fn(it, ctx)
    if isinstance(p, (FuncVal, Bound)):
        return it.call(p, [ctx])
    return p


def const_len(it, p, ctx):
    n = it.ctx.resolve(evaluate(it, p, ctx))
    n = it.intish(n)
    if not isinstance(n, int):
        raise Unsupported("length that depends on unknown data")
    return n


# ------------------------------------------------------------------- leaf codecs
def rd_value(it, ab, kind, width):
    ab = norm_bytes(ab)
    if isinstance(ab, bytes):
        if kind in ("u", "s"):
            return int.from_bytes(ab, "little", signed=kind == "s")
        if kind in ("ub", "sb"):
            return int.from_bytes(ab, "big", signed=kind == "sb")
        return _st.unpack({2: "<e", 4: "<f", 8: "<d"}[width], ab)[0]
    ty = "float" if kind == "f" else "int"
    if len(ab.segs) == 1:
        s = ab.segs[0]
        if s[0] == "raw":
            if width == 1 and kind in ("ub", "sb"):
                kind = kind[0]
            return Term("rd", (s[1], s[2], width, kind), ty)
        if s[0] == "enc" and s[1] == width and s[2] == kind:
            return s[3]
    return Term("rdmix", (ab, kind, width), ty)


def enc_int_range(n, kind):
    if kind[0] == "u":
        return 0, (1 << 8 * n) - 1
    return -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1


def enc(it, n, kind, v, err="FormatFieldError"):
    """Bytes (segments) of value v in n bytes; raises like struct.pack."""
    v = it.ctx.resolve(v)
    if isinstance(v, EnumMember) or isinstance(v, Term) and v.op in ("enum", "flag"):
        w = it.intish(v)
        if w is None:
            cerr(it, err, "not a number")
        v = w
    if isinstance(v, ConEnumStr):
        v = v.value
    if isinstance(v, Instance):
        cerr(it, err, "not a number")
    if v is None or isinstance(v, (str, bytes, tuple, VList, VDict, ABytes, NT)):
        cerr(it, err, f"cannot encode {show(v)}")
    if kind == "f":
        if isinstance(v, (int, float)):
            try:
                return _st.pack("<f" if n == 4 else "<d", v)
            except OverflowError:
                cerr(it, err, "float too large")
        if isinstance(v, Term):
            if v.op == "rd" and v.args[2] == n and v.args[3] == kind:
                return ABytes((("raw", v.args[0], v.args[1], n),))
            if v.ty == "str":
                cerr(it, err, "not a number")
            return ABytes((("enc", n, kind, v),))
        raise Unsupported(f"encoding of {v!r}")
    if isinstance(v, float):
        cerr(it, err, "not an integer")
    lo, hi = enc_int_range(n, kind)
    if isinstance(v, int):
        if not lo <= v <= hi:
            cerr(it, err, "out of range")
        return int(v).to_bytes(n, "big" if kind.endswith("b") and len(kind) > 1 else "little", signed=kind[0] == "s")
    if isinstance(v, Term):
        if v.op == "rd" and v.args[2] == n and v.args[3] == kind:
            return ABytes((("raw", v.args[0], v.args[1], n),))
        if v.ty in ("str", "float", "bytes"):
            cerr(it, err, "not an integer")
        x = identity_leaf(v, it.ctx)
        if x is not None:
            v = x
            if v.args[2] == n and v.args[3] == kind:
                return ABytes((("raw", v.args[0], v.args[1], n),))
        b = nbounds(v, it.ctx)
        if b is None or b[0] < lo or b[1] > hi:
            d = it.ctx.dom(v)
            if not (d is not None and not d.empty() and d.lo() >= lo and d.hi() <= hi):
                if v.ty in (None, "any"):
                    it.ctx.notes.append(f"assumed encodable: {show(v)}")
                elif not (it.truth(mk_cmp("le", lo, v)) and it.truth(mk_cmp("le", v, hi))):
                    cerr(it, err, "out of range")
        if n == 1 and kind == "u" and v.op == "rd" and v.args[2] == 1:
            return ABytes((("raw", v.args[0], v.args[1], 1),))
        return ABytes((("enc", n, kind, v),))
    raise Unsupported(f"encoding of {v!r}")


class ConEnumStr:
    """construct.EnumIntegerString: a str with an integer value."""

    def __init__(self, s, value):
        self.s, self.value = s, value

    def __repr__(self):
        return f"EnumIntegerString({self.s!r})"


def mkctx(parent, params, stream, index, extra=()):
    c = VDict([("_", parent), ("_params", params), ("_io", stream), ("_index", index)], attr=True)
    for k, v in extra:
        c.pairs.append([k, v])
    return c


def cget(ctx, k, default=None):
    for p in ctx.pairs:
        if p[0] == k:
            return p[1]
    return default


def cset(ctx, k, v):
    for p in ctx.pairs:
        if p[0] == k:
            p[1] = v
            return
    ctx.pairs.append([k, v])


class StopField(Exception):
    pass


# -------------------------------------------------------------------- constructs
class Con:
    flagbuildnone = False
    name = None
    emits = False  # participates in compiled parsing

    def parse(self, it, st, ctx, fast=False):
        raise Unsupported(f"parse of {type(self).__name__}")

    def build(self, it, obj, st, ctx):
        raise Unsupported(f"build of {type(self).__name__}")

    def sizeof(self, it, ctx):
        raise Unsupported("sizeof")

    def __repr__(self):
        return f"<{type(self).__name__} {self.name or ''}>"

    # entry points
    def do_parse(self, it, data, kw):
        b = it.bytesish(data)
        if b is None:
            if isinstance(data, Term):
                raise Unsupported("parse of bytes of unknown length")
            it.raise_("TypeError", "a bytes-like object is required")
        return self.do_parse_stream(it, Stream(b), kw)

    def do_parse_stream(self, it, st, kw):
        return self.parse(it, st, self.topctx(kw, st))

    def topctx(self, kw, st):
        c = VDict([(k, v) for k, v in kw.items()], attr=True)
        c.pairs.append(["_params", VDict([(k, v) for k, v in kw.items()], attr=True)])
        c.pairs.append(["_io", st])
        return c

    def do_build(self, it, obj, kw):
        st = Stream()
        self.build(it, obj, st, self.topctx(kw, st))
        return st.data


def _read(it, st, n, fast=False, partial=False):
    if n < 0:
        cerr(it, "StreamError", "negative length")
    r = st.read(n)
    if len(r) != n and not partial:
        if fast:
            raise PyRaise(ExcVal(Ext("struct.error"), ("short read",)), it.where())
        cerr(it, "StreamError", "stream read less than specified amount")
    return r


class Fmt(Con):
    emits = True

    def __init__(self, n, kind):
        self.n, self.kind = n, kind

    def parse(self, it, st, ctx, fast=False):
        return rd_value(it, _read(it, st, self.n, fast), self.kind, self.n)

    def build(self, it, obj, st, ctx):
        st.write(enc(it, self.n, self.kind, obj))
        return obj

    def sizeof(self, it, ctx):
        return self.n


class Flag_(Con):
    emits = True

    def parse(self, it, st, ctx, fast=False):
        v = rd_value(it, _read(it, st, 1, partial=fast), "u", 1)
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Term) and v.ty == "bool":
            return v
        return mk_not(mk_cmp("eq", v, 0))

    def build(self, it, obj, st, ctx):
        if isinstance(obj, Term) and obj.ty in ("bool", "int", "byte", "flag"):
            t = obj if obj.ty == "bool" else mk_not(mk_cmp("eq", obj, 0))
            st.write(enc(it, 1, "u", Term("int", (t,), "int")) if isinstance(t, Term) else bytes([t]))
        else:
            st.write(b"\1" if it.truth(obj) else b"\0")
        return obj

    def sizeof(self, it, ctx):
        return 1


class Bytes_(Con):
    emits = True

    def __init__(self, n):
        self.n = n

    def parse(self, it, st, ctx, fast=False):
        return norm_bytes(_read(it, st, const_len(it, self.n, ctx), partial=fast))

    def build(self, it, obj, st, ctx):
        n = const_len(it, self.n, ctx)
        if isinstance(obj, int):
            obj = int(obj).to_bytes(n, "big")
        b = it.bytesish(obj)
        if b is None:
            if isinstance(obj, Term) and obj.ty == "bytes":
                st.write(ABytes((("enc", n, "bytes", obj),)))
                return obj
            cerr(it, "StreamError", "not bytes")
        if len(b) != n and not st.fast:  # compiled structures write what they are given
            cerr(it, "StreamError", "wrong length")
        st.write(b)
        return obj

    def sizeof(self, it, ctx):
        return const_len(it, self.n, ctx)


class GreedyBytes_(Con):
    def parse(self, it, st, ctx, fast=False):
        return norm_bytes(st.read())

    def build(self, it, obj, st, ctx):
        b = it.bytesish(obj)
        if b is None:
            if isinstance(obj, Term) and obj.ty == "bytes":
                raise Unsupported("bytes of unknown length")
            cerr(it, "StreamError", "not bytes")
        st.write(b)
        return obj

    def sizeof(self, it, ctx):
        cerr(it, "SizeofError")


UNIT = {"utf-16-le": 2, "utf_16_le": 2, "utf16": 2, "utf-16": 2, "utf-32-le": 4}


def decode_text(it, b, encoding, errors="strict"):
    """Decoding abstract bytes: a term that remembers the slice."""
    b = norm_bytes(b)
    if isinstance(b, bytes):
        try:
            return b.decode(encoding, errors)
        except UnicodeDecodeError:
            it.raise_("UnicodeDecodeError", encoding)
        except LookupError:
            it.raise_("LookupError", encoding)
    if len(b.segs) == 1 and b.segs[0][0] == "enc" and b.segs[0][2] == f"text:{canon_enc(encoding)}":
        return b.segs[0][3]
    # trailing constant NUL terminator after an encoded text
    if len(b.segs) == 2 and not isinstance(b.segs[0], bytes) and b.segs[0][0] == "enc" and \
            b.segs[0][2] == f"text:{canon_enc(encoding)}" and isinstance(b.segs[1], bytes):
        return mk_concat([b.segs[0][3], b.segs[1].decode(encoding)])
    if len(b) % UNIT.get(encoding.lower(), 1):
        it.raise_("UnicodeDecodeError", encoding)
    return Term("decode", (b, canon_enc(encoding)), "str")


_ENC = {"ascii": "ascii", "us-ascii": "ascii", "utf8": "utf-8", "utf-8": "utf-8", "utf_8": "utf-8",
        "utf-16-le": "utf-16-le", "utf_16_le": "utf-16-le", "utf-16le": "utf-16-le", "utf-16": "utf-16",
        "utf16": "utf-16", "utf_16": "utf-16", "latin-1": "latin-1", "latin1": "latin-1", "iso-8859-1": "latin-1"}


def canon_enc(e):
    if not isinstance(e, str):
        raise Unsupported("unknown encoding")
    return _ENC.get(e.lower(), e.lower())


def encode_text(it, s, encoding):
    """Encoded abstract text; length is known only for constants and whole slices."""
    e = canon_enc(encoding)
    s = it.ctx.resolve(s)
    if isinstance(s, str):
        try:
            return s.encode(encoding)
        except UnicodeEncodeError:
            it.raise_("UnicodeEncodeError", encoding)
    if isinstance(s, Term) and s.ty == "str":
        parts = s.args if s.op == "concat" else (s,)
        segs = []
        for p in parts:
            if isinstance(p, str):
                segs.append(p.encode(encoding))
            elif p.op == "decode" and p.args[1] == e:
                segs.extend(to_abytes(p.args[0]).segs)
            else:
                # nominal length: the text has no known length, 1000 stands for it
                segs.append(("enc", text_len(it, p, e), f"text:{e}", p))
        return norm_bytes(ABytes(segs))
    raise Unsupported(f"encoding of {show(s)}")


def text_len(it, t, e):
    n = it.ctx.__dict__.setdefault("text_lens", {}).get(t, 6)
    return n * (2 if e.startswith("utf-16") else 1)


class Text(Con):
    def __init__(self, encoding, length=None):
        self.encoding, self.length = encoding, length

    def parse(self, it, st, ctx, fast=False):
        if self.length is None:
            return decode_text(it, st.read(), self.encoding)
        n = const_len(it, self.length, ctx)
        b = norm_bytes(_read(it, st, n))
        if isinstance(b, bytes):
            u = UNIT.get(self.encoding, 1)
            tail = len(b) % u
            if u == 1:
                b = b.rstrip(b"\0")
            else:
                end = len(b) - (tail if tail and b[-tail:] == b"\0" * tail else 0)
                while end - u >= 0 and b[end - u:end] == b"\0" * u:
                    end -= u
                b = b[:end]
            return decode_text(it, b, self.encoding)
        if not b:
            return ""
        t = decode_text(it, b, self.encoding)
        return t if t.op == "m:nulstrip" else Term("m:rstrip", (t, "\0"), "str")

    def build(self, it, obj, st, ctx):
        if not (isinstance(obj, str) or isinstance(obj, Term) and obj.ty == "str"):
            if isinstance(obj, Term) and obj.ty in (None, "any"):
                raise Unsupported("text of unknown type")
            cerr(it, "StringError", "expected unicode string")
        if self.length is not None and isinstance(obj, Term) and obj.op == "m:rstrip" and obj.args[1] == "\0" \
                and isinstance(obj.args[0], Term) and obj.args[0].op == "decode" and canon_enc(self.encoding) == obj.args[0].args[1]:
            b = obj.args[0].args[0]
            n = const_len(it, self.length, ctx)
            if len(b) == n:
                st.write(b)  # stripping and re-padding with NULs is the identity
                return obj
        b = encode_text(it, obj, self.encoding)
        if self.length is not None:
            n = const_len(it, self.length, ctx)
            if len(b) > n:
                cerr(it, "PaddingError")
            b = norm_bytes(ABytes(to_abytes(b).segs + (b"\0" * (n - len(b)),)))
        st.write(b)
        return obj

    def sizeof(self, it, ctx):
        if self.length is None:
            cerr(it, "SizeofError")
        return const_len(it, self.length, ctx)


class VarInt_(Con):
    def parse(self, it, st, ctx, fast=False):
        n, shift = 0, 0
        while True:
            b = norm_bytes(_read(it, st, 1))
            if isinstance(b, ABytes):
                s = b.segs[0]
                if s[0] == "enc" and s[2] == "varint":
                    return s[3]
                x = it.byte_at(b, 0)
                # one-byte varints only; longer unknown prefixes are not followed
                if it.truth(mk_cmp("lt", x, 128)) and not shift:
                    return x
                raise Unsupported("multi-byte varint of unknown bytes")
            n |= (b[0] & 0x7F) << shift
            shift += 7
            if not b[0] & 0x80:
                return n

    def build(self, it, obj, st, ctx):
        v = it.intish(it.ctx.resolve(obj))
        if isinstance(v, float) or v is None:
            cerr(it, "IntegerError")
        if isinstance(v, Term):
            if it.truth(mk_cmp("lt", v, 0)):
                cerr(it, "IntegerError")
            if it.truth(mk_cmp("lt", v, 128)):
                st.write(enc(it, 1, "u", v))
                return obj
            raise Unsupported("varint of an unknown number")
        if v < 0:
            cerr(it, "IntegerError")
        out = bytearray()
        x = int(v)
        while x > 127:
            out.append(0x80 | x & 0x7F)
            x >>= 7
        out.append(x)
        st.write(bytes(out))
        return obj

    def sizeof(self, it, ctx):
        cerr(it, "SizeofError")


class Pass_(Con):
    flagbuildnone = True
    emits = True

    def parse(self, it, st, ctx, fast=False):
        return None

    def build(self, it, obj, st, ctx):
        return obj

    def sizeof(self, it, ctx):
        return 0


class Computed_(Con):
    flagbuildnone = True
    emits = True

    def __init__(self, f):
        self.f = f

    def parse(self, it, st, ctx, fast=False):
        return evaluate(it, self.f, ctx)

    def build(self, it, obj, st, ctx):
        return evaluate(it, self.f, ctx)

    def sizeof(self, it, ctx):
        return 0


class Renamed(Con):
    emits = True

    def __init__(self, sc, name):
        self.subcon, self.name = sc, name
        self.flagbuildnone = sc.flagbuildnone

    def parse(self, it, st, ctx, fast=False):
        return self.subcon.parse(it, st, ctx, fast)

    def build(self, it, obj, st, ctx):
        return self.subcon.build(it, obj, st, ctx)

    def sizeof(self, it, ctx):
        return self.subcon.sizeof(it, ctx)


class Struct_(Con):
    emits = True

    def __init__(self, subcons):
        self.subcons = subcons
        self.flagbuildnone = all(s.flagbuildnone for s in subcons)
        self.compiled = False

    def parse(self, it, st, ctx, fast=False):
        fast = fast or self.compiled
        obj = VDict([], attr=True)
        c = mkctx(ctx, cget(ctx, "_params"), st, cget(ctx, "_index"))
        for sc in self.subcons:
            it.step()
            try:
                v = sc.parse(it, st, c, fast and _emits(sc))
            except StopField:
                break
            if sc.name:
                cset(obj, sc.name, v)
                cset(c, sc.name, v)
        return obj

    def build(self, it, obj, st, ctx):
        c = mkctx(ctx, cget(ctx, "_params"), st, cget(ctx, "_index"))
        if obj is None:
            obj = VDict([], attr=True)
        if isinstance(obj, Instance):
            keys = list(it.iterate(it.call(it.getattr(obj, "keys"), [])))
            obj = VDict([(k, it.getitem(obj, k)) for k in keys], attr=True)
        if not isinstance(obj, VDict):
            if isinstance(obj, Term):
                raise Unsupported(f"structure {show(obj)}")
            it.raise_("TypeError", "not a container")
        for k, v in obj.pairs:
            cset(c, k, v)
        outer = st.fast
        fast = outer or self.compiled
        try:
            for sc in self.subcons:
                it.step()
                st.fast = fast and _emits(sc)
                try:
                    v = it.dict_get(obj, sc.name, None if sc.flagbuildnone else MISSING)
                    if sc.name:
                        cset(c, sc.name, v)
                    r = sc.build(it, v, st, c)
                    if sc.name:
                        cset(c, sc.name, r)
                except StopField:
                    break
        finally:
            st.fast = outer
        return c

    def sizeof(self, it, ctx):
        c = mkctx(ctx, cget(ctx, "_params"), None, cget(ctx, "_index"))
        return sum(s.sizeof(it, c) for s in self.subcons)


def _emits(sc):
    while isinstance(sc, Renamed):
        sc = sc.subcon
    return sc.emits


class Array_(Con):
    emits = True

    def __init__(self, n, sc):
        self.n, self.subcon = n, sc

    def parse(self, it, st, ctx, fast=False):
        out = VList([], tag="ListContainer")
        for i in range(const_len(it, self.n, ctx)):
            cset(ctx, "_index", i)
            out.items.append(self.subcon.parse(it, st, ctx, fast and _emits(self.subcon)))
        return out

    def build(self, it, obj, st, ctx):
        n = const_len(it, self.n, ctx)
        items = it.seq_items(obj)
        if items is None and isinstance(obj, Instance):
            items = list(it.iterate(obj))
        if items is None:
            if isinstance(obj, Term):
                if obj.ty in NUM_TY:
                    it.raise_("TypeError", "no len")
                raise Unsupported(f"array {show(obj)}")
            it.raise_("TypeError", "no len")
        if len(items) != n:
            cerr(it, "RangeError")
        for i, x in enumerate(items):
            cset(ctx, "_index", i)
            self.subcon.build(it, x, st, ctx)
        return obj

    def sizeof(self, it, ctx):
        return const_len(it, self.n, ctx) * self.subcon.sizeof(it, ctx)


class GreedyRange_(Con):
    def __init__(self, sc):
        self.subcon = sc

    def parse(self, it, st, ctx, fast=False):
        out = VList([], tag="ListContainer")
        i = 0
        while True:
            cset(ctx, "_index", i)
            fallback = st.pos
            try:
                out.items.append(self.subcon.parse(it, st, ctx))
            except StopField:
                break
            except PyRaise:
                st.pos = fallback
                break
            if st.pos == fallback:
                raise Unsupported("GreedyRange element consumes nothing")
            i += 1
            if i > 1200:
                raise Unsupported("GreedyRange bound")
        return out

    def build(self, it, obj, st, ctx):
        items = it.seq_items(obj)
        if items is None:
            if isinstance(obj, (Instance, VIter)):
                items = list(it.iterate(obj))
            elif isinstance(obj, Term):
                raise Unsupported(f"sequence {show(obj)}")
            else:
                it.raise_("TypeError", "not iterable")
        try:
            for i, x in enumerate(items):
                cset(ctx, "_index", i)
                self.subcon.build(it, x, st, ctx)
        except StopField:
            pass
        return obj

    def sizeof(self, it, ctx):
        cerr(it, "SizeofError")


class PrefixedArray_(Con):
    def __init__(self, count, sc):
        self.count, self.subcon = count, sc

    def parse(self, it, st, ctx, fast=False):
        n = it.intish(it.ctx.resolve(self.count.parse(it, st, ctx)))
        if isinstance(n, Term):
            raise Unsupported("array with unknown element count")
        c = mkctx(ctx, cget(ctx, "_params"), st, cget(ctx, "_index"), [("count", n)])
        return Array_(n, self.subcon).parse(it, st, c)

    def build(self, it, obj, st, ctx):
        items = it.seq_items(obj)
        if items is None:
            raise Unsupported("array build")
        self.count.build(it, len(items), st, ctx)
        c = mkctx(ctx, cget(ctx, "_params"), st, cget(ctx, "_index"), [("count", len(items)), ("items", obj)])
        return Array_(len(items), self.subcon).build(it, obj, st, c)

    def sizeof(self, it, ctx):
        cerr(it, "SizeofError")


class Prefixed_(Con):
    def __init__(self, length, sc):
        self.length, self.subcon = length, sc

    def parse(self, it, st, ctx, fast=False):
        n = it.intish(it.ctx.resolve(self.length.parse(it, st, ctx)))
        if not isinstance(n, int):
            raise Unsupported("prefixed data of unknown length")
        return self.subcon.parse(it, Stream(_read(it, st, n)), ctx)

    def build(self, it, obj, st, ctx):
        s2 = Stream()
        r = self.subcon.build(it, obj, s2, ctx)
        self.length.build(it, len(s2.data), st, ctx)
        st.write(s2.data)
        return r

    def sizeof(self, it, ctx):
        return self.length.sizeof(it, ctx) + self.subcon.sizeof(it, ctx)


class Select_(Con):
    def __init__(self, subcons):
        self.subcons = subcons
        self.flagbuildnone = any(s.flagbuildnone for s in subcons)

    def parse(self, it, st, ctx, fast=False):
        for sc in self.subcons:
            fb = st.pos
            try:
                return sc.parse(it, st, ctx)
            except PyRaise as e:
                if Ext("construct.ConstructError") not in it.exc_classes(e.exc.cls):
                    raise
                st.pos = fb
        cerr(it, "SelectError")

    def build(self, it, obj, st, ctx):
        for sc in self.subcons:
            s2 = Stream()
            try:
                c2 = VDict([(k, v) for k, v in ctx.pairs], attr=True)
                sc.build(it, obj, s2, c2)
            except PyRaise as e:
                if len(self.subcons) > 1 and obj is not None:
                    it.ctx.effects.append(("swallowed", repr(e.exc), show(obj)))
                continue
            st.write(s2.data)
            return obj
        cerr(it, "SelectError")

    def sizeof(self, it, ctx):
        cerr(it, "SizeofError")


class IfElse(Con):
    emits = True

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b
        self.flagbuildnone = a.flagbuildnone and b.flagbuildnone

    def _pick(self, it, ctx):
        return self.a if it.truth(evaluate(it, self.cond, ctx)) else self.b

    def parse(self, it, st, ctx, fast=False):
        s = self._pick(it, ctx)
        return s.parse(it, st, ctx, fast and _emits(s))

    def build(self, it, obj, st, ctx):
        return self._pick(it, ctx).build(it, obj, st, ctx)

    def sizeof(self, it, ctx):
        return self._pick(it, ctx).sizeof(it, ctx)


class Switch_(Con):
    def __init__(self, key, cases, default):
        self.key, self.cases, self.default = key, cases, default
        self.flagbuildnone = False

    def _pick(self, it, ctx):
        k = evaluate(it, self.key, ctx)
        p = it.dict_find(self.cases, k)
        return as_con(it, p[1]) if p is not None else self.default

    def parse(self, it, st, ctx, fast=False):
        return self._pick(it, ctx).parse(it, st, ctx)

    def build(self, it, obj, st, ctx):
        return self._pick(it, ctx).build(it, obj, st, ctx)

    def sizeof(self, it, ctx):
        return self._pick(it, ctx).sizeof(it, ctx)


class StopIf_(Con):
    flagbuildnone = True

    def __init__(self, cond):
        self.cond = cond

    def parse(self, it, st, ctx, fast=False):
        if it.truth(evaluate(it, self.cond, ctx)):
            raise StopField()

    def build(self, it, obj, st, ctx):
        if it.truth(evaluate(it, self.cond, ctx)):
            raise StopField()

    def sizeof(self, it, ctx):
        cerr(it, "SizeofError")


class ExprAdapter_(Con):
    def __init__(self, sc, dec, enc_):
        self.subcon, self.dec, self.enc_ = sc, dec, enc_
        self.flagbuildnone = sc.flagbuildnone

    def parse(self, it, st, ctx, fast=False):
        return it.call(self.dec, [self.subcon.parse(it, st, ctx), ctx])

    def build(self, it, obj, st, ctx):
        self.subcon.build(it, it.call(self.enc_, [obj, ctx]), st, ctx)
        return obj

    def sizeof(self, it, ctx):
        return self.subcon.sizeof(it, ctx)


class Enum_(Con):
    emits = True

    def __init__(self, sc, mapping):
        self.subcon, self.mapping = sc, mapping

    def parse(self, it, st, ctx, fast=False):
        v = self.subcon.parse(it, st, ctx, fast and _emits(self.subcon))
        if isinstance(v, int):
            for k, n in self.mapping.items():
                if n == v:
                    return ConEnumStr(k, n)
            return v
        return Term("conenum", (v, tuple(sorted(self.mapping.items(), key=lambda p: p[1]))), "int")

    def build(self, it, obj, st, ctx):
        obj = it.ctx.resolve(obj)
        if isinstance(obj, ConEnumStr):
            v = obj.value
        elif isinstance(obj, Term) and obj.op == "conenum":
            v = obj.args[0]
        elif isinstance(obj, str):
            if obj not in self.mapping:
                cerr(it, "MappingError", obj)
            v = self.mapping[obj]
        else:
            v = obj
        self.subcon.build(it, v, st, ctx)
        return obj

    def sizeof(self, it, ctx):
        return self.subcon.sizeof(it, ctx)


class InstCon(Con):
    """Instance of a class of the repository deriving from an Adapter."""

    def __init__(self, it, o):
        self.o = o
        self.subcon = as_con(it, o.attrs["subcon"]) if "subcon" in o.attrs else None
        self.flagbuildnone = bool(self.subcon and self.subcon.flagbuildnone)

    def parse(self, it, st, ctx, fast=False):
        f = it.find_attr(self.o.cls, "_parse")
        if f is not None:
            return it.call(Bound(f, self.o), [st, ctx, "path"])
        f = it.find_attr(self.o.cls, "_decode")
        if f is None:
            it.raise_("NotImplementedError")
        return it.call(Bound(f, self.o), [self.subcon.parse(it, st, ctx), ctx, "path"])

    def build(self, it, obj, st, ctx):
        f = it.find_attr(self.o.cls, "_build")
        if f is not None:
            return it.call(Bound(f, self.o), [obj, st, ctx, "path"])
        f = it.find_attr(self.o.cls, "_encode")
        if f is None:
            it.raise_("NotImplementedError")
        self.subcon.build(it, it.call(Bound(f, self.o), [obj, ctx, "path"]), st, ctx)
        return obj

    def sizeof(self, it, ctx):
        return self.subcon.sizeof(it, ctx)


ADAPTER_BASES = {"construct_typed.Adapter", "construct.Adapter", "construct.Subconstruct", "construct.Construct",
                 "construct.ExprAdapter", "construct.SymmetricAdapter", "construct_typed.Subconstruct"}


def is_adapter_class(it, c):
    return any(b.path in ADAPTER_BASES for b in it.ext_bases(c))


def as_con(it, v):
    if isinstance(v, Con):
        return v
    if isinstance(v, Instance) and is_adapter_class(it, v.cls):
        return InstCon(it, v)
    if isinstance(v, Bad):
        raise Unsupported(v.reason)
    raise Unsupported(f"not a construct: {v!r}")


def maybe_con(it, v):
    return isinstance(v, Con) or isinstance(v, Instance) and is_adapter_class(it, v.cls)


_INTS = {}
for _n in (1, 2, 3, 4, 8):
    for _s in "us":
        for _e in "lbn":
            _INTS[f"Int{8*_n}{_s}{_e}"] = (_n, _s + ("b" if _e == "b" and _n > 1 else ""))
_INTS.update({"Byte": (1, "u"), "Short": (2, "ub"), "Int": (4, "ub"), "Long": (8, "ub")})
_FLOATS = {"Float32l": (4, "f"), "Float64l": (8, "f"), "Float32n": (4, "f"), "Float64n": (8, "f")}


def singleton(name):
    """Value of ``construct.<name>`` if it is a ready-made construct."""
    if name in _INTS:
        return Fmt(*_INTS[name])
    if name in _FLOATS:
        return Fmt(*_FLOATS[name])
    if name == "Flag":
        return Flag_()
    if name == "GreedyBytes":
        return GreedyBytes_()
    if name == "VarInt":
        return VarInt_()
    if name == "Pass":
        return Pass_()
    if name == "this":
        return THIS
    return None


def call(it, name, a, kw):
    """Call of ``construct.<name>``; MISSING if it is not modelled."""
    C = lambda v: as_con(it, v)
    if name == "Struct":
        return Struct_([C(x) for x in a] + [Renamed(C(v), k) for k, v in kw.items()])
    if name == "Bytes":
        return Bytes_(a[0] if a else kw["length"])
    if name == "Optional":
        return Select_([C(a[0]), Pass_()])
    if name == "Select":
        return Select_([C(x) for x in a])
    if name == "If":
        return IfElse(a[0], C(a[1]), Pass_())
    if name == "IfThenElse":
        return IfElse(a[0], C(a[1]), C(a[2]))
    if name == "StopIf":
        return StopIf_(a[0])
    if name == "Switch":
        d = a[2] if len(a) > 2 else kw.get("default")
        return Switch_(a[0], a[1] if len(a) > 1 else kw["cases"], C(d) if d is not None else Pass_())
    if name == "GreedyRange":
        return GreedyRange_(C(a[0]))
    if name == "Array":
        return Array_(a[0], C(a[1]))
    if name == "Prefixed":
        return Prefixed_(C(a[0]), C(a[1]))
    if name == "PrefixedArray":
        return PrefixedArray_(C(a[0]), C(a[1]))
    if name == "GreedyString":
        return Text(a[0])
    if name == "PaddedString":
        return Text(a[1], a[0])
    if name == "Computed":
        return Computed_(a[0])
    if name == "ExprAdapter":
        return ExprAdapter_(C(a[0]), a[1] if len(a) > 1 else kw["decoder"], a[2] if len(a) > 2 else kw["encoder"])
    if name == "Enum":
        m = dict(kw)
        for e in a[1:]:
            for x in it.iterate(e):
                m[x.name] = x.value
        return Enum_(C(a[0]), m)
    if name == "Padding":
        return ExprAdapter_(Bytes_(a[0]), it.native("dec", lambda i, x, k: None),
                            it.native("enc", lambda i, x, k: b"\0" * a[0]))
    if name in ("Container",):
        d = VDict([], attr=True)
        if a:
            src = a[0]
            if isinstance(src, VDict):
                for k, v in src.pairs:
                    cset(d, k, v)
            else:
                for p in it.iterate(src):
                    k, v = list(it.iterate(p))
                    it.dict_set(d, k, v)
        for k, v in kw.items():
            it.dict_set(d, k, v)
        return d
    if name == "ListContainer":
        return VList(list(it.iterate(a[0])) if a else [], tag="ListContainer")
    if name == "VarInt":
        return MISSING
    return MISSING


def con_attr(it, o, name):
    if name == "parse":
        return it.native("parse", lambda i, a, k: o.do_parse(i, a[0], k))
    if name == "build":
        return it.native("build", lambda i, a, k: o.do_build(i, a[0], k))
    if name == "parse_stream":
        def ps(i, a, k):
            if not isinstance(a[0], Stream):
                raise Unsupported("parse_stream of an unknown stream")
            return o.do_parse_stream(i, a[0], k)
        return it.native("parse_stream", ps)
    if name == "build_stream":
        def bs(i, a, k):
            a[1].write(o.do_build(i, a[0], k))
        return it.native("build_stream", bs)
    if name == "sizeof":
        return it.native("sizeof", lambda i, a, k: o.sizeof(i, o.topctx(k, None)))
    if name == "compile":
        def comp(i, a, k):
            if isinstance(o, Struct_):
                s = Struct_(o.subcons)
                s.compiled = True
                return s
            return o
        return it.native("compile", comp)
    if name == "_parse" or name == "_parsereport":
        return it.native(name, lambda i, a, k: o.parse(i, a[0], a[1]))
    if name == "_build":
        return it.native(name, lambda i, a, k: o.build(i, a[1 - 1], a[1], a[2]))
    if name == "_sizeof":
        return it.native(name, lambda i, a, k: o.sizeof(i, a[0]))
    if name in ("subcon", "subcons", "name", "encoding", "flagbuildnone"):
        if hasattr(o, name):
            v = getattr(o, name)
            if isinstance(v, InstCon):
                return v.o
            return VList(v) if isinstance(v, list) else v
    if name == "docs":
        return ""
    if isinstance(o, Enum_) and name in o.mapping:
        return ConEnumStr(name, o.mapping[name])
    if isinstance(o, Struct_):
        for s in o.subcons:
            if s.name == name:
                return s
    it.raise_("AttributeError", name)
