"""Properties whose value is not simply the bytes of one place: converted,
combined or derived values.  Each row gives the place and pairs (stored bytes,
value) fixed by the format; the analysed project is ``studio``."""
from __future__ import annotations

import struct

from .layouts import *

f32 = lambda x: struct.pack("<f", x)
f64 = lambda x: struct.pack("<d", x)
NOTE = ("C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B")


class Val:
    """A value built from the library's own types."""

    def __init__(self, make, text):
        self.make, self.text = make, text

    def __repr__(self):
        return self.text


def enum(cls, v):
    return Val(lambda lab: enum_values(lab, cls)[v], f"{cls}({v})")


def member(cls, name):
    return Val(lambda lab: next(m for m in lab.items(lab.cls(cls)) if m.name == name), f"{cls}.{name}")


def fold_date(t):
    """Constant date arithmetic left as a term."""
    import datetime

    if not isinstance(t, Term):
        return t
    if t.op.startswith("call:datetime."):
        args, kw = [], {}
        for a in t.args:
            if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str):
                kw[a[0]] = fold_date(a[1])
            else:
                args.append(fold_date(a))
        f = datetime
        for n in t.op[5:].split(".")[1:]:
            f = getattr(f, n)
        return f(*args, **kw)
    if t.op in ("add", "sub", "mul", "div"):
        import operator

        x, y = (fold_date(a) for a in t.args)
        return {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv}[t.op](x, y)
    raise Unsupported("date " + t.op)


def value(lab, v):
    return v.make(lab) if isinstance(v, Val) else v


class S:
    def __init__(self, path, key, off, w, pairs, ro=False, version="20.8.4", without=(), extra=(), group=None, default=None, also=()):
        self.also = also
        self.path, self.key, self.off, self.w, self.pairs = path, key, off, w, pairs
        self.ro, self.version, self.without, self.extra, self.default = ro, version, tuple(without), tuple(extra), default
        self.group = group or ()

    @property
    def name(self):
        return self.path + (f" ({self.version})" if self.version != "20.8.4" else "") + (f" (without {','.join(self.without)})" if self.without else "")

    @property
    def owner(self):
        return self.path.rpartition(".")[0]

    @property
    def attr(self):
        return self.path.rpartition(".")[2]


def studio(b):
    b.start()
    b.chan("C0", "sampler", 0)
    b.chan("C1", "sampler", 1, sparse=True)
    b.chan("C2", "instrument", 2, sparse=True)
    b.notes("T1", 1)
    b.notes("T2", 2)
    b.info("T1", 1, markers=2)
    b.info("T2", 2)
    b.arrangements()
    b.arr("A0", 0, [(499, 0), (498, 20481)], tracks=2, names=(1,), markers=2)
    b.add("A.Current", 100, u16(0))
    b.add("M.APDC", 29)
    b.ins("I0")
    b.ins("I1", ["Fruity Balance", None])
    b.params([(0, 0, 0), (192, 0, 0), (192, 1, 0), (0, 1, 0), (1, 1, 0), (0, 1, 1), (64, 1, 0)])


def put(b, key, off, data):
    """Replace bytes of the source ``key`` in whichever event holds it."""
    hit = False
    for n, (k, i, p) in enumerate(b.ev):
        if k == event_of(key):
            if isinstance(p, ABytes) and any(not isinstance(s, bytes) and s[0] == "enc" for s in p.segs):
                b.ev[n] = (k, i, data)
                hit = True
                continue
            q, h = subst(p, key, off, len(data), data)
            if h:
                b.ev[n] = (k, i, q)
                hit = True
            elif isinstance(p, bytes) and len(p) >= off + len(data):
                b.ev[n] = (k, i, p[:off] + data + p[off + len(data):])
                hit = True
            elif isinstance(p, ABytes):
                b.ev[n] = (k, i, norm_bytes(ABytes([*to_abytes(p.cut(0, off)).segs, data, *to_abytes(p.cut(off + len(data), len(p))).segs])))
                hit = True
    if not hit:
        raise Unsupported(f"{key} is not in the project")


def setup(lab, ctx, row, data=None, places=()):
    b = Layout(lab, ctx, row.version, tuple(int(x) for x in row.version.split(".")) >= (11, 5))
    studio(b)
    b.ev = [e for e in b.ev if e[0] not in row.without]
    at = next((n for n, e in enumerate(b.ev) if e[0] == "P.Tempo"), 3)
    for k, i, p in row.extra:
        b.ev.insert(at, (k, i, source(k, fixed_size(i)) if p is None else p))
    assume_legal(b, ctx)
    assume_places(places, b, ctx)
    if data is not None:
        for k in (row.key, *row.also):
            if row.w:
                put(b, k, row.off, data)
            else:
                b.ev = [(e, i, data if e == k else q) for e, i, q in b.ev]
    return b


def fixed_size(eid):
    return 1 if eid < 64 else 2 if eid < 128 else 4


def close(v, want, lab, ctx):
    """Equality up to the last bits of floating-point results."""
    want = value(lab, want)
    if type(want).__module__ == "datetime":
        try:
            got = fold_date(v)
        except (OverflowError, TypeError, ValueError):
            return NE  # no such date
        if type(got) is not type(want):
            return NE
        return EQ if abs((got - want).total_seconds()) < 1e-3 else NE
    if isinstance(want, float) and isinstance(v, (int, float)) and not isinstance(v, bool):
        return EQ if abs(v - want) <= 1e-9 * max(1.0, abs(want)) else NE
    if isinstance(want, (tuple, NT)):
        a, b = seq(v), seq(want)
        if a is None or len(a) != len(b):
            return NE
        rs = [close(x, y, lab, ctx) for x, y in zip(a, b)]
        return NE if NE in rs else UNK if UNK in rs else EQ
    if want is None or v is None:
        return EQ if v is want else NE
    if isinstance(want, (str, int, float)) and isinstance(v, (str, int, float)):
        return EQ if v == want and isinstance(v, bool) == isinstance(want, bool) else NE
    return same_value(v, want, ctx, lab)


def _multiplier():
    return [(i32(v), 2.0 ** (v / 10000)) for v in (0, 10000, -10000, 5000, -20000, 1, -1, 10001, 19999, -13, 33219)]


def _level():
    ps = [(b"\0\0\0\0", 0.0)]
    for v in (61440, 57344, 53248, 61439, 40000, 30001, 4096, 1, 20480):
        ps.append((u16(v) + u16(63), 2.0 ** (v / 4096) / 2.0 ** 15))
    return ps


def _licensee(u):
    """idx-dependent shift: +26 - idx, or -49 - idx where that leaves ASCII."""
    def enc(s):
        out = ""
        for i, ch in enumerate(s):
            c = ord(ch) + 26 - i
            out += chr(c if 0 < c <= 127 else ord(ch) - 49 - i)
        return out

    names = ["", "a", "zhoupengfei4869", "AZaz09", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "000000000000000000000000000000", "eeffggEEFFGG", "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"]
    return [((enc(n) + "\0").encode("utf-16-le" if u else "ascii"), n) for n in names]


def _dt(days):
    from datetime import datetime, timedelta

    return datetime(1899, 12, 30) + timedelta(days=days)


def _names():
    return [((n + "\0").encode("utf-16-le"), n) for n in ("Fruity Balance", "", "x", "3x Osc", "Fruity Wrapper")]


def tempo_rows():
    out = []
    T = "P.Tempo"
    out.append(S("tempo", T, 0, 4, [(u32(v), v / 1000) for v in (10000, 120000, 140500, 522000, 130001, 99999, 128333, 10001, 63997, 521999)]))
    for ver in ("9.0.0", "3.4.0"):
        fine = ("P._TempoFine", 93, None), ("P._TempoCoarse", 66, None)
        out.append(S("tempo", "P._TempoCoarse", 0, 2, [(u16(v), v + 0.25) for v in (10, 120, 522, 998)], version=ver, without=("P.Tempo",),
                     extra=(("P._TempoFine", 93, u16(250)), ("P._TempoCoarse", 66, None)), group=("P._TempoFine",)))
        out.append(S("tempo", "P._TempoFine", 0, 2, [(u16(v), 130 + v / 1000) for v in (0, 1, 250, 500, 999, 57)], version=ver, without=("P.Tempo",),
                     extra=(("P._TempoFine", 93, None), ("P._TempoCoarse", 66, u16(130)))))
    out.append(S("tempo", "P._TempoCoarse", 0, 2, [(u16(v), v) for v in (10, 120, 522, 999)], version="3.3.0", without=("P.Tempo",), extra=(("P._TempoCoarse", 66, None),)))
    return out


ROWS = [
    S("channels*[0].stretching.multiplier", "C0.Parameters", 104, 4, _multiplier()),
    S("channels*[0].fx.start", "C0.Parameters", 133, 4, _level()),
    S("channels*[0].fx.length", "C0.Parameters", 141, 4, _level()),
    S("channels*[0].fx.reverb.mix", "C0.Reverb", 0, 4, [(u32(v), v) for v in (0, 1, 100, 255, 256)]),
    S("channels*[0].fx.reverb.mix", "C0.Reverb", 0, 4, [(u32(65536 + v), v) for v in (0, 1, 100, 255, 256)]),
    S("channels*[0].fx.reverb.type", "C0.Reverb", 0, 4, [(u32(77 + v), enum("pyflp.channel.ReverbType", v)) for v in (0, 65536)]),
    S("channels*[0].fx.reverb.type", "C0.Reverb", 0, 4, [(u32(v), enum("pyflp.channel.ReverbType", v)) for v in (0, 65536)]),
    S("patterns*[0].notes*[0].key", "T1.Notes#0", 12, 2, [(u16(k), NOTE[k % 12] + str(k // 12)) for k in range(132)]),
    S("patterns*[0].timemarkers*[1].position", "T1.m1.Position", 0, 4, [(u32(v + t), v) for v in (0, 1, 96, 134217727) for t in (0, 134217728)], ro=True),
    S("arrangements*[0].timemarkers*[1].position", "A0.m1.Position", 0, 4, [(u32(v + t), v) for v in (0, 1, 96, 134217727) for t in (0, 134217728)], ro=True),
    S("arrangements*[0].timemarkers*[0].type", "A0.m0.Position", 0, 4, [(u32(v + t), enum("pyflp.timemarker.TimeMarkerType", t)) for v in (0, 1, 96, 134217727) for t in (0, 134217728)], ro=True),
    S("patterns*[0].timemarkers*[0].type", "T1.m0.Position", 0, 4, [(u32(v + t), enum("pyflp.timemarker.TimeMarkerType", t)) for v in (0, 1, 96, 134217727) for t in (0, 134217728)], ro=True),
    S("arrangements*[0].tracks*[1].height", "A0.t1.Data", 13, 4, [(f32(k / 100), f"{k}%") for k in (0, 1, 7, 28, 29, 55, 57, 58, 100, 113, 150, 200, 333, 999)]),
    S("licensee", "P.Licensee", 0, 0, _licensee(True)),
    S("licensee", "P.Licensee", 0, 0, _licensee(False), version="9.0.0"),
    S("mixer*[1].dock", "I1.Flags", 4, 4, [(u32(v), member("pyflp.mixer.InsertDock", ("Left", "Middle", "Right")[d])) for v, d in ((0, 0), (64, 1), (128, 2), (0xFFFFFF3F, 0), (0xFFFFFF7F, 1), (0xFFFFFFBF, 2), (12 | 64, 1), (12 | 128, 2))], ro=True),
    S("created_on", "P.Timestamp", 0, 8, [(f64(d), Val(lambda lab, d=d: _dt(d), f"{d} days after 1899-12-30")) for d in (0.0, 1.0, 44000.5, 44123.25, 36526.0)], ro=True),
    S("time_spent", "P.Timestamp", 8, 8, [(f64(d), Val(lambda lab, d=d: __import__("datetime").timedelta(days=d), f"{d} days")) for d in (0.0, 1.0, 0.5, 12.25)], ro=True),
    *tempo_rows(),
    S("channels*[1].iid", "C1.New", 0, 2, [(u16(v), v) for v in (1, 5, 255, 256, 65535)]),
    S("channels*[0].internal_name", "C0.InternalName", 0, 0, _names()),
    S("patterns*[0].iid", "T1.New", 0, 2, [(u16(v), v) for v in (1, 3, 255, 256, 999, 65535)], also=("T1.New2",)),
    S("patterns*[1].iid", "T2.New", 0, 2, [(u16(v), v) for v in (2, 3, 300)], also=("T2.New2",)),
    S("arrangements*[0].iid", "A0.New", 0, 2, [(u16(v), v) for v in (0, 1, 255, 256, 65535)]),
    S("mixer*[1]*[0].iid", "I1.s0.Index", 0, 2, [(u16(v), v) for v in (0, 1, 9, 256)]),
    S("mixer*[1]*[1].index", "I1.s1.Index", 0, 2, [(u16(v), v) for v in (1, 0, 9, 256)]),
    S("mixer*[1]*[0].internal_name", "I1.s0.InternalName", 0, 0, _names()),
]


def get_case(lab, row, data, want, places):
    def fn(ctx):
        b = setup(lab, ctx, row, data, places)
        try:
            v = public(lambda: lab.walk(lab.parse(b.file()), row.path), "reading " + row.path)
        except Lost as e:
            return NE, str(e)
        r = close(v, want, lab, ctx)
        return r, f"{row.path} reads {show(v)[:100]} where {data.hex()} is stored, which means {want!r}"

    return fn


def set_case(lab, row, old, data, want, places, back=True):
    """From stored ``old``, assigning ``want`` stores ``data`` and nothing else."""
    def fn(ctx):
        b = setup(lab, ctx, row, old, places)
        e = setup(lab, ctx, row, data, places)
        try:
            p = public(lambda: lab.parse(b.file()), "parsing")
            o = public(lambda: lab.walk(p, row.owner) if row.owner else p, "reaching " + row.owner)
            public(lambda: lab.it.setattr(o, row.attr, value(lab, want)), f"setting {row.path} = {want!r}")
            f = public(lambda: lab.save(p), "saving")
            v = public(lambda: lab.walk(p, row.path), "reading back " + row.path)
        except Lost as x:
            return NE, str(x)
        w = e.file()
        r = same(f, w, ctx)
        if r != EQ:
            return r, f"{row.path} = {want!r} where {old.hex()} was stored: the saved file is not the expected one: " + (
                f"{len(f)} bytes instead of {len(w)}" if len(f) != len(w) else str([(show(x), show(y)) for x, y in diff_bytes(f, w)])[:300])
        r = close(v, want, lab, ctx)
        return r, f"{row.path} set to {want!r} reads back {show(v)[:100]}"

    return fn


def self_case(lab, row, data, places):
    """Assigning the value read leaves the file as it is."""
    def fn(ctx):
        b = setup(lab, ctx, row, data, places)
        d = b.file()
        try:
            p = public(lambda: lab.parse(d), "parsing")
            o = public(lambda: lab.walk(p, row.owner) if row.owner else p, "reaching " + row.owner)
            v = public(lambda: lab.it.getattr(o, row.attr), "reading " + row.path)
            public(lambda: lab.it.setattr(o, row.attr, v), f"setting {row.path} = {show(v)[:60]}")
            f = public(lambda: lab.save(p), "saving")
        except Lost as x:
            return NE, str(x)
        r = same(f, d, ctx)
        return r, f"{row.path} stored as {data.hex()} reads {show(v)[:60]}; assigning that changes the file: " + (
            f"{len(f)} bytes instead of {len(d)}" if len(f) != len(d) else str([(show(x), show(y)) for x, y in diff_bytes(f, d)])[:300])

    return fn


def get_cases(lab, places, rows=None):
    return [("converted value", f"{r.name} {d.hex()[:24]}", get_case(lab, r, d, v, places)) for r in rows or ROWS for d, v in r.pairs]


def set_cases(lab, places, rows=None):
    out = []
    for r in rows or ROWS:
        if r.ro:
            continue
        n = len(r.pairs)
        for i, (d, v) in enumerate(r.pairs):
            old = r.pairs[(i + 1) % n][0]
            out.append(("converted value set", f"{r.name} = {v!r}", set_case(lab, r, old, d, v, places)))
    return out


def self_cases(lab, places, rows=None):
    return [("own value", f"{r.name} {d.hex()[:24]}", self_case(lab, r, d, places)) for r in rows or ROWS if not r.ro for d, v in r.pairs]


def key_cases(lab, places):
    """Note keys assigned as numbers."""
    def mk(path, key, n):
        row = S(path, key, 12, 2, [])

        def fn(ctx):
            old = u16((n * 5 + 61) % 132)
            b, e = setup(lab, ctx, row, old, places), setup(lab, ctx, row, u16(n), places)
            try:
                p = public(lambda: lab.parse(b.file()), "parsing")
                o = public(lambda: lab.walk(p, row.owner), "reaching " + row.owner)
                public(lambda: lab.it.setattr(o, "key", n), f"key = {n}")
                v = public(lambda: lab.walk(p, path), "reading back " + path)
                f = public(lambda: lab.save(p), "saving")
            except Lost as x:
                return NE, str(x)
            if v != NOTE[n % 12] + str(n // 12):
                return (NE if isinstance(v, str) else UNK), f"{path} = {n} reads {show(v)[:60]}"
            r = same(f, e.file(), ctx)
            return r, f"{path} = {n} is not stored as {n}, or something else changed"

        return fn

    out = [("note key", f"= {n}", mk("patterns*[0].notes*[0].key", "T1.Notes#0", n)) for n in range(132)]
    return out + [("note key", f"second note = {n}", mk("patterns*[1].notes*[1].key", "T2.Notes#1", n)) for n in (0, 11, 12, 131)]


def shown_cases(lab, versions=(("20.8.4", True), ("11.1.1", False))):
    """The displayed name is the name if there is one that is not empty, else the internal name."""
    def mk(kind, ver, uni, name, inner, old):
        def fn(ctx):
            b = Layout(lab, ctx, ver, uni)
            b.start(("G0",))
            b.chan("C0", "sampler", 0, sparse=True)
            b.chan("C1", kind, 1, sparse=True)
            at = next(i for i, e in enumerate(b.ev) if e[0] == "C1.GroupNum")
            tail, b.ev = b.ev[at:], b.ev[:at]
            for key, eid, s in (("C1.InternalName", 201, inner), ("C1.Name", 203, name), ("C1._Name", 192, old)):
                if s is not None:
                    b.add(key, eid, b.text.const(s))
            b.ev += tail
            b.chan("C2", kind, 2, sparse=True)
            first = name if name is not None else old
            want = first or inner
            p = lab.parse(b.file())
            try:
                v = public(lambda: lab.walk(p, "channels*[1].display_name"), "display_name")
                n = public(lambda: lab.walk(p, "channels*[1].name"), "name")
                u = public(lambda: lab.walk(p, "channels*[2].display_name"), "display_name")
            except Lost as x:
                return NE, str(x)
            known = lambda x: x is None or isinstance(x, str)
            for what, got, exp in (("display_name", v, want), ("name", n, first), ("display_name of a channel without any name", u, None)):
                if got != exp:
                    return (NE if known(got) else UNK), f"{what} is {show(got)}, not {exp!r}, with the name {name!r}, the old name {old!r} and the internal name {inner!r}"
            return EQ, ""

        return fn

    vals = (None, "", "Kick")
    return [("displayed name", f"{kind} ({ver}): name {n!r}, old name {o!r}, internal name {i!r}", mk(kind, ver, uni, n, i, o))
            for ver, uni in versions for kind in ("sampler", "instrument", "layer", "automation") for n in vals for o in (None, "Old", "") for i in (None, "", "Sytrus")
            if kind in ("sampler", "instrument") or o is None]
