"""Abstract FLP files, access paths and obligations shared by all checks.

A check never touches a real file and never runs PyFLP.  It describes a file
as abstract bytes (constant framing, unknown payload slices), lets the
analyser push that through ``parse`` / a property / ``save`` as written in the
source, and compares the resulting provenance terms with what the format
prescribes.
"""
from __future__ import annotations

import os
import time

import re
import sys

from . import con
from .ctx import explore
from .interp import Interp
from .terms import *
from .terms import _STR_METHODS, _bit_bytes  # noqa: F401
from .values import *

sys.setrecursionlimit(30000)


def rd(src, off, width, kind="u"):
    return Term("rd", (src, off, width, kind), "float" if kind == "f" else "int")


def varint(n):
    out = b""
    while n > 127:
        out += bytes([0x80 | n & 127])
        n >>= 7
    return out + bytes([n])


def frame(eid, payload):
    """One event: ID, size prefix (IDs from 192 up) and payload."""
    p = to_abytes(payload) if not isinstance(payload, bytes) else payload
    pre = bytes([eid]) + (varint(len(p)) if eid >= 192 else b"")
    return [pre] + (list(p.segs) if isinstance(p, ABytes) else [p])


def u16(n):
    return n.to_bytes(2, "little")


def u32(n):
    return n.to_bytes(4, "little")


def i32(n):
    return n.to_bytes(4, "little", signed=True)


HDR = b"FLhd\6\0\0\0"


def flp(events, fmt=0, channels=1, ppq=96, magic=HDR):
    """Abstract file of ``events`` = [(id, payload)]."""
    body = []
    for eid, p in events:
        body += frame(eid, p)
    n = sum(seg_len(s) for s in body)
    f = lambda v, k: [v.to_bytes(2, "little", signed=k)] if isinstance(v, int) else list(to_abytes(v).segs)
    return norm_bytes(ABytes([magic] + f(fmt, True) + f(channels, False) + f(ppq, False) + [b"FLdt", u32(n)] + body))


def ver_event(v):
    return (199, v.encode("ascii") + b"\0") if isinstance(v, str) else (199, v)


class BadFraming(Exception):
    pass


def unframe(data):
    """Inverse of ``flp``: (header slice, [(id, payload)])."""
    d = to_abytes(data)
    n = len(d)

    def const(a, b):
        x = norm_bytes(d.cut(a, b)) if b <= n else None
        if not isinstance(x, bytes) or len(x) != b - a:
            raise BadFraming(f"bytes {a}..{b} of the written file are not determined by the framing: {x!r}")
        return x

    if const(0, 8) != HDR or const(14, 18) != b"FLdt":
        raise BadFraming("chunk magic or header size is wrong")
    size = int.from_bytes(const(18, 22), "little")
    if size != n - 22:
        raise BadFraming(f"data chunk size {size} but {n - 22} bytes of events were written")
    out, pos = [], 22
    while pos < n:
        eid = const(pos, pos + 1)[0]
        pos += 1
        if eid < 192:
            ln = 1 if eid < 64 else 2 if eid < 128 else 4
        else:
            ln = sh = 0
            while True:
                b = const(pos, pos + 1)[0]
                pos += 1
                ln |= (b & 127) << sh
                sh += 7
                if not b & 128:
                    break
        if pos + ln > n:
            raise BadFraming(f"event {eid} runs past the end of the file")
        out.append((eid, d.cut(pos, pos + ln) if ln else b""))
        pos += ln
    return d.cut(8, 14), out


_TOK = re.compile(r"\.?([A-Za-z_]\w*)|\[(-?\d+|'[^']*')\]|(\*)\[(\d+)\]")


class Lab:
    """One analysed copy of the source tree."""

    def __init__(self, root="/repo"):
        self.it = Interp(root)
        self.m = self.it.load("pyflp")
        self.root = root

    # ----------------------------------------------------------------- running
    def begin(self, ctx, assume=()):
        self.it.ctx = ctx
        ctx.files = {}
        for t, d in assume:
            ctx.doms[t] = d
        return ctx

    def paths(self, fn, assume=(), max_paths=400, max_decisions=80):
        def run(ctx):
            self.begin(ctx, assume)
            return fn(ctx)

        yield from explore(run, max_paths, max_decisions)

    def parse(self, data, name="in.flp"):
        self.it.ctx.files[name] = data
        return self.it.call(self.m.ns["parse"], [name])

    def save(self, project, name="out.flp"):
        self.it.call(self.m.ns["save"], [project, name])
        if name not in self.it.ctx.files:
            raise Unsupported("save() did not leave a file the analysis can see")
        return self.it.ctx.files[name]

    def module(self, name):
        return self.it.load(name)

    def cls(self, dotted):
        mod, _, n = dotted.rpartition(".")
        return self.it.load(mod).ns[n]

    # ------------------------------------------------------------ access paths
    def walk(self, obj, path):
        """``channels[3].fx.cutoff``; ``*[k]`` is the k-th element iterated."""
        it = self.it
        pos = 0
        while pos < len(path):
            m = _TOK.match(path, pos)
            if not m:
                raise ValueError(path)
            if m.group(1):
                obj = it.getattr(obj, m.group(1))
            elif m.group(3):
                obj = self.nth(obj, int(m.group(4)))
            else:
                k = m.group(2)
                obj = it.getitem(obj, k[1:-1] if k[0] == "'" else int(k))
            pos = m.end()
        return obj

    def nth(self, obj, k):
        items = self.items(obj)
        if k >= len(items):
            raise Missing(f"only {len(items)} elements are yielded, element {k} is missing")
        return items[k]

    def items(self, obj):
        return list(self.it.iterate(obj))

    def split(self, path):
        """(path of the owner, attribute name)."""
        i = path.rfind(".")
        return (path[:i], path[i + 1:]) if i >= 0 else ("", path)


class Missing(Exception):
    pass


# -------------------------------------------------------- byte normal forms
def _known_equal(ctx):
    """Slices a path has proved equal, from byte-string comparisons taken."""
    out = []
    for x, c in ctx.eqc.items():
        if isinstance(c, bytes) and isinstance(x, ABytes) and len(x) == len(c):
            out += [(to_abytes(p), to_abytes(q)) for p, q in diff_bytes(x, c)]
    for t, b in ctx.atoms.items():
        if not (b and t.op == "eq"):
            continue
        x, y = (norm_bytes(v) if isinstance(v, (ABytes, bytes)) else v for v in t.args)
        if not (isinstance(x, (ABytes, bytes)) and isinstance(y, (ABytes, bytes))):
            continue
        if len(x) != len(y):
            continue
        out += [(to_abytes(p), to_abytes(q)) for p, q in diff_bytes(x, y)]
    return out


def same_bytes(a, b, ctx):
    if len(a) != len(b):
        return NE
    d = diff_bytes(a, b)
    if not d:
        return EQ
    eqs = _known_equal(ctx)
    if eqs:
        eqv = lambda x, y: x == y or _bit_bytes(x, y, None) == EQ
        d = [(x, y) for x, y in d if not any(x == p and eqv(y, q) or x == q and eqv(y, p) or y == p and eqv(x, q) or y == q and eqv(x, p) for p, q in eqs)]
        d = [(x, y) for x, y in d if not _rewrite(to_abytes(x), eqs) == _rewrite(to_abytes(y), eqs)]
    rs = [compare(x, y, ctx) for x, y in d]
    return NE if NE in rs else UNK if UNK in rs else EQ


def _rewrite(v, eqs):
    """Replace an encoded value by the slice the path proved it equal to."""
    m = {}
    for p, q in eqs:
        for x, y in ((p, q), (q, p)):
            if len(x.segs) == 1 and not isinstance(x.segs[0], bytes) and x.segs[0][0] == "enc":
                m.setdefault(repr(x.segs[0]), y.segs)
    out = []
    for s in v.segs:
        k = None if isinstance(s, bytes) else repr(s)
        if k in m and not any(repr(t) == k for t in m[k]):
            out.extend(m[k])
        else:
            out.append(s)
    return ABytes(out)


def diff_bytes(a, b):
    """Aligned slices in which two byte strings of one length are not identical."""
    a, b = to_abytes(a), to_abytes(b)
    cuts = {0}
    bad = set()
    for v in (a, b):
        p = 0
        for s in v.segs:
            n = seg_len(s)
            cuts.add(p)
            cuts.add(p + n)
            if not isinstance(s, bytes) and s[0] == "enc":
                bad |= set(range(p + 1, p + n))
            p += n
    cs = sorted(cuts - bad)
    out = []
    for x, y in zip(cs, cs[1:]):
        p, q = to_abytes(a.cut(x, y)), to_abytes(b.cut(x, y))
        if not p == q:
            out.append((norm_bytes(p), norm_bytes(q)))
    return out


def same(a, b, ctx):
    if isinstance(a, (ABytes, bytes)) and isinstance(b, (ABytes, bytes)):
        return same_bytes(a, b, ctx)
    return compare(a, b, ctx)


def exc_name(e):
    c = e.exc.cls if isinstance(e, PyRaise) else e.cls
    return c.path.split(".")[-1] if isinstance(c, Ext) else c.name


# ------------------------------------------------------------------ obligations
FIRST = float(os.environ.get("VERIF_FIRST", "90"))  # seconds after which the first violations are enough


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obligations = 0
        self.decided = 0
        self.paths = 0
        self.violations = []  # (key, text)
        self.undecided = []
        self.samples = []
        self.rules = {}
        self.extra = {}
        self.t0 = time.time()
        self.known = ()

    def enough(self):
        """A violation is established and the rest would take long."""
        if time.time() - self.t0 < FIRST or all(k in self.known for k, _ in self.violations):
            return False
        self.extra["stopped early"] = "after the first violations"
        return True

    def ob(self, rule, key, verdict, text, detail=""):
        """Record one obligation; ``verdict`` EQ (holds), NE (broken), UNK."""
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if verdict == EQ:
            self.decided += 1
            if len(self.samples) < 8 and self.rules[rule] <= 2:
                self.samples.append(f"{rule}: {key}: holds {detail}"[:300])
        elif verdict == NE:
            self.decided += 1
            self.violations.append((f"{rule}: {key}", text))
        else:
            self.undecided.append((f"{rule}: {key}", text))

    def undecide(self, rule, key, why):
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        self.undecided.append((f"{rule}: {key}", str(why)))
