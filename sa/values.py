"""Abstract values of the analyser.

Concrete Python scalars (None, bool, int, float, str, bytes) stand for
themselves (constant propagation).  Everything the source does not fix is a
``Term``: an uninterpreted or interpreted expression over symbolic leaves
(value numbering).  Nothing here imports or runs the analysed code.
"""
from __future__ import annotations

from bisect import bisect_right

import itertools
import math


class Unsupported(Exception):
    """The analysis cannot follow a construct: the obligation is undecided."""


class Infeasible(Exception):
    """The current path contradicts an earlier fact."""


class PathLimit(Unsupported):
    pass


_SCALARS = (type(None), bool, int, float, str, bytes)


def is_const(v):
    return isinstance(v, _SCALARS)


class Term:
    __slots__ = ("op", "args", "ty", "_h")

    def __init__(self, op, args=(), ty=None):
        self.op, self.args, self.ty = op, tuple(args), ty
        self._h = hash((op,) + tuple(_hk(a) for a in self.args))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return (
            isinstance(o, Term)
            and self._h == o._h
            and self.op == o.op
            and len(self.args) == len(o.args)
            and all(_same(a, b) for a, b in zip(self.args, o.args))
        )

    def __repr__(self):
        return show(self)


def _hk(a):
    if isinstance(a, tuple):
        return tuple(_hk(x) for x in a)
    try:
        return (type(a).__name__ if not isinstance(a, (bool, int, float)) else "n", hash(a))
    except TypeError:
        return id(a)


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def sym(name, ty=None):
    return Term("sym", (name,), ty)


_BIN = {
    "add": "+", "sub": "-", "mul": "*", "div": "/", "floordiv": "//", "mod": "%", "pow": "**",
    "bitand": "&", "bitor": "|", "bitxor": "^", "shl": "<<", "shr": ">>",
    "eq": "==", "lt": "<", "le": "<=", "is": "is", "in": "in",
}


def show(v, depth=0):
    if depth > 12:
        return "..."
    if isinstance(v, Term):
        a = v.args
        if v.op == "sym":
            return str(a[0])
        if v.op in _BIN and len(a) == 2:
            return f"({show(a[0], depth+1)} {_BIN[v.op]} {show(a[1], depth+1)})"
        if v.op == "not":
            return f"not {show(a[0], depth+1)}"
        if v.op == "rd":
            return f"{show(a[0], depth+1)}[{a[1]}:{a[1]+a[2]}]:{a[3]}"
        return f"{v.op}({', '.join(show(x, depth+1) for x in a)})"
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x, depth + 1) for x in v) + ("," if len(v) == 1 else "") + ")"
    return repr(v)


# ---------------------------------------------------------------- int domains
INF = float("inf")


class IntDom:
    """A finite union of integer intervals."""

    __slots__ = ("iv",)

    def __init__(self, iv):
        self.iv = tuple(iv)

    @classmethod
    def rng(cls, lo, hi):
        return cls(((lo, hi),)) if lo <= hi else cls(())

    @classmethod
    def of(cls, values):
        out = []
        for v in sorted(set(values)):
            if out and out[-1][1] == v - 1:
                out[-1] = (out[-1][0], v)
            else:
                out.append((v, v))
        return cls(out)

    def empty(self):
        return not self.iv

    def size(self):
        return sum(h - l + 1 for l, h in self.iv)

    def values(self):
        for l, h in self.iv:
            yield from range(int(l), int(h) + 1)

    def inter(self, o):
        out = []
        for a, b in self.iv:
            for c, d in o.iv:
                l, h = max(a, c), min(b, d)
                if l <= h:
                    out.append((l, h))
        return IntDom(sorted(out))

    def compl(self):
        out, lo = [], -INF
        for l, h in self.iv:
            if l != -INF and lo <= l - 1:
                out.append((lo, l - 1))
            lo = h + 1
        if lo <= INF and not (self.iv and self.iv[-1][1] == INF):
            out.append((lo, INF))
        return IntDom(out)

    def lo(self):
        return self.iv[0][0]

    def hi(self):
        return self.iv[-1][1]

    def __contains__(self, x):
        return any(l <= x <= h for l, h in self.iv)

    def __eq__(self, o):
        return isinstance(o, IntDom) and self.iv == o.iv

    def __hash__(self):
        return hash(self.iv)

    def __repr__(self):
        return "{" + ",".join(str(l) if l == h else f"{l}..{h}" for l, h in self.iv) + "}"


def cmp_dom(op, c):
    """Set of integers x with ``x op c`` for a numeric constant c."""
    if op == "eq":
        if c == int(c):
            return IntDom.rng(int(c), int(c))
        return IntDom(())
    if op == "lt":
        return IntDom.rng(-INF, math.ceil(c) - 1)
    if op == "le":
        return IntDom.rng(-INF, math.floor(c))
    if op == "gt":
        return IntDom.rng(math.floor(c) + 1, INF)
    if op == "ge":
        return IntDom.rng(math.ceil(c), INF)
    raise ValueError(op)


# ----------------------------------------------------------- container values
_ids = itertools.count()


class VList:
    def __init__(self, items=(), tag=None):
        self.items = list(items)
        self.tag = tag

    def __repr__(self):
        return "[" + ", ".join(show(x) for x in self.items) + "]"


class VSet:
    def __init__(self, items=(), frozen=False):
        self.items = list(items)
        self.frozen = frozen

    def __repr__(self):
        return "{" + ", ".join(show(x) for x in self.items) + "}"


class VDict:
    """Insertion-ordered; keys compared through the interpreter's equality."""

    def __init__(self, pairs=(), default_factory=None, attr=False):
        self.pairs = [list(p) for p in pairs]
        self.default_factory = default_factory
        self.attr = attr  # construct.Container: keys are attributes as well

    def __repr__(self):
        return "{" + ", ".join(f"{show(k)}: {show(v)}" for k, v in self.pairs) + "}"


class VByteArray:
    def __init__(self, data):
        self.data = data  # bytes | ABytes


class VRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return f"range({show(self.start)}, {show(self.stop)}, {show(self.step)})"


class VSlice:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class VIter:
    """A lazy iterator: wraps a Python iterator over abstract values."""

    def __init__(self, it, desc="iterator", raw=None):
        self.it, self.desc = iter(it), desc

    def __repr__(self):
        return f"<{self.desc}>"


class SymSeq:
    """A sequence of unknown length, materialised element by element.

    Every request for another element is a path decision; after ``limit``
    elements the path is k-limited (cut)."""

    def __init__(self, name, make, limit=2, minimum=0):
        self.name, self.make, self.limit, self.minimum = name, make, limit, minimum
        self.items = []
        self.closed = False


# -------------------------------------------------------------- program values
class Ext:
    """Something of an external library, known only by its dotted path."""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<ext {self.path}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("ext", self.path))


class ModuleVal:
    def __init__(self, name, file=None):
        self.name, self.file, self.ns = name, file, {}

    def __repr__(self):
        return f"<module {self.name}>"


class FuncVal:
    def __init__(self, node, env, module, name, defaults, kwdefaults, cls=None, native=None):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls = cls  # the class whose body contains it (for super())
        self.native = native
        self.attrs = {}
        self.is_gen = False

    @property
    def qual(self):
        c = f"{self.cls.name}." if self.cls else ""
        return f"{self.module.name if self.module else '?'}:{c}{self.name}"

    @property
    def where(self):
        f = self.module.file if self.module else "?"
        return f"{f}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound:
    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return f"<bound {self.func!r}>"


class PropVal:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticVal:
    def __init__(self, f):
        self.f = f


class ClassMethodVal:
    def __init__(self, f):
        self.f = f


class Alias:
    """``Cls[args]`` - a generic alias."""

    def __init__(self, origin, args):
        self.origin, self.args = origin, args

    def __repr__(self):
        return f"{self.origin!r}[...]"


class ClassVal:
    def __init__(self, name, module, bases, ns, node=None):
        self.name, self.module, self.bases, self.ns, self.node = name, module, bases, ns, node
        self.orig_bases = tuple(bases)
        self.subclasses = []
        self.kind = None  # enum | intenum | flag | ctenum | namedtuple | dataclass | typeddict
        self.members = []  # enum
        self.fields = []  # namedtuple/dataclass: (name, default|MISSING, factory, compare)
        self.dc = {}
        self.annotations = []
        self.mro = None
        self.meta = None

    def __repr__(self):
        return f"<class {self.module.name if self.module else ''}.{self.name}>"


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value
        self.attrs = {}

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class NT:
    """Instance of a NamedTuple class."""

    def __init__(self, cls, items):
        self.cls, self.items = cls, tuple(items)

    def __repr__(self):
        return f"{self.cls.name}{show(self.items)}"


class Instance:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.uid = next(_ids)

    def __repr__(self):
        return f"<{self.cls.name}#{self.uid}>"


class SuperVal:
    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class Bad:
    """A name whose definition the analysis could not follow."""

    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return f"<unanalysed: {self.reason}>"


MISSING = type("MISSING", (), {"__repr__": lambda s: "MISSING"})()


class PyRaise(Exception):
    """An exception of the analysed program."""

    def __init__(self, exc, where=""):
        self.exc, self.where = exc, where
        super().__init__(repr(exc))


class ExcVal:
    """Instance of an exception class (repo ClassVal or builtin Ext)."""

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args
        self.attrs = {}

    def __repr__(self):
        n = self.cls.path.split(".")[-1] if isinstance(self.cls, Ext) else self.cls.name
        return f"{n}{show(tuple(self.args))}"


# -------------------------------------------------------------- abstract bytes
class ABytes:
    """Byte string of known length and (partly) unknown content.

    Segments: ``bytes`` constants, ``("raw", src, start, n)`` - a slice of a
    named source, ``("enc", n, kind, term)`` - an encoded value."""

    __slots__ = ("segs", "ends")

    def __init__(self, segs):
        self.segs = tuple(_merge(segs))
        self.ends = None

    def _index(self):
        """End offset of every segment."""
        e = self.ends
        if e is None:
            e, pos = [], 0
            for s in self.segs:
                pos += seg_len(s)
                e.append(pos)
            self.ends = e
        return e

    def __len__(self):
        e = self._index()
        return e[-1] if e else 0

    def __eq__(self, o):
        if isinstance(o, bytes):
            o = ABytes((o,))
        return isinstance(o, ABytes) and len(self.segs) == len(o.segs) and all(
            _seg_eq(a, b) for a, b in zip(self.segs, o.segs)
        )

    def __hash__(self):
        return hash(tuple(s if isinstance(s, bytes) else s[:2] for s in self.segs))

    def __repr__(self):
        return "<" + " ".join(
            repr(s) if isinstance(s, bytes)
            else (f"{s[1]}[{s[2]}:{s[2]+s[3]}]" if s[0] == "raw" else f"{s[2]}{s[1]}({show(s[3])})")
            for s in self.segs
        ) + ">"

    def is_const(self):
        return all(isinstance(s, bytes) for s in self.segs)

    def const(self):
        return b"".join(self.segs)

    def cut(self, a, b):
        e = self._index()
        out = []
        i = bisect_right(e, a)
        pos = e[i - 1] if i else 0
        for i in range(i, len(e)):
            if pos >= b:
                break
            s = self.segs[i]
            n = e[i] - pos
            lo, hi = max(a, pos), min(b, pos + n)
            if lo < hi:
                if isinstance(s, bytes):
                    out.append(s[lo - pos:hi - pos])
                elif s[0] == "raw":
                    out.append(("raw", s[1], s[2] + lo - pos, hi - lo))
                elif lo == pos and hi == pos + n:
                    out.append(s)
                else:
                    out.append(("enc", hi - lo, "part", Term("bytepart", (s[2], s[3], lo - pos, hi - lo))))
            pos += n
        return norm_bytes(ABytes(out))


def seg_len(s):
    return len(s) if isinstance(s, bytes) else (s[3] if s[0] == "raw" else s[1])


def _seg_eq(a, b):
    if isinstance(a, bytes) or isinstance(b, bytes):
        return type(a) is type(b) and a == b
    if a[0] != b[0]:
        return False
    if a[0] == "raw":
        return a == b
    return a[1:3] == b[1:3] and _same(a[3], b[3])


def _merge(segs):
    out = []
    for s in segs:
        if seg_len(s) == 0:
            continue
        if out:
            p = out[-1]
            if isinstance(p, bytes) and isinstance(s, bytes):
                out[-1] = p + s
                continue
            if (
                not isinstance(p, bytes) and not isinstance(s, bytes)
                and p[0] == s[0] == "raw" and p[1] == s[1] and p[2] + p[3] == s[2]
            ):
                out[-1] = ("raw", p[1], p[2], p[3] + s[3])
                continue
        out.append(s)
    return out


def norm_bytes(v):
    if isinstance(v, ABytes) and v.is_const():
        return v.const()
    return v


def to_abytes(v):
    if isinstance(v, ABytes):
        return v
    if isinstance(v, (bytes, bytearray)):
        return ABytes((bytes(v),))
    if isinstance(v, VByteArray):
        return to_abytes(v.data)
    raise Unsupported(f"not bytes: {v!r}")


def source(name, n):
    return ABytes((("raw", name, 0, n),)) if n else b""


def _cut_(self, a, b):
    return to_abytes(self.cut(a, b)).segs


ABytes.cut_ = _cut_
