"""Transfer functions for builtins and library calls."""
from __future__ import annotations

import ast
import itertools
import math
import struct as _struct

from . import con
from .con import Con, ConEnumStr, Stream, ThisExpr
from .terms import *
from .values import *
from .values import _same

EXC_BASES = {
    "construct.ConstructError": "builtins.Exception",
    "struct.error": "builtins.Exception",
    "dataclasses.FrozenInstanceError": "builtins.AttributeError",
    "json.JSONDecodeError": "builtins.ValueError",
}
for _n in ("SizeofError", "AdaptationError", "ValidationError", "StreamError", "FormatFieldError", "IntegerError",
           "StringError", "MappingError", "RangeError", "RepeatError", "ConstError", "IndexFieldError", "CheckError",
           "ExplicitError", "NamedTupleError", "TimestampError", "UnionError", "SelectError", "SwitchError",
           "PaddingError", "TerminatedError", "RawCopyError", "RotationError", "ChecksumError", "CancelParsing"):
    EXC_BASES["construct." + _n] = "construct.ConstructError"

TYPING = {"typing", "typing_extensions", "collections.abc"}
PRELUDE = {
    "collections.UserDict": "UserDict", "collections.UserList": "UserList",
    "sortedcontainers.SortedList": "SortedList", "functools.cached_property": "cached_property",
    "functools.lru_cache": "lru_cache", "functools.cache": "_cached", "sortedcontainers.SortedKeyList": "SortedList",
}
CONST = {
    "typing.TYPE_CHECKING": False, "typing_extensions.TYPE_CHECKING": False,
    "sys.version_info": (3, 9, 18, "final", 0), "sys.platform": "linux", "sys.maxsize": (1 << 63) - 1,
    "sys.byteorder": "little", "os.SEEK_SET": 0, "os.SEEK_CUR": 1, "os.SEEK_END": 2, "io.SEEK_END": 2,
    "io.SEEK_SET": 0, "io.SEEK_CUR": 1, "math.pi": math.pi, "math.e": math.e, "math.inf": math.inf, "math.nan": math.nan,
    "os.sep": "/", "os.linesep": "\n", "string.ascii_letters": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "string.digits": "0123456789", "os.name": "posix",
}
_MODULES = {"os.path", "importlib.metadata", "collections.abc", "concurrent.futures", "importlib.resources"}


def ext_exc_base(path):
    return EXC_BASES.get(path)


# --------------------------------------------------------------------- importing
def path_value(it, path):
    if path in it.ext_override:
        return it.ext_override[path]
    if path in CONST:
        return CONST[path]
    if path in PRELUDE:
        return it.prelude.ns[PRELUDE[path]]
    if path.startswith("construct.core."):
        path = "construct." + path[15:]
    if path.startswith("construct."):
        s = con.singleton(path[10:])
        if s is not None:
            return s
    if path.startswith("io.") and path[3:] in ("BytesIO",):
        return Ext("io.BytesIO")
    return Ext(path)


def import_from(it, module, name):
    return path_value(it, f"{module}.{name}")


class FileVal:
    """A file object; every operation is recorded as an effect."""

    def __init__(self, path, mode):
        self.path, self.mode, self.closed = path, mode, False
        self.stream = None

    def __repr__(self):
        return f"<file {show(self.path)} {self.mode!r}>"


class PathVal:
    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return f"<path {show(self.p)}>"


class StructFmt:
    def __init__(self, it, fmt):
        if not isinstance(fmt, str):
            raise Unsupported("unknown struct format")
        self.fmt = fmt
        try:
            self.size = _struct.calcsize(fmt)
        except _struct.error:
            raise PyRaise(ExcVal(Ext("struct.error"), (fmt,)), it.where())
        order = fmt[0] if fmt[0] in "<>=!@" else "@"
        body = fmt.lstrip("<>=!@")
        self.fields = []
        num = ""
        off = 0
        big = order in ">!"
        for ch in body:
            if ch.isspace():
                continue
            if ch.isdigit():
                num += ch
                continue
            n = int(num) if num else 1
            w = _struct.calcsize(("=" if order != "@" else "@") + ch)
            if order == "@":
                while ch not in "sp" and off % w:
                    self.fields.append(("x", 1))
                    off += 1
            if ch == "s":
                self.fields.append(("str", n))
                off += n
            elif ch == "x":
                self.fields.append(("x", n))
                off += n
            else:
                kind = {"f": "f", "d": "f", "?": "?", "c": "c"}.get(ch, ("s" if ch.islower() else "u") + ("b" if big and w > 1 else ""))
                if big and kind == "f":
                    raise Unsupported("big endian float")
                for _ in range(n):
                    self.fields.append((kind, w))
                    off += w
            num = ""

    def unpack(self, it, data):
        b = it.bytesish(data)
        if b is None:
            if isinstance(data, Term):
                raise Unsupported("struct.unpack of unknown bytes")
            it.raise_("TypeError", "a bytes-like object is required")
        if len(b) != self.size:
            raise PyRaise(ExcVal(Ext("struct.error"), ("wrong size",)), it.where())
        return self._unpack(it, to_abytes(b))

    def unpack_from(self, it, data, off=0):
        b = it.bytesish(data)
        if b is None or not isinstance(off, int):
            raise Unsupported("unpack_from")
        if len(b) - off < self.size:
            raise PyRaise(ExcVal(Ext("struct.error"), ("buffer too small",)), it.where())
        return self._unpack(it, to_abytes(to_abytes(b).cut(off, off + self.size)))

    def _unpack(self, it, b):
        out, pos = [], 0
        for kind, w in self.fields:
            piece = b.cut(pos, pos + w)
            pos += w
            if kind == "x":
                continue
            if kind in ("str", "c"):
                out.append(norm_bytes(piece))
            elif kind == "?":
                v = con.rd_value(it, piece, "u", 1)
                out.append(mk_not(mk_cmp("eq", v, 0)))
            else:
                out.append(con.rd_value(it, piece, kind, w))
        return tuple(out)

    def pack(self, it, args):
        args = list(args)
        need = sum(1 for k, _ in self.fields if k != "x")
        if len(args) != need:
            raise PyRaise(ExcVal(Ext("struct.error"), ("wrong number of items",)), it.where())
        segs = []
        for kind, w in self.fields:
            if kind == "x":
                segs.append(b"\0" * w)
                continue
            v = args.pop(0)
            if kind in ("str", "c"):
                b = it.bytesish(v)
                if b is None:
                    raise PyRaise(ExcVal(Ext("struct.error"), ("argument must be bytes",)), it.where())
                b = to_abytes(b)
                segs.extend(to_abytes(b.cut(0, min(w, len(b)))).segs)
                segs.append(b"\0" * (w - min(w, len(b))))
            elif kind == "?":
                segs.append(b"\1" if it.truth(v) else b"\0")
            else:
                try:
                    segs.extend(to_abytes(con.enc(it, w, kind, v)).segs)
                except PyRaise as e:
                    if isinstance(e.exc.cls, Ext) and e.exc.cls.path == "construct.FormatFieldError":
                        raise PyRaise(ExcVal(Ext("struct.error"), e.exc.args), e.where)
                    raise
        return norm_bytes(ABytes(segs))


# ------------------------------------------------------------------- class making
ENUM_BASES = {"enum.Enum": "enum", "enum.IntEnum": "intenum", "enum.IntFlag": "intflag", "enum.Flag": "flag",
              "construct_typed.EnumBase": "ctenum", "enum.StrEnum": "enum"}
ENUM_KINDS = ("enum", "intenum", "flag", "intflag", "ctenum")


def make_class(it, st, env):
    from .interp import Env
    bases, orig = [], []
    for b in st.bases:
        if isinstance(b, ast.Starred):
            raise Unsupported("starred base")
        v = it.eval(b, env)
        if isinstance(v, Bad):
            raise Unsupported(v.reason)
        if isinstance(v, FuncVal) or isinstance(v, Term):
            raise Unsupported(f"base class {v!r}")
        bases.append(v)
    kw = {k.arg: it.eval(k.value, env) for k in st.keywords}
    cls = ClassVal(st.name, env.module, tuple(bases), {}, st)
    meta = kw.pop("metaclass", None)
    if isinstance(meta, ClassVal):
        cls.meta = meta
    raw = [b.origin if isinstance(b, Alias) else b for b in bases]
    kind = None
    has_int = any(b == Ext("builtins.int") for b in raw)
    for b in raw:
        if isinstance(b, Ext) and b.path in ENUM_BASES:
            kind = ENUM_BASES[b.path]
            if kind == "enum" and has_int:
                kind = "intenum"
            if kind == "flag" and has_int:
                kind = "intflag"
        elif isinstance(b, ClassVal) and b.kind in ENUM_KINDS:
            kind = b.kind
        elif isinstance(b, Ext) and b.path in ("typing.NamedTuple", "typing_extensions.NamedTuple"):
            kind = "namedtuple"
        elif isinstance(b, ClassVal) and b.kind == "namedtuple":
            kind = "namedtuple"
            cls.fields = list(b.fields)
        elif isinstance(b, Ext) and b.path in ("typing.TypedDict", "typing_extensions.TypedDict"):
            kind = "typeddict"
        elif isinstance(b, ClassVal) and b.kind == "typeddict":
            kind = "typeddict"
        elif isinstance(b, Ext) and b.path in ("typing.Protocol", "typing_extensions.Protocol"):
            cls.dc["protocol"] = True
        elif isinstance(b, Ext) and b.path.startswith("builtins.") and b.path[9:] in ("dict", "list", "str", "bytes", "float", "tuple", "set") and not kind:
            cls.dc["builtin_base"] = b.path[9:]
    if kind:
        cls.kind = kind
    cenv = Env(env, env.module, None)
    cenv.is_class = True
    cenv.cls = cls
    cenv.vars = cls.ns
    if env.func is None and not env.is_class:
        cenv.parent = None
    pre_names = set()
    cls.ns["__module__"] = env.module.name
    for s in st.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            cls.annotations.append((s.target.id, s.annotation))
        it._guarded(s, cenv)
    for b in raw:
        if isinstance(b, ClassVal):
            b.subclasses.append(cls)
    if kind in ENUM_KINDS:
        _make_enum(it, cls, st)
    elif kind == "namedtuple" and not cls.fields:
        for n, _ in cls.annotations:
            cls.fields.append((n, cls.ns.pop(n, MISSING), None, True))
    v = cls
    # __set_name__
    for n, x in list(cls.ns.items()):
        if isinstance(x, Instance):
            f = it.find_attr(x.cls, "__set_name__")
            if f is not None:
                it.call(Bound(f, x), [cls, n])
    for b in it.mro(cls)[1:]:
        if isinstance(b, ClassVal) and "__init_subclass__" in b.ns:
            f = b.ns["__init_subclass__"]
            it.call(f.f if isinstance(f, ClassMethodVal) else f, [cls], kw)
            break
    for d in reversed(st.decorator_list):
        v = apply_decorator(it, it.eval(d, env), v)
    return v


def _make_enum(it, cls, st):
    names = []
    for s in st.body:
        tg = []
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    tg.append(t.id)
                elif isinstance(t, ast.Tuple):
                    tg += [e.id for e in t.elts if isinstance(e, ast.Name)]
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            tg.append(s.target.id)
        names += [n for n in tg if n in cls.ns and n not in names]
    for n in list(cls.ns):
        if n not in names and not isinstance(cls.ns[n], (FuncVal, PropVal, StaticVal, ClassMethodVal, ClassVal)) and not n.startswith("__"):
            names.append(n)
    new = it.find_attr(cls, "__new__")
    last = None
    for n in names:
        v = cls.ns[n]
        if n.startswith("_") and n.endswith("_") and len(n) > 2:
            continue
        if isinstance(v, (FuncVal, PropVal, StaticVal, ClassMethodVal, ClassVal)):
            continue
        if isinstance(v, Instance) and it.find_attr(v.cls, "__get__") is not None:
            continue
        if isinstance(v, Bad):
            m = EnumMember(cls, n, v)
            m.bad = v.reason
            cls.members.append(m)
            continue
        if isinstance(v, ExtAuto):
            if cls.kind in ("flag", "intflag"):
                hi = 0
                for m in cls.members:
                    if isinstance(m.value, int):
                        hi = max(hi, m.value.bit_length())
                v = 1 << hi
            else:
                v = (last or 0) + 1
        if isinstance(v, Instance) and v.cls.name == "EnumValue":
            v = v.attrs["value"]
        if new is not None:
            args = list(v) if isinstance(v, tuple) else [v]
            m = it.call(new.f if isinstance(new, StaticVal) else new, [cls] + args)
            if not isinstance(m, EnumMember):
                raise Unsupported("enum __new__")
            if m.value is MISSING:
                m.value = v
            m.name = n
        else:
            m = EnumMember(cls, n, v)
        m.node_name = n
        if isinstance(m.value, int):
            last = m.value
        dup = next((x for x in cls.members if not isinstance(x.value, Bad) and it.eq(x.value, m.value) is True), None)
        if dup is not None:
            cls.dc.setdefault("aliases", []).append((n, dup.name, m))
            cls.ns[n] = dup
            continue
        cls.members.append(m)
        cls.ns[n] = m
        init = it.find_attr(cls, "__init__")
        if init is not None:
            it.call(Bound(init, m), list(v) if isinstance(v, tuple) else [v])


class ExtAuto:
    pass


def enum_call(it, c, args, kw):
    if not args:
        v = kw.get("value")
    else:
        v = args[0]
    v = it.ctx.resolve(v)
    if isinstance(v, EnumMember) and v.cls is c:
        return v
    if isinstance(v, Term) and v.op in ("enum", "flag") and v.args[0] is c:
        return v
    w = it.intish(v)
    if w is None:
        w = v
    if is_const(w) or isinstance(w, tuple):
        for m in c.members:
            if not isinstance(m.value, Bad) and it.eq(m.value, w) is True:
                return m
        if hasattr(c, "v2m"):
            for k, m in c.v2m.pairs:
                if it.eq(k, w) is True:
                    return m
    elif isinstance(w, Term):
        if c.kind in ("flag", "intflag"):
            if w.ty in ("str", "float"):
                it.raise_("ValueError", "not a valid flag")
            return Term("flag", (c, w), "flag")
        if c.kind == "ctenum" and w.ty in NUM_TY:
            return Term("enum", (c, w), "int")
    miss = it.find_attr(c, "_missing_")
    if miss is not None:
        r = it.call(miss.f if isinstance(miss, ClassMethodVal) else miss, [c, v])
        if r is None:
            it.raise_("ValueError", f"{show(v)} is not a valid {c.name}")
        return r
    if isinstance(w, Term):
        vals = [m.value for m in c.members]
        if w.ty in ("str", None, "any") and all(isinstance(x, str) for x in vals):
            for m in c.members:
                if it.truth(it.eq(w, m.value)):
                    return m
            it.raise_("ValueError", "not a valid member")
        if all(isinstance(x, int) for x in vals) and w.ty in NUM_TY:
            if it.truth(it._in_consts(w, vals)):
                r = it.ctx.resolve(w)
                if isinstance(r, int):
                    return next(m for m in c.members if m.value == r)
                return Term("enum", (c, w), "int" if c.kind == "intenum" else None)
            it.raise_("ValueError", f"not a valid {c.name}")
        raise Unsupported(f"{c.name}({show(w)})")
    if c.kind == "intflag" and isinstance(w, int):
        return Term("flag", (c, w), "flag")
    if c.kind == "flag" and isinstance(w, int):
        allb = 0
        for m in c.members:
            allb |= m.value
        if w & ~allb == 0:
            return Term("flag", (c, w), "flag")
    if c.kind == "ctenum" and isinstance(w, int):
        return Term("enum", (c, w), "int")
    it.raise_("ValueError", f"{show(v)} is not a valid {c.name}")


def namedtuple_new(it, c, args, kw):
    items = list(args)
    kw = dict(kw)
    for i, f in enumerate(c.fields):
        if i < len(items):
            if f[0] in kw:
                it.raise_("TypeError", "multiple values")
            continue
        if f[0] in kw:
            items.append(kw.pop(f[0]))
        elif f[1] is not MISSING:
            items.append(f[1])
        else:
            it.raise_("TypeError", f"missing argument {f[0]}")
    if kw or len(items) > len(c.fields):
        it.raise_("TypeError", "too many arguments")
    return NT(c, items)


def dataclass_apply(it, cls, opts):
    fields = []
    for b in reversed(it.mro(cls)[1:]):
        if isinstance(b, ClassVal) and b.kind == "dataclass":
            for f in b.fields:
                fields = [x for x in fields if x[0] != f[0]] + [f]
    for n, ann in cls.annotations:
        txt = ast.unparse(ann)
        if txt.startswith("ClassVar") or "ClassVar[" in txt:
            continue
        d = cls.ns.get(n, MISSING)
        factory, compare = None, True
        if isinstance(d, FieldVal):
            factory, compare = d.factory, d.compare
            d2 = d.default
            if d2 is MISSING:
                cls.ns.pop(n, None)
            else:
                cls.ns[n] = d2
            d = d2
        fields = [x for x in fields if x[0] != n] + [(n, d, factory, compare)]
    cls.kind = "dataclass"
    cls.fields = fields
    cls.dc.update({"eq": True})
    cls.dc.update(opts)
    return cls


class FieldVal:
    def __init__(self, default, factory, compare):
        self.default, self.factory, self.compare = default, factory, compare


def dataclass_init(it, c, o, args, kw):
    o.initing = True
    kw = dict(kw)
    for i, (n, d, factory, _) in enumerate(c.fields):
        if i < len(args):
            v = args[i]
        elif n in kw:
            v = kw.pop(n)
        elif factory is not None:
            v = it.call(factory, [])
        elif d is not MISSING:
            v = d
        else:
            it.raise_("TypeError", f"missing argument {n}")
        it.setattr(o, n, v)
    if kw or len(args) > len(c.fields):
        it.raise_("TypeError", "unexpected arguments")
    p = it.find_attr(c, "__post_init__")
    if p is not None:
        it.call(Bound(p, o), [])
    o.initing = False


_IDENT_DECOS = {
    "typing.final", "typing_extensions.final", "typing.runtime_checkable", "typing_extensions.runtime_checkable",
    "abc.abstractmethod", "enum.unique", "typing.no_type_check", "typing_extensions.deprecated", "typing_extensions.override",
    "typing.override",
}


def apply_decorator(it, d, v):
    if isinstance(d, Ext):
        p = d.path
        if p in ("typing.overload", "typing_extensions.overload"):
            return v
        if p == "enum.unique":
            if isinstance(v, ClassVal) and v.dc.get("aliases"):
                v.dc["unique_violation"] = v.dc["aliases"]
                it.raise_("ValueError", f"duplicate values found in {v.name}: {[(a, b) for a, b, _ in v.dc['aliases']]}")
            return v
        if p in _IDENT_DECOS:
            return v
        if p == "builtins.property" or p == "abc.abstractproperty":
            return PropVal(v)
        if p == "builtins.staticmethod":
            return StaticVal(v)
        if p == "builtins.classmethod":
            return ClassMethodVal(v)
        if p == "dataclasses.dataclass":
            return dataclass_apply(it, v, {})
        if p == "functools.total_ordering":
            v.ns["__total_ordering__"] = True
            return v
    return it.call(d, [v])


def ext_new(it, c, args, kw):
    """Instance creation for classes with library bases and no own __new__."""
    if con.is_adapter_class(it, c):
        o = Instance(c)
        if it.find_attr(c, "__init__") is None:
            paths = [b.path for b in it.ext_bases(c)]
            if args:
                o.attrs["subcon"] = args[0]
            elif "subcon" in kw:
                o.attrs["subcon"] = kw["subcon"]
        return o
    bb = None
    for b in it.mro(c):
        if isinstance(b, ClassVal) and b.dc.get("builtin_base"):
            bb = b.dc["builtin_base"]
    if bb:
        raise Unsupported(f"class deriving from {bb}")
    return MISSING


def instance_attr(it, o, name):
    if con.is_adapter_class(it, o.cls):
        return con.con_attr(it, con.as_con(it, o), name)
    if name == "__doc__":
        return None
    if name == "__module__":
        return o.cls.module.name
    if name == "__repr__" or name == "__str__":
        return it.native(name, lambda i, a, k: repr_(i, o))
    if name == "__hash__":
        return it.native(name, lambda i, a, k: Term("hash", (id(o),), "int"))
    if o.cls.kind == "dataclass":
        if name == "__dataclass_fields__":
            return VDict([(f[0], None) for f in o.cls.fields])
    if name == "__setattr__":
        return it.native(name, lambda i, a, k: i.setattr(o, a[0], a[1]))
    if name == "__getattribute__":
        return it.native(name, lambda i, a, k: i.getattr(o, a[0]))
    return MISSING


def class_attr(it, c, name):
    if name == "__doc__":
        return None
    if name == "__new__":
        return it.native("__new__", lambda i, a, k: _object_new(i, a[0]))
    if name == "__init__":
        return it.native("__init__", lambda i, a, k: None)
    return MISSING


def _object_new(it, cls):
    if isinstance(cls, Alias):
        cls = cls.origin
    if not isinstance(cls, ClassVal):
        raise Unsupported("object.__new__ of a library class")
    return Instance(cls)


def super_attr(it, s, cls, name):
    obj = s.self
    if name == "__init__":
        if isinstance(obj, ExcVal):
            def ini(i, a, k):
                obj.args = tuple(a)
            return it.native("__init__", ini)
        if isinstance(obj, Instance) and con.is_adapter_class(it, obj.cls):
            def ini2(i, a, k):
                obj.attrs["subcon"] = a[0] if a else k.get("subcon")
            return it.native("__init__", ini2)
        if isinstance(obj, Instance):
            return it.native("__init__", lambda i, a, k: None)
        return it.native("__init__", lambda i, a, k: None)
    if name == "__new__":
        def new(i, a, k):
            c = a[0] if a else cls
            if isinstance(c, ClassVal) and c.kind == "namedtuple":
                return namedtuple_new(i, c, a[1:], k)
            if isinstance(c, ClassVal) and c.kind in ENUM_KINDS:
                return EnumMember(c, None, a[1] if len(a) > 1 else MISSING)
            return _object_new(i, c)
        return it.native("__new__", new)
    if name == "__init_subclass__":
        return it.native(name, lambda i, a, k: None)
    if name == "__setattr__":
        def sa(i, a, k):
            obj.attrs[a[0]] = a[1]
        return it.native(name, sa)
    if name == "__getattribute__":
        def ga(i, a, k):
            n = a[0]
            if n == "__class__":
                return obj.cls
            d = i.find_attr(obj.cls, n)
            if d is not None and i._is_data_desc(d):
                return i._desc_get(d, obj, obj.cls)
            if n in obj.attrs:
                return obj.attrs[n]
            if d is not None:
                return i._desc_get(d, obj, obj.cls)
            i.raise_("AttributeError", n)
        return it.native(name, ga)
    if name in ("__eq__", "__ne__", "__lt__"):
        if isinstance(obj, Instance) and obj.cls.kind == "dataclass":
            pass
        if name == "__eq__":
            return it.native(name, lambda i, a, k: True if a[0] is obj else NotImplemented)
        return it.native(name, lambda i, a, k: NotImplemented)
    if name == "__contains__" and isinstance(obj, ClassVal) and obj.kind in ENUM_KINDS:
        return it.native(name, lambda i, a, k: i.or_([i.eq(a[0], m) if not isinstance(a[0], EnumMember) else a[0] is m for m in obj.members]))
    if name in ("__iter__",) and isinstance(obj, ClassVal) and obj.kind in ENUM_KINDS:
        return it.native(name, lambda i, a, k: VIter(iter(list(obj.members))))
    if name in ("__repr__", "__str__"):
        return it.native(name, lambda i, a, k: Term("repr", (id(obj),), "str"))
    if name == "__call__" and isinstance(obj, ClassVal):
        if obj.kind in ENUM_KINDS:
            return it.native(name, lambda i, a, k: enum_call(i, obj, a, k))
    if name == "_missing_":
        return it.native(name, lambda i, a, k: None)
    if isinstance(obj, Instance) and con.is_adapter_class(it, obj.cls):
        c = con.as_con(it, obj)
        if name in ("_parse", "_build"):
            def pb(i, a, k):
                if name == "_parse":
                    return i.call(i.getattr(obj, "_decode"), [c.subcon.parse(i, a[0], a[1]), a[1], "path"])
                c.subcon.build(i, i.call(i.getattr(obj, "_encode"), [a[0], a[2], "path"]), a[1], a[2])
                return a[0]
            return it.native(name, pb)
    return MISSING


# ------------------------------------------------------------------ scalar methods
def scalar_attr(it, v, name):
    return value_attr(it, v, name)


_NAT_STR = {
    "rstrip", "lstrip", "strip", "startswith", "endswith", "replace", "upper", "lower", "find", "index", "isalnum",
    "isdigit", "isnumeric", "isdecimal", "isalpha", "removeprefix", "removesuffix", "zfill", "title", "isascii", "isspace",
    "count", "isidentifier", "capitalize", "center", "ljust", "rjust", "casefold", "isupper", "islower", "rfind", "swapcase", "isprintable",
}
_BOOL_M = {"startswith", "endswith", "isalnum", "isdigit", "isnumeric", "isdecimal", "isalpha", "isascii", "isspace", "isupper", "islower"}


def _str_method(it, v, name):
    def run(i, a, k):
        a = [i.ctx.resolve(x) for x in a]
        vv = i.ctx.resolve(v)
        consts = is_const(vv) and all(is_const(x) or isinstance(x, tuple) and all(is_const(y) for y in x) for x in a)
        if name == "join":
            parts = list(i.iterate(a[0]))
            out = []
            for n, p in enumerate(parts):
                if n:
                    out.append(vv)
                if isinstance(p, str) or isinstance(p, Term) and p.ty in ("str", None):
                    out.append(p)
                else:
                    i.raise_("TypeError", "sequence item: expected str")
            return mk_concat(out)
        if name == "format":
            return _format(i, vv, a, k)
        if name in ("split", "rsplit", "partition", "rpartition", "splitlines"):
            if consts:
                r = getattr(vv, name)(*a, **{x: y for x, y in k.items()})
                return tuple(r) if name.endswith("partition") else VList(r)
            if name.endswith("partition"):
                return tuple(Term("item", (Term("m:" + name, (vv, *a)), j), "str") for j in range(3))
            if name == "split" and not k:
                return Term("m:split", (vv, *a), "list")
            return Term("m:" + name, (vv, *a), "list")
        if name == "encode":
            e = a[0] if a else k.get("encoding", "utf-8")
            return con.encode_text(i, vv, e)
        if consts:
            try:
                return getattr(vv, name)(*a, **k)
            except ValueError as e:
                i.raise_("ValueError", str(e))
            except TypeError as e:
                i.raise_("TypeError", str(e))
            except AttributeError:
                return _compat(vv, name, a)
        if name == "rstrip" and len(a) == 1 and isinstance(vv, Term):
            if vv.op == "m:rstrip" and vv.args[1] == a[0]:
                return vv
            if vv.op == "concat" and isinstance(vv.args[-1], str) and isinstance(a[0], str):
                last = vv.args[-1].rstrip(a[0])
                if last:
                    return mk_concat(list(vv.args[:-1]) + [last])
                return run_rstrip(i, mk_concat(list(vv.args[:-1])), a)
            if vv.op == "sym" and vv in i.ctx.__dict__.get("clean_text", ()):
                return vv
        if name in ("removesuffix",) and isinstance(vv, Term) and vv.op == "concat" and isinstance(vv.args[-1], str) and vv.args[-1].endswith(a[0]):
            return mk_concat(list(vv.args[:-1]) + [vv.args[-1][: len(vv.args[-1]) - len(a[0])]])
        if name in _NAT_STR:
            ty = "bool" if name in _BOOL_M else "int" if name in ("find", "rfind", "index", "count") else "str"
            return Term("m:" + name, (vv, *[x if not isinstance(x, VList) else tuple(x.items) for x in a]), ty)
        raise Unsupported(f"str.{name}")

    def run_rstrip(i, t, a):
        return i.call(_str_method(i, t, "rstrip"), a)

    return it.native(name, run)


def _compat(v, name, a):
    if name == "removeprefix":
        return v[len(a[0]):] if v.startswith(a[0]) else v
    if name == "removesuffix":
        return v[: len(v) - len(a[0])] if a[0] and v.endswith(a[0]) else v
    raise Unsupported(name)


def _format(it, s, a, k):
    if isinstance(s, str) and all(is_const(x) for x in a) and all(is_const(x) for x in k.values()):
        try:
            return s.format(*a, **k)
        except Exception:
            pass
    return Term("fmtcall", (s, *[x if is_const(x) or isinstance(x, Term) else str(x) for x in a]), "str")


def _list_method(it, o, name):
    L = o.items

    def run(i, a, k):
        if name == "append":
            L.append(a[0])
        elif name == "extend":
            src = a[0]
            L.extend(list(i.iterate(src)))
        elif name == "insert":
            p = i.intish(i.ctx.resolve(a[0]))
            if not isinstance(p, int):
                raise Unsupported("symbolic insert position")
            L.insert(p, a[1])
        elif name == "pop":
            p = i.intish(i.ctx.resolve(a[0])) if a else -1
            if not L or not -len(L) <= p < len(L):
                i.raise_("IndexError", "pop")
            return L.pop(p)
        elif name == "remove":
            for n, x in enumerate(L):
                if i.truth(i.eq(x, a[0])):
                    del L[n]
                    return None
            i.raise_("ValueError", "not in list")
        elif name == "index":
            st_ = a[1] if len(a) > 1 else 0
            for n, x in enumerate(L):
                if n >= st_ and (x is a[0] or i.truth(i.eq(x, a[0]))):
                    return n
            i.raise_("ValueError", "not in list")
        elif name == "count":
            return sum(1 for x in L if x is a[0] or i.truth(i.eq(x, a[0])))
        elif name == "clear":
            L.clear()
        elif name == "copy":
            return VList(list(L))
        elif name == "reverse":
            L.reverse()
        elif name == "sort":
            L[:] = _sorted(i, L, k.get("key"), k.get("reverse", False))
        else:
            raise Unsupported(f"list.{name}")
        return None

    return it.native(name, run)


def _sorted(it, items, key=None, reverse=False):
    items = list(items)
    keyed = [((it.call(key, [x]) if key is not None else x), x) for x in items]
    if it.truth(reverse):
        keyed.reverse()
    out = []
    for kx in keyed:
        j = len(out)
        while j > 0 and it.truth(it.compare("lt", kx[0], out[j - 1][0])):
            j -= 1
        out.insert(j, kx)
    if it.truth(reverse):
        out.reverse()
    return [x for _, x in out]


def _dict_method(it, o, name):
    def run(i, a, k):
        if name == "get":
            return i.dict_get(o, a[0], a[1] if len(a) > 1 else k.get("default"), False)
        if name == "keys":
            return VList([x for x, _ in o.pairs], tag="keys")
        if name == "values":
            return VList([x for _, x in o.pairs], tag="values")
        if name == "items":
            return VList([(x, y) for x, y in o.pairs], tag="items")
        if name == "setdefault":
            p = i.dict_find(o, a[0])
            if p is not None:
                return p[1]
            v = a[1] if len(a) > 1 else None
            o.pairs.append([a[0], v])
            return v
        if name == "pop":
            p = i.dict_find(o, a[0])
            if p is None:
                if len(a) > 1:
                    return a[1]
                i.raise_("KeyError", a[0])
            o.pairs.remove(p)
            return p[1]
        if name == "popitem":
            if not o.pairs:
                i.raise_("KeyError", "empty")
            p = o.pairs.pop()
            return (p[0], p[1])
        if name == "update":
            if a:
                src = a[0]
                if isinstance(src, VDict):
                    for x, y in src.pairs:
                        i.dict_set(o, x, y)
                elif isinstance(src, Instance):
                    for x in i.iterate(i.call(i.getattr(src, "keys"), [])):
                        i.dict_set(o, x, i.getitem(src, x))
                else:
                    for p in i.iterate(src):
                        x, y = list(i.iterate(p))
                        i.dict_set(o, x, y)
            for x, y in k.items():
                i.dict_set(o, x, y)
            return None
        if name == "clear":
            o.pairs.clear()
            return None
        if name == "copy":
            return VDict([(x, y) for x, y in o.pairs], o.default_factory, o.attr)
        raise Unsupported(f"dict.{name}")

    return it.native(name, run)


_DICT_M = {"get", "keys", "values", "items", "setdefault", "pop", "popitem", "update", "clear", "copy"}
_LIST_M = {"append", "extend", "insert", "pop", "remove", "index", "count", "clear", "copy", "reverse", "sort"}


def _set_method(it, o, name):
    def run(i, a, k):
        if name == "add":
            if not i.truth(i.contains(a[0], o)):
                o.items.append(a[0])
            return None
        if name == "discard" or name == "remove":
            for n, x in enumerate(o.items):
                if x is a[0] or i.truth(i.eq(x, a[0])):
                    del o.items[n]
                    return None
            if name == "remove":
                i.raise_("KeyError", a[0])
            return None
        if name == "update":
            for s in a:
                for x in i.iterate(s):
                    if not i.truth(i.contains(x, o)):
                        o.items.append(x)
            return None
        if name == "union":
            r = VSet(list(o.items), o.frozen)
            for s in a:
                for x in i.iterate(s):
                    if not i.truth(i.contains(x, r)):
                        r.items.append(x)
            return r
        if name == "intersection":
            return VSet([x for x in o.items if i.truth(i.contains(x, a[0]))], o.frozen)
        if name == "difference":
            return VSet([x for x in o.items if not i.truth(i.contains(x, a[0]))], o.frozen)
        if name == "isdisjoint":
            return not any(i.truth(i.contains(x, o)) for x in i.iterate(a[0]))
        if name == "issubset":
            return all(i.truth(i.contains(x, a[0])) for x in o.items)
        if name == "issuperset":
            return all(i.truth(i.contains(x, o)) for x in i.iterate(a[0]))
        if name == "copy":
            return VSet(list(o.items), o.frozen)
        if name == "clear":
            o.items.clear()
            return None
        raise Unsupported(f"set.{name}")

    return it.native(name, run)


def _bytes_method(it, o, name):
    def run(i, a, k):
        b = o.data if isinstance(o, VByteArray) else o
        if name == "decode":
            return con.decode_text(i, b, a[0] if a else k.get("encoding", "utf-8"), a[1] if len(a) > 1 else k.get("errors", "strict"))
        if isinstance(b, bytes) and all(is_const(x) for x in a) and name in (
                "rstrip", "lstrip", "strip", "startswith", "endswith", "replace", "find", "index", "count", "hex", "upper", "lower", "rfind", "removeprefix", "removesuffix"):
            try:
                return getattr(b, name)(*a)
            except (ValueError, TypeError) as e:
                i.raise_(type(e).__name__, str(e))
        if name == "startswith":
            p = to_abytes(i.bytesish(a[0]))
            if len(p) > len(b):
                return False
            return i.eq(norm_bytes(to_abytes(b).cut(0, len(p))), norm_bytes(p))
        if name == "endswith":
            p = to_abytes(i.bytesish(a[0]))
            if len(p) > len(b):
                return False
            return i.eq(norm_bytes(to_abytes(b).cut(len(b) - len(p), len(b))), norm_bytes(p))
        if name == "join":
            segs = []
            for n, p in enumerate(i.iterate(a[0])):
                if n:
                    segs.extend(to_abytes(b).segs)
                pb = i.bytesish(p)
                if pb is None:
                    i.raise_("TypeError", "expected bytes")
                segs.extend(to_abytes(pb).segs)
            return norm_bytes(ABytes(segs))
        if name in ("ljust", "rjust"):
            n = a[0]
            fill = a[1] if len(a) > 1 else b" "
            pad = (fill * max(0, n - len(b)),)
            s = to_abytes(b).segs
            return norm_bytes(ABytes(s + pad if name == "ljust" else pad + s))
        if name in ("split", "rsplit", "partition", "rpartition") and isinstance(b, bytes):
            r = getattr(b, name)(*a)
            return tuple(r) if "partition" in name else VList(r)
        raise Unsupported(f"bytes.{name} of unknown bytes")

    if isinstance(o, VByteArray):
        def mut(i, a, k):
            if name == "extend":
                nb = i.bytesish(a[0])
                if nb is None:
                    nb = make_bytes(i, a[0])
                o.data = norm_bytes(ABytes(to_abytes(o.data).segs + to_abytes(nb).segs))
                return None
            if name == "append":
                o.data = norm_bytes(ABytes(to_abytes(o.data).segs + to_abytes(make_bytes(i, VList([a[0]]))).segs))
                return None
            if name == "clear":
                o.data = b""
                return None
            if name == "insert":
                p = a[0]
                d = to_abytes(o.data)
                o.data = norm_bytes(ABytes(d.cut_(0, p) + to_abytes(make_bytes(i, VList([a[1]]))).segs + d.cut_(p, len(d))))
                return None
            return run(i, a, k)
        if name in ("extend", "append", "clear", "insert"):
            return it.native(name, mut)
    return it.native(name, run)


def _stream_method(it, o, name):
    def run(i, a, k):
        a = [i.ctx.resolve(x) for x in a]
        if name == "read":
            n = i.intish(a[0]) if a and a[0] is not None else None
            if isinstance(n, Term):
                raise Unsupported("read of unknown length")
            return norm_bytes(o.read(n))
        if name == "seek":
            off, wh = i.intish(a[0]), (i.intish(a[1]) if len(a) > 1 else 0)
            if not isinstance(off, int):
                raise Unsupported("seek to unknown offset")
            o.pos = off + (0 if wh == 0 else o.pos if wh == 1 else len(o.data))
            return o.pos
        if name == "tell":
            return o.pos
        if name in ("getvalue",):
            return norm_bytes(o.data)
        if name == "getbuffer":
            return norm_bytes(o.data)
        if name == "write":
            b = i.bytesish(a[0])
            if b is None:
                i.raise_("TypeError", "a bytes-like object is required")
            return o.write(b)
        if name == "close":
            o.closed = True
            return None
        if name == "truncate":
            o.data = norm_bytes(to_abytes(o.data).cut(0, o.pos if not a else a[0]))
            return None
        if name in ("flush",):
            return None
        if name in ("readable", "writable", "seekable"):
            return True
        raise Unsupported(f"BytesIO.{name}")

    return it.native(name, run)


def _file_method(it, o, name):
    def run(i, a, k):
        fx = i.ctx.effects
        if name in ("read", "seek", "tell", "readinto") and "r" in o.mode:
            if o.stream is None:
                fs = i.ctx.__dict__.get("files", {})
                if _pkey(o.path) not in fs:
                    MISSING_FILE(o.path)
                o.stream = Stream(fs[_pkey(o.path)])
            return i.call(_stream_method(i, o.stream, name), a, k)
        if name == "write":
            b = i.bytesish(a[0])
            if b is None:
                if isinstance(a[0], (str, Term)):
                    i.raise_("TypeError", "a bytes-like object is required")
                i.raise_("TypeError", "a bytes-like object is required")
            return _fwrite(i, o, b)
        if name == "writelines":
            for x in i.iterate(a[0]):
                _fwrite(i, o, i.bytesish(x))
            return None
        if name == "close":
            o.closed = True
            fx.append(("close", o.path))
            return None
        if name == "flush":
            return None
        if name == "fileno":
            return 3
        if name in ("seek", "truncate", "tell"):
            if o.stream is None:
                o.stream = Stream(b"")
            r = i.call(_stream_method(i, o.stream, name), a, k)
            if name == "truncate":
                fx.append(("write", o.path, b"", o.mode))
                i.ctx.files[_pkey(o.path)] = o.stream.data
            return r
        raise Unsupported(f"file.{name}")

    return it.native(name, run)


def _fwrite(i, o, b):
    if b is None:
        raise Unsupported("write of unknown data")
    if "b" not in o.mode:
        i.raise_("TypeError", "write() argument must be str, not bytes")
    if not any(c in o.mode for c in "wax+"):
        i.raise_("ValueError", "not writable")
    if o.stream is None:
        fs = i.ctx.__dict__.setdefault("files", {})
        o.stream = Stream(fs.get(_pkey(o.path), b"") if o.mode[0] in "ra" else b"")
        if o.mode[0] == "a":
            o.stream.pos = len(o.stream.data)
    i.ctx.effects.append(("write", o.path, norm_bytes(to_abytes(b)), o.mode))
    n = o.stream.write(b)
    i.ctx.__dict__.setdefault("files", {})[_pkey(o.path)] = o.stream.data
    return n


def MISSING_FILE(p):
    raise Unsupported(f"content of {show(p)} is not given")


def _pkey(p):
    if isinstance(p, PathVal):
        return _pkey(p.p)
    return p if is_const(p) else p


def _open(it, path, mode):
    if not isinstance(mode, str):
        raise Unsupported("unknown open mode")
    it.ctx.effects.append(("open", path.p if isinstance(path, PathVal) else path, mode, it.where()))
    if mode[0] in "wx":
        it.ctx.__dict__.setdefault("files", {})[_pkey(path)] = b""
    return FileVal(path.p if isinstance(path, PathVal) else path, mode)


def value_attr(it, o, name):
    if isinstance(o, Ext):
        return _ext_attr(it, o, name)
    if isinstance(o, Con):
        return con.con_attr(it, o, name)
    if isinstance(o, ThisExpr):
        return con.this_attr(o, name)
    if isinstance(o, VDict):
        if name in _DICT_M and not (o.attr and any(p[0] == name for p in o.pairs)):
            return _dict_method(it, o, name)
        if o.attr:
            for p in o.pairs:
                if p[0] == name:
                    return p[1]
            it.raise_("AttributeError", name)
        if name == "default_factory":
            return o.default_factory
        if name in ("__getitem__",):
            return it.native(name, lambda i, a, k: i.getitem(o, a[0]))
        if name in ("__contains__",):
            return it.native(name, lambda i, a, k: i.contains(a[0], o))
        it.raise_("AttributeError", name)
    if isinstance(o, VList):
        if name in _LIST_M:
            return _list_method(it, o, name)
        if name in ("__getitem__",):
            return it.native(name, lambda i, a, k: i.getitem(o, a[0]))
        if name in ("__iter__",):
            return it.native(name, lambda i, a, k: VIter(i.iterate(o)))
        if name in ("__len__",):
            return it.native(name, lambda i, a, k: i.len_(o))
        if name in ("__contains__",):
            return it.native(name, lambda i, a, k: i.contains(a[0], o))
        it.raise_("AttributeError", name)
    if isinstance(o, VSet):
        return _set_method(it, o, name)
    if isinstance(o, (bytes, ABytes, VByteArray)):
        return _bytes_method(it, o, name)
    if isinstance(o, str):
        if not hasattr("", name) and name not in ("removeprefix", "removesuffix"):
            it.raise_("AttributeError", name)
        return _str_method(it, o, name)
    if isinstance(o, (tuple, NT)):
        if name in ("index", "count"):
            return _list_method(it, VList(o if isinstance(o, tuple) else o.items), name)
        if name == "_replace" and isinstance(o, NT):
            def rep(i, a, k):
                items = list(o.items)
                for n, f in enumerate(o.cls.fields):
                    if f[0] in k:
                        items[n] = k[f[0]]
                return NT(o.cls, items)
            return it.native(name, rep)
        if name == "_asdict" and isinstance(o, NT):
            return it.native(name, lambda i, a, k: VDict([(f[0], x) for f, x in zip(o.cls.fields, o.items)]))
        if name == "_fields" and isinstance(o, NT):
            return tuple(f[0] for f in o.cls.fields)
        it.raise_("AttributeError", name)
    if isinstance(o, bool) or isinstance(o, (int, float)):
        return _num_attr(it, o, name)
    if isinstance(o, VSlice):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        if name == "indices":
            return it.native(name, lambda i, a, k: tuple(i.slice_bounds(o, a[0])))
        it.raise_("AttributeError", name)
    if isinstance(o, VRange):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        if name in ("index", "count"):
            return _list_method(it, VList(list(it.iterate(o))), name)
        it.raise_("AttributeError", name)
    if isinstance(o, ExcVal):
        if name == "args":
            return tuple(o.args)
        if name in o.attrs:
            return o.attrs[name]
        if isinstance(o.cls, ClassVal):
            d = it.find_attr(o.cls, name)
            if d is not None:
                return it._desc_get(d, o, o.cls)
        if name == "with_traceback":
            return it.native(name, lambda i, a, k: o)
        it.raise_("AttributeError", name)
    if isinstance(o, Stream):
        return _stream_method(it, o, name)
    if isinstance(o, FileVal):
        if name in ("name",):
            return o.path
        if name == "mode":
            return o.mode
        if name == "closed":
            return o.closed
        return _file_method(it, o, name)
    if isinstance(o, PathVal):
        return _path_attr(it, o, name)
    if isinstance(o, StructFmt):
        if name == "size":
            return o.size
        if name == "format":
            return o.fmt
        if name == "unpack":
            return it.native(name, lambda i, a, k: o.unpack(i, a[0]))
        if name == "unpack_from":
            return it.native(name, lambda i, a, k: o.unpack_from(i, a[0], a[1] if len(a) > 1 else k.get("offset", 0)))
        if name == "pack":
            return it.native(name, lambda i, a, k: o.pack(i, a))
        it.raise_("AttributeError", name)
    if isinstance(o, Term):
        return _term_attr(it, o, name)
    if isinstance(o, VIter):
        if name == "__next__":
            return it.native(name, lambda i, a, k: _next(i, o))
        if name == "__iter__":
            return it.native(name, lambda i, a, k: o)
        if name == "close":
            return it.native(name, lambda i, a, k: None)
        it.raise_("AttributeError", name)
    if isinstance(o, SymSeq):
        if name == "append":
            def app(i, a, k):
                i.len_(o)
                o.items.append(a[0])
            return it.native(name, app)
        it.len_(o)
        return _list_method(it, o, name)
    if isinstance(o, ConEnumStr):
        return _str_method(it, o.s, name)
    if o is None:
        it.raise_("AttributeError", f"'NoneType' object has no attribute '{name}'")
    if o is NotImplemented:
        it.raise_("AttributeError", name)
    if isinstance(o, SuppressVal):
        it.raise_("AttributeError", name)
    it.raise_("AttributeError", name)


def _num_attr(it, o, name):
    if name == "to_bytes":
        return it.native(name, lambda i, a, k: _to_bytes(i, o, a, k))
    if name == "bit_length":
        return it.native(name, lambda i, a, k: int(o).bit_length())
    if name in ("real", "numerator"):
        return o
    if name == "imag":
        return 0
    if name == "is_integer" and isinstance(o, float):
        return it.native(name, lambda i, a, k: o.is_integer())
    if name == "as_integer_ratio":
        return it.native(name, lambda i, a, k: o.as_integer_ratio())
    if name == "__class__":
        return Ext("builtins." + type(o).__name__)
    if name.startswith("__") and hasattr(o, name):
        def dun(i, a, k):
            from .interp import _DUNDER
            inv = {f"__{v}__": kk for kk, v in _DUNDER.items()}
            if name in inv:
                return i.binop(inv[name], o, a[0])
            raise Unsupported(name)
        return it.native(name, dun)
    it.raise_("AttributeError", name)


def _to_bytes(it, o, a, k):
    n = a[0] if a else k.get("length", 1)
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    signed = k.get("signed", False)
    if not isinstance(n, int) or not isinstance(order, str):
        raise Unsupported("to_bytes")
    kind = ("s" if signed else "u") + ("b" if order == "big" and n > 1 else "")
    try:
        return norm_bytes(to_abytes(con.enc(it, n, kind, o)))
    except PyRaise as e:
        if isinstance(e.exc.cls, Ext) and e.exc.cls.path == "construct.FormatFieldError":
            it.raise_("OverflowError", "int too big to convert")
        raise


def _path_attr(it, o, name):
    if name in ("open",):
        return it.native(name, lambda i, a, k: _open(i, o, a[0] if a else k.get("mode", "r")))
    if name == "read_bytes":
        def rb(i, a, k):
            f = _open(i, o, "rb")
            return i.call(_file_method(i, f, "read"), [])
        return it.native(name, rb)
    if name == "write_bytes":
        def wb(i, a, k):
            f = _open(i, o, "wb")
            return i.call(_file_method(i, f, "write"), a)
        return it.native(name, wb)
    if name in ("name", "stem", "suffix", "parent", "parts", "anchor"):
        p = o.p
        if isinstance(p, str):
            import pathlib
            q = pathlib.PurePosixPath(p)
            r = getattr(q, name)
            return PathVal(str(r)) if name == "parent" else r
        t = Term("path." + name, (p,), "str")
        return PathVal(t) if name == "parent" else t
    if name in ("with_suffix", "with_name", "joinpath", "resolve", "absolute", "expanduser", "with_stem"):
        return it.native(name, lambda i, a, k: PathVal(Term("path." + name, (o.p, *a), "str")))
    if name in ("exists", "is_file", "is_dir"):
        return it.native(name, lambda i, a, k: Term("fs." + name, (o.p,), "bool"))
    if name in ("unlink", "rename", "replace", "mkdir", "touch", "rmdir", "write_text", "symlink_to"):
        def eff(i, a, k):
            i.ctx.effects.append((name, o.p, tuple(x.p if isinstance(x, PathVal) else x for x in a), i.where()))
            return None
        return it.native(name, eff)
    if name == "__fspath__":
        return it.native(name, lambda i, a, k: o.p)
    it.raise_("AttributeError", name)


def _term_attr(it, o, name):
    if o.op in ("enum", "flag"):
        cls = o.args[0]
        if name in ("value", "_value_"):
            return o.args[1]
        if name == "name":
            return Term("enumname", (cls, o.args[1]), "str")
        if name == "__class__":
            return cls
        d = it.find_attr(cls, name)
        if d is not None and not isinstance(d, EnumMember):
            return it._desc_get(d, o, cls)
    r = it.ctx.resolve(o)
    if r is not o:
        return it._getattr(r, name)
    if o.ty == "str":
        if not hasattr("", name) and name not in ("removeprefix", "removesuffix"):
            it.raise_("AttributeError", name)
        return _str_method(it, o, name)
    if o.ty in NUM_TY:
        if name == "to_bytes":
            return it.native(name, lambda i, a, k: _to_bytes(i, o, a, k))
        if name == "is_integer":
            return it.native(name, lambda i, a, k: mk_cmp("eq", o, Term("floor", (o,), "int")))
        if name in ("real", "numerator"):
            return o
        if name == "bit_length":
            return it.native(name, lambda i, a, k: Term("bit_length", (o,), "int"))
        it.raise_("AttributeError", name)
    if o.op.startswith("call:") or o.op in ("add", "sub", "attr", "mul", "div"):
        if name in ("total_seconds", "timestamp", "isoformat", "date", "time", "replace", "strftime", "toordinal"):
            return it.native(name, lambda i, a, k: Term("call:." + name, (o, *a), "float" if name in ("total_seconds", "timestamp") else None))
        return Term("attr", (o, name), None)
    if o.op == "item" and o.ty is None or o.ty in (None, "any"):
        if name in _NAT_STR | {"split", "join", "encode", "format", "partition"}:
            return _str_method(it, Term(o.op, o.args, "str"), name)
    if o.ty == "list":
        return value_attr(it, it.term_seq(o), name)
    raise Unsupported(f"attribute {name} of {show(o)}")


def _ext_attr(it, o, name):
    p = o.path
    if p == "builtins.int":
        if name == "from_bytes":
            return it.native(name, _int_from_bytes)
        if name == "__new__":
            def new(i, a, k):
                c = a[0]
                v = a[1] if len(a) > 1 else 0
                if isinstance(c, ClassVal) and c.kind in ENUM_KINDS:
                    w = i.intish(v)
                    return EnumMember(c, None, w if w is not None else v)
                raise Unsupported("int.__new__")
            return it.native(name, new)
    if p == "builtins.object":
        if name == "__new__":
            return it.native(name, lambda i, a, k: _object_new(i, a[0]) if not (isinstance(a[0], ClassVal) and a[0].kind in ENUM_KINDS) else EnumMember(a[0], None, MISSING))
        if name == "__setattr__":
            def osa(i, a, k):
                a[0].attrs[a[1]] = a[2]
            return it.native(name, osa)
        if name == "__getattribute__":
            return it.native(name, lambda i, a, k: i.getattr(a[0], a[1]))
        if name == "__init__":
            return it.native(name, lambda i, a, k: None)
    if p in ("builtins.tuple", "builtins.float", "builtins.str") and name == "__new__":
        def tnew(i, a, k):
            if isinstance(a[0], ClassVal) and a[0].kind == "namedtuple":
                return NT(a[0], list(i.iterate(a[1])))
            raise Unsupported(f"{p}.__new__")
        return it.native(name, tnew)
    if p == "builtins.dict" and name == "fromkeys":
        return it.native(name, lambda i, a, k: VDict([(x, a[1] if len(a) > 1 else None) for x in i.iterate(a[0])]))
    if p == "builtins.str":
        if name == "maketrans":
            raise Unsupported("str.maketrans")
        if name in ("join", "rstrip", "strip", "lower", "upper", "encode", "split", "startswith", "endswith", "isdigit", "lstrip", "format"):
            return it.native(name, lambda i, a, k: i.call(value_attr(i, a[0], name), a[1:], k))
    if p == "builtins.bytes" and name in ("join", "decode", "rstrip"):
        return it.native(name, lambda i, a, k: i.call(value_attr(i, a[0], name), a[1:], k))
    if p == "builtins.bytes" and name == "fromhex":
        return it.native(name, lambda i, a, k: bytes.fromhex(a[0]))
    if p == "enum.EnumMeta" or p == "enum.EnumType" or p == "builtins.type":
        if name in ("__call__", "__contains__", "__iter__", "__getitem__"):
            def mm(i, a, k):
                c = a[0]
                if name == "__call__":
                    if c.kind in ENUM_KINDS:
                        return enum_call(i, c, a[1:], k)
                    raise Unsupported("type.__call__")
                if name == "__contains__":
                    return i.or_([i.eq(a[1], m) for m in c.members])
                raise Unsupported(name)
            return it.native(name, mm)
    if p == "itertools.chain" and name == "from_iterable":
        return it.native(name, lambda i, a, k: VIter(x for s in i.iterate(a[0]) for x in i.iterate(s)))
    if p == "pathlib.Path" and name in ("cwd", "home"):
        return it.native(name, lambda i, a, k: PathVal(Term("path." + name, (), "str")))
    if name == "__name__":
        return p.split(".")[-1]
    if name == "__doc__":
        return None
    if name == "__mro__":
        return (o,)
    if name == "__subclasses__":
        raise Unsupported("__subclasses__ of a library class")
    if p.startswith("builtins."):
        import builtins as _b
        t = getattr(_b, p[9:], None)
        if isinstance(t, type):
            if not hasattr(t, name):
                it.raise_("AttributeError", name)
            def um(i, a, k):
                return i.call(i.getattr(a[0], name), a[1:], k)
            return it.native(name, um)
    return path_value(it, f"{p}.{name}")


def _int_from_bytes(it, a, k):
    b = it.bytesish(a[0])
    if b is None:
        b = make_bytes(it, a[0])
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    signed = k.get("signed", False)
    if not len(b):
        return 0
    kind = ("s" if signed else "u") + ("b" if order == "big" and len(b) > 1 else "")
    return con.rd_value(it, to_abytes(b), kind, len(b))


def value_getitem(it, o, k):
    if isinstance(o, Con):
        return con.Array_(k, o)
    if isinstance(o, ThisExpr):
        return con.this_item(o, k)
    if isinstance(o, ConEnumStr):
        return it.getitem(o.s, k)
    return MISSING


def instance_getitem(it, o, k):
    if con.is_adapter_class(it, o.cls):
        return con.Array_(k, con.as_con(it, o))
    return MISSING


def call_value(it, f, args, kw):
    if isinstance(f, Con):
        return MISSING
    return MISSING


def binop_hook(it, op, a, b):
    if isinstance(a, ThisExpr) or isinstance(b, ThisExpr):
        return con.this_bin(op, a, b)
    if op == "div" and isinstance(a, str) and con.maybe_con(it, b):
        return con.Renamed(con.as_con(it, b), a)
    if op == "mul" and con.maybe_con(it, a) and isinstance(b, (str, FuncVal)):
        return a
    if op == "mul" and con.maybe_con(it, b) and isinstance(a, str):
        return b
    if op == "div" and isinstance(a, PathVal):
        return PathVal(Term("path.join", (a.p, b), "str"))
    if isinstance(a, (ClassVal, Ext, Alias)) and op == "bitor" and (isinstance(b, (ClassVal, Ext, Alias)) or b is None):
        return (a, b)  # X | Y type union
    return MISSING


def compare_hook(it, op, a, b):
    if isinstance(a, ThisExpr) or isinstance(b, ThisExpr):
        return con.this_cmp(op, a, b)
    if isinstance(a, ConEnumStr) or isinstance(b, ConEnumStr):
        x = a if isinstance(a, ConEnumStr) else b
        y = b if x is a else a
        if isinstance(y, ConEnumStr):
            y = y.s
        if isinstance(y, str) and op in ("eq", "ne"):
            return (x.s == y) == (op == "eq")
        if op in ("eq", "ne"):
            return op == "ne"
    if isinstance(a, VSet) and isinstance(b, VSet):
        sub = all(it.truth(it.contains(x, b)) for x in a.items)
        sup = all(it.truth(it.contains(x, a)) for x in b.items)
        return {"eq": sub and sup, "ne": not (sub and sup), "le": sub, "ge": sup, "lt": sub and not sup, "gt": sup and not sub}[op]
    return MISSING


# --------------------------------------------------------------------------- calls
def builtin(it, name):
    if name in it.ext_override:
        return it.ext_override[name]
    if name == "NotImplemented":
        return NotImplemented
    if name == "Ellipsis":
        return Ellipsis
    if name == "__debug__":
        return True
    if name == "_set_instance_attr":
        def sia(i, a, k):
            a[0].attrs[a[1]] = a[2]
        return it.native(name, sia)
    import builtins as _b
    if hasattr(_b, name):
        return Ext("builtins." + name)
    it.raise_("NameError", name)


def str_(it, v):
    v = it.ctx.resolve(v)
    if isinstance(v, str):
        return v
    if isinstance(v, ConEnumStr):
        return v.s
    if isinstance(v, (int, float, bool)) or v is None:
        return str(v)
    if isinstance(v, Term):
        if v.ty == "str":
            return v
        return Term("str", (v,), "str")
    if isinstance(v, (Instance, EnumMember, NT)):
        f = it.find_attr(v.cls, "__str__")
        if f is not None:
            return it.call(Bound(f, v), [])
        if isinstance(v, EnumMember):
            return f"{v.cls.name}.{v.name}"
    if isinstance(v, ExcVal):
        if len(v.args) == 1:
            return str_(it, v.args[0])
    if isinstance(v, PathVal):
        return v.p
    return repr_(it, v)


def repr_(it, v):
    v = it.ctx.resolve(v)
    if is_const(v):
        return repr(v)
    if isinstance(v, (Instance, EnumMember, NT)):
        f = it.find_attr(v.cls, "__repr__")
        if f is not None:
            return it.call(Bound(f, v), [])
        if isinstance(v, EnumMember):
            return f"<{v.cls.name}.{v.name}: {v.value}>"
        if isinstance(v, NT):
            return mk_concat([v.cls.name + "("] + [y for n, x in enumerate(v.items) for y in ((", " if n else "") + v.cls.fields[n][0] + "=", repr_(it, x))] + [")"])
        return f"<{v.cls.name} object>"
    if isinstance(v, (VList, tuple)):
        items = v if isinstance(v, tuple) else v.items
        return mk_concat(["["] + [repr_(it, x) for x in items] + ["]"])
    if isinstance(v, Term):
        return Term("repr", (v,), "str")
    if isinstance(v, (ClassVal,)):
        return f"<class '{v.name}'>"
    if isinstance(v, Ext):
        return f"<class '{v.path}'>"
    return Term("repr", (repr(v),), "str")


def join_str(it, parts):
    return mk_concat([p if isinstance(p, (str, Term)) else str_(it, p) for p in parts])


def make_bytes(it, v):
    if isinstance(v, (bytes, ABytes)):
        return v
    if isinstance(v, VByteArray):
        return v.data
    if isinstance(v, (Instance, NT, EnumMember)):
        f = it.find_attr(v.cls, "__bytes__")
        if f is not None:
            r = it.call(Bound(f, v), [])
            if it.bytesish(r) is None:
                it.raise_("TypeError", "__bytes__ returned non-bytes")
            return r
    w = it.intish(it.ctx.resolve(v)) if not isinstance(v, (VList, tuple)) else None
    if isinstance(w, bool) or isinstance(w, int):
        if w < 0:
            it.raise_("ValueError", "negative count")
        if int(w) > 1 << 24:
            it.raise_("OverflowError", "cannot fit int into an index-sized integer")
        return b"\0" * int(w)
    if isinstance(w, Term):
        raise Unsupported("bytes(n) of unknown n")
    if isinstance(v, str) or isinstance(v, Term) and v.ty == "str":
        it.raise_("TypeError", "string argument without an encoding")
    segs = []
    for x in it.iterate(v):
        x = it.ctx.resolve(x)
        xi = it.intish(x)
        if xi is None or isinstance(xi, float) or isinstance(xi, Term) and xi.ty == "float":
            it.raise_("TypeError", "cannot be interpreted as an integer")
        try:
            segs.extend(to_abytes(con.enc(it, 1, "u", x)).segs)
        except PyRaise as e:
            if isinstance(e.exc.cls, Ext) and e.exc.cls.path == "construct.FormatFieldError":
                it.raise_("ValueError", "bytes must be in range(0, 256)")
            raise
    return norm_bytes(ABytes(segs))


def _next(it, o, default=MISSING):
    if isinstance(o, VIter):
        try:
            return next(o.it)
        except StopIteration:
            if default is not MISSING:
                return default
            it.raise_("StopIteration")
    if isinstance(o, Instance):
        try:
            return it.call(it.getattr(o, "__next__"), [])
        except PyRaise as e:
            if default is not MISSING and Ext("builtins.StopIteration") in it.exc_classes(e.exc.cls):
                return default
            raise
    it.raise_("TypeError", "not an iterator")


_PYTYPE = {
    "int": (int,), "float": (float,), "str": (str,), "bool": (bool,), "bytes": (bytes,),
}


def isinstance_(it, v, cls):
    if isinstance(cls, tuple):
        for c in cls:
            if it.truth(isinstance_(it, v, c)):
                return True
        return False
    if isinstance(cls, Alias):
        cls = cls.origin
    if cls is None:
        return v is None
    v = it.ctx.resolve(v)
    if isinstance(cls, ClassVal):
        if isinstance(v, (Instance, NT, ExcVal, EnumMember)):
            c = v.cls
            if isinstance(c, ClassVal) and it.is_subclass(c, cls):
                return True
            if cls.dc.get("protocol"):
                return _proto(it, v, cls)
            return False
        if isinstance(v, Term) and v.op in ("enum", "flag"):
            return it.is_subclass(v.args[0], cls)
        if isinstance(v, Term) and v.ty in (None, "any"):
            if cls.dc.get("protocol"):
                return False
            raise Unsupported(f"isinstance of {show(v)}")
        if cls.dc.get("protocol") and isinstance(v, ClassVal):
            return _proto(it, v, cls)
        if cls.name in ("UserList", "UserDict", "SortedList"):
            return False
        return False
    if not isinstance(cls, Ext):
        it.raise_("TypeError", "isinstance() arg 2 must be a type")
    n = cls.path
    if n.startswith("builtins."):
        n = n[9:]
        if n == "object":
            return True
        if n in BUILTIN_EXC_NAMES:
            return isinstance(v, ExcVal) and cls in it.exc_classes(v.cls)
        if isinstance(v, EnumMember):
            if n == "int":
                return v.cls.kind in ("intenum", "intflag", "ctenum")
            if n == "str":
                return isinstance(v.value, str) and Ext("builtins.str") in it.mro(v.cls)
            return False
        if isinstance(v, ConEnumStr):
            return n == "str"
        if isinstance(v, Term):
            if v.op in ("enum", "flag"):
                return n == "int" and v.args[0].kind in ("intenum", "intflag", "ctenum")
            ty = v.ty
            if ty in (None, "any"):
                raise Unsupported(f"isinstance({show(v)}, {n})")
            if n == "int":
                if ty == "num":
                    raise Unsupported("int or float?")
                return ty in ("int", "byte", "bool", "flag")
            if n == "float":
                if ty == "num":
                    raise Unsupported("int or float?")
                return ty == "float"
            return ty == n
        if n in _PYTYPE:
            if n == "bytes" and isinstance(v, ABytes):
                return True
            if n == "int":
                return isinstance(v, int)
            return isinstance(v, _PYTYPE[n])
        if n == "list":
            return isinstance(v, (VList, SymSeq))
        if n == "dict":
            return isinstance(v, VDict)
        if n == "tuple":
            return isinstance(v, (tuple, NT))
        if n == "set":
            return isinstance(v, VSet) and not v.frozen
        if n == "frozenset":
            return isinstance(v, VSet) and v.frozen
        if n == "bytearray":
            return isinstance(v, VByteArray)
        if n == "slice":
            return isinstance(v, VSlice)
        if n == "range":
            return isinstance(v, VRange)
        if n == "type":
            return isinstance(v, ClassVal) or isinstance(v, Ext)
        if n == "property":
            return isinstance(v, PropVal)
        if n == "memoryview":
            return False
        raise Unsupported(f"isinstance with {n}")
    if isinstance(v, (Instance, NT, EnumMember)):
        mro = it.mro(v.cls)
        if cls in mro:
            return True
        if n in ("enum.Enum",):
            return isinstance(v, EnumMember)
        if n in ("enum.IntEnum",):
            return isinstance(v, EnumMember) and v.cls.kind in ("intenum", "ctenum")
        if n in ("enum.IntFlag", "enum.Flag"):
            return isinstance(v, EnumMember) and v.cls.kind in ("intflag", "flag")
        if n.startswith(("typing.", "collections.abc.")):
            return _abc(it, v, n.split(".")[-1])
        return False
    if isinstance(v, ExcVal):
        return cls in it.exc_classes(v.cls)
    last = n.split(".")[-1]
    if n.startswith(("typing.", "collections.abc.", "numbers.")):
        return _abc(it, v, last)
    if isinstance(v, Term):
        if v.op in ("enum", "flag"):
            k = v.args[0].kind
            return n == "enum.Enum" or n in ("enum.IntFlag", "enum.Flag") and k in ("flag", "intflag") or n in ("enum.IntEnum", "construct_typed.EnumBase") and k in ("intenum", "ctenum")
        if v.op.startswith("call:" + n):
            return True
        if v.ty in (None, "any"):
            raise Unsupported(f"isinstance({show(v)}, {n})")
        return False
    if n in ("pathlib.Path", "pathlib.PurePath", "os.PathLike"):
        return isinstance(v, PathVal)
    if n == "construct.Container":
        return isinstance(v, VDict) and v.attr
    if n == "construct.ListContainer":
        return isinstance(v, VList) and v.tag == "ListContainer"
    if n == "construct.Construct":
        return isinstance(v, Con)
    if n == "io.BytesIO":
        return isinstance(v, Stream)
    return False


BUILTIN_EXC_NAMES = set()


def _init_exc_names():
    from .interp import BUILTIN_EXC
    BUILTIN_EXC_NAMES.update(BUILTIN_EXC)


def _proto(it, v, cls):
    need = []
    for c in it.mro(cls):
        if isinstance(c, ClassVal) and c.dc.get("protocol"):
            need += [n for n, _ in c.annotations] + [n for n in c.ns if n != "__module__" and isinstance(c.ns[n], (FuncVal, PropVal))]
    vc = v if isinstance(v, ClassVal) else v.cls
    for n in need:
        if it.find_attr(vc, n) is None and not (isinstance(v, Instance) and n in v.attrs):
            return False
    return True


def _abc(it, v, n):
    has = lambda m: isinstance(v, (Instance, NT)) and it.find_attr(v.cls, m) is not None
    if n == "Iterable":
        return isinstance(v, (str, bytes, ABytes, tuple, VList, VDict, VSet, VIter, SymSeq, NT, VRange, VByteArray)) or has("__iter__") or isinstance(v, Term) and v.ty == "str"
    if n in ("Sequence", "MutableSequence"):
        return isinstance(v, (VList, SymSeq)) or n == "Sequence" and isinstance(v, (str, bytes, tuple, NT, VRange)) or isinstance(v, Term) and v.ty == "str" and n == "Sequence" or isinstance(v, Instance) and any(isinstance(c, ClassVal) and c.name == "UserList" for c in it.mro(v.cls))
    if n in ("Mapping", "MutableMapping"):
        return isinstance(v, VDict) or isinstance(v, Instance) and any(isinstance(c, ClassVal) and c.name == "UserDict" for c in it.mro(v.cls))
    if n in ("Number", "Real"):
        return isinstance(v, (int, float)) or isinstance(v, Term) and v.ty in NUM_TY
    if n in ("Integral", "SupportsIndex", "SupportsInt"):
        return isinstance(v, int) or isinstance(v, Term) and v.ty in ("int", "byte", "bool")
    if n == "Callable":
        return isinstance(v, (FuncVal, Bound, ClassVal)) or has("__call__")
    if n == "Hashable":
        return True
    if n in ("Iterator", "Generator"):
        return isinstance(v, VIter)
    if n == "Sized":
        return isinstance(v, (str, bytes, tuple, VList, VDict, VSet)) or has("__len__")
    return False


class SuppressVal:
    def __init__(self, excs):
        self.excs = excs


def enter(it, m):
    if isinstance(m, (FileVal, Stream)):
        return m
    if isinstance(m, SuppressVal):
        return None
    if isinstance(m, Instance):
        return it.call(it.getattr(m, "__enter__"), [])
    if isinstance(m, Term) and m.op.startswith("call:warnings"):
        return m
    raise Unsupported("context manager")


def exit(it, m, exc):
    if isinstance(m, FileVal):
        m.closed = True
        it.ctx.effects.append(("close", m.path))
        return False
    if isinstance(m, Stream):
        return False
    if isinstance(m, SuppressVal):
        return exc is not None and any(it.exc_matches(exc, e) for e in m.excs)
    if isinstance(m, Instance):
        r = it.call(it.getattr(m, "__exit__"), [exc.cls if exc else None, exc, None])
        return exc is not None and it.truth(r)
    return False


def _type_of(it, v):
    v = it.ctx.resolve(v)
    if isinstance(v, (Instance, NT, EnumMember, ExcVal)):
        return v.cls
    if isinstance(v, ClassVal):
        return v.meta or Ext("builtins.type")
    if isinstance(v, Term):
        if v.op in ("enum", "flag"):
            return v.args[0]
        if v.ty in ("int", "str", "float", "bool", "bytes"):
            return Ext("builtins." + v.ty)
        raise Unsupported(f"type of {show(v)}")
    if isinstance(v, (bool, int, float, str, bytes)) or v is None:
        return Ext("builtins." + type(v).__name__)
    m = {VList: "list", VDict: "dict", VSet: "set", VByteArray: "bytearray", ABytes: "bytes", tuple: "tuple", VSlice: "slice", VRange: "range"}
    for k, n in m.items():
        if isinstance(v, k):
            return Ext("builtins." + n)
    raise Unsupported(f"type of {v!r}")


def _to_int(it, a, k):
    if not a:
        return 0
    v = it.ctx.resolve(a[0])
    if isinstance(v, (EnumMember,)) or isinstance(v, Term) and v.op in ("enum", "flag"):
        w = it.intish(v)
        if w is not None:
            return w
    if isinstance(v, (Instance, NT)):
        f = it.find_attr(v.cls, "__int__") or it.find_attr(v.cls, "__index__")
        if f is not None:
            return it.call(Bound(f, v), [])
        it.raise_("TypeError", "int() argument")
    if is_const(v):
        try:
            return int(v, *[x for x in a[1:]], **k)
        except ValueError as e:
            it.raise_("ValueError", str(e))
        except TypeError as e:
            it.raise_("TypeError", str(e))
        except OverflowError as e:
            it.raise_("OverflowError", str(e))
    if isinstance(v, Term):
        if v.ty in ("int", "byte"):
            return v
        if v.ty == "bool":
            return Term("int", (v,), "int")
        if v.ty == "float" or v.ty == "num":
            if v.op == "float" and isinstance(v.args[0], Term) and v.args[0].ty in ("int", "byte", "bool"):
                return v.args[0]
            return mk_int(v)
        if v.op == "str" and isinstance(v.args[0], Term) and v.args[0].ty in ("int", "byte") and len(a) == 1:
            return v.args[0]
        if v.ty == "str" or v.op == "item":
            if it.ctx.choose(2, [f"{show(v)} is a number", f"{show(v)} is not a number"]) == 1:
                it.raise_("ValueError", "invalid literal for int()")
            return Term("int", (v,), "int")
        raise Unsupported(f"int({show(v)})")
    it.raise_("TypeError", "int() argument")


def _minmax(it, name, a, k):
    items = list(it.iterate(a[0])) if len(a) == 1 else a
    if not items:
        if "default" in k:
            return k["default"]
        it.raise_("ValueError", "empty sequence")
    key = k.get("key")
    nums = [it.intish(it.ctx.resolve(x)) for x in items]
    if key is None and all(n is not None for n in nums):
        consts = [n for n in nums if not isinstance(n, Term)]
        terms = [n for n in nums if isinstance(n, Term)]
        if not terms:
            return (min if name == "min" else max)(items if not any(isinstance(x, (EnumMember, Term)) for x in items) else nums)
        tys = {("float" if isinstance(n, float) else "int") if not isinstance(n, Term) else n.ty for n in nums}
        if len(items) == 2 and len(terms) == 1 and isinstance(consts[0], int) and terms[0].ty in ("int", "byte"):
            b = bounds(terms[0])
            if b is not None:
                if name == "min" and b[1] <= consts[0] or name == "max" and b[0] >= consts[0]:
                    return terms[0]
                if name == "min" and b[0] >= consts[0] or name == "max" and b[1] <= consts[0]:
                    return consts[0]
        ty = "int" if tys <= {"int", "byte", "bool"} else "float" if tys <= {"float"} else "num"
        return Term(name, tuple(nums), ty)
    best = items[0]
    bk = it.call(key, [best]) if key is not None else best
    for x in items[1:]:
        xk = it.call(key, [x]) if key is not None else x
        if it.truth(it.compare("lt" if name == "min" else "gt", xk, bk)):
            best, bk = x, xk
    return best


def call_builtin(it, n, a, k):
    from .interp import BUILTIN_EXC
    if n in BUILTIN_EXC:
        return ExcVal(Ext("builtins." + n), tuple(a))
    if n == "int":
        return _to_int(it, a, k)
    if n == "float":
        if not a:
            return 0.0
        v = it.ctx.resolve(a[0])
        w = it.intish(v)
        if isinstance(w, (int, float)):
            return float(w)
        if isinstance(w, Term):
            return w if w.ty == "float" else Term("float", (w,), "float")
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError as e:
                it.raise_("ValueError", str(e))
        if isinstance(v, Term):
            return Term("float", (v,), "float")
        it.raise_("TypeError", "float() argument")
    if n == "str":
        if not a:
            return ""
        if len(a) > 1 or k:
            return con.decode_text(it, it.bytesish(a[0]), a[1] if len(a) > 1 else k["encoding"])
        return str_(it, a[0])
    if n == "repr" or n == "ascii":
        return repr_(it, a[0])
    if n == "bool":
        if not a:
            return False
        v = it.ctx.resolve(a[0])
        if isinstance(v, Term):
            if v.ty == "bool":
                return v
            w = it.intish(v)
            if isinstance(w, Term) and w.ty in ("int", "byte", "flag"):
                return mk_not(mk_cmp("eq", w, 0))
            if isinstance(w, Term) and w.ty == "float":
                return mk_not(mk_cmp("eq", w, 0.0))
        return it.truth(v)
    if n == "bytes":
        if not a:
            return b""
        if len(a) > 1 or "encoding" in k:
            return con.encode_text(it, a[0], a[1] if len(a) > 1 else k["encoding"])
        return make_bytes(it, a[0])
    if n == "bytearray":
        return VByteArray(make_bytes(it, a[0]) if a else b"")
    if n == "memoryview":
        return it.bytesish(a[0])
    if n == "list":
        return VList(list(it.iterate(a[0])) if a else [])
    if n == "tuple":
        return tuple(it.iterate(a[0])) if a else ()
    if n == "set" or n == "frozenset":
        return it.make_set(list(it.iterate(a[0])) if a else [], n == "frozenset")
    if n == "dict":
        d = VDict()
        if a:
            src = a[0]
            if isinstance(src, VDict):
                for x, y in src.pairs:
                    it.dict_set(d, x, y)
            elif isinstance(src, Instance) and it.find_attr(src.cls, "keys") is not None:
                for x in it.iterate(it.call(it.getattr(src, "keys"), [])):
                    it.dict_set(d, x, it.getitem(src, x))
            else:
                for p in it.iterate(src):
                    x, y = list(it.iterate(p))
                    it.dict_set(d, x, y)
        for x, y in k.items():
            it.dict_set(d, x, y)
        return d
    if n == "len":
        return it.len_(a[0])
    if n == "range":
        v = [it.intish(it.ctx.resolve(x)) for x in a]
        if any(x is None or isinstance(x, float) for x in v):
            it.raise_("TypeError", "range() integer argument expected")
        if len(v) == 1:
            return VRange(0, v[0])
        return VRange(*v)
    if n == "slice":
        a = list(a)
        if len(a) == 1:
            return VSlice(None, a[0], None)
        return VSlice(*(a + [None])[:3])
    if n == "enumerate":
        st = a[1] if len(a) > 1 else k.get("start", 0)
        src = it.iterate(a[0])
        def en():
            i = st
            for x in src:
                yield (i, x)
                i = it.binop("add", i, 1)
        return VIter(en(), "enumerate")
    if n == "zip":
        its = [it.iterate(x) for x in a]
        def zp():
            while True:
                row = []
                for s in its:
                    try:
                        row.append(next(s))
                    except StopIteration:
                        return
                if not its:
                    return
                yield tuple(row)
        return VIter(zp(), "zip")
    if n == "map":
        f = a[0]
        its = [it.iterate(x) for x in a[1:]]
        def mp():
            while True:
                row = []
                for s in its:
                    try:
                        row.append(next(s))
                    except StopIteration:
                        return
                yield it.call(f, row)
        return VIter(mp(), "map")
    if n == "filter":
        f = a[0]
        src = it.iterate(a[1])
        return VIter((x for x in src if it.truth(x if f is None else it.call(f, [x]))), "filter")
    if n == "sorted":
        return VList(_sorted(it, it.iterate(a[0]), k.get("key"), k.get("reverse", False)))
    if n == "reversed":
        if isinstance(a[0], Instance):
            f = it.find_attr(a[0].cls, "__reversed__")
            if f is not None:
                return it.call(Bound(f, a[0]), [])
        return VIter(iter(list(it.iterate(a[0]))[::-1]), "reversed")
    if n in ("min", "max"):
        return _minmax(it, n, a, k)
    if n == "sum":
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for x in it.iterate(a[0]):
            r = it.binop("add", r, x)
        return r
    if n == "any":
        for x in it.iterate(a[0]):
            if it.truth(x):
                return True
        return False
    if n == "all":
        for x in it.iterate(a[0]):
            if not it.truth(x):
                return False
        return True
    if n == "abs":
        v = it.intish(it.ctx.resolve(a[0]))
        if isinstance(v, Term):
            return Term("abs", (v,), v.ty)
        if v is None:
            it.raise_("TypeError", "abs")
        return abs(v)
    if n == "round":
        v = it.intish(it.ctx.resolve(a[0]))
        nd = it.ctx.resolve(a[1]) if len(a) > 1 else k.get("ndigits")
        if v is None:
            it.raise_("TypeError", "round")
        if isinstance(v, Term):
            if nd is None:
                return mk_round(v)
            return v if v.ty in ("int", "byte") and isinstance(nd, int) and nd >= 0 else Term("round", (v, nd), v.ty)
        return round(v) if nd is None else round(v, nd)
    if n == "divmod":
        return (it.binop("floordiv", a[0], a[1]), it.binop("mod", a[0], a[1]))
    if n == "pow":
        if len(a) == 2:
            return it.binop("pow", a[0], a[1])
        raise Unsupported("pow")
    if n == "isinstance":
        return isinstance_(it, a[0], a[1])
    if n == "issubclass":
        if not isinstance(a[0], (ClassVal, Ext, Alias)):
            it.raise_("TypeError", "issubclass() arg 1 must be a class")
        return it.is_subclass(a[0], a[1])
    if n == "hasattr":
        return it.getattr(a[0], a[1], MISSING2) is not MISSING2
    if n == "getattr":
        nm = it.ctx.resolve(a[1])
        if not isinstance(nm, str):
            raise Unsupported("getattr with unknown name")
        if len(a) > 2:
            return it.getattr(a[0], nm, a[2])
        return it.getattr(a[0], nm)
    if n == "setattr":
        nm = it.ctx.resolve(a[1])
        if not isinstance(nm, str):
            raise Unsupported("setattr with unknown name")
        it.setattr(a[0], nm, a[2])
        return None
    if n == "delattr":
        if isinstance(a[0], Instance) and a[1] in a[0].attrs:
            del a[0].attrs[a[1]]
            return None
        raise Unsupported("delattr")
    if n == "iter":
        if len(a) == 2:
            def ic():
                while True:
                    v = it.call(a[0], [])
                    if it.truth(it.eq(v, a[1])):
                        return
                    yield v
            return VIter(ic(), "iter")
        return a[0] if isinstance(a[0], VIter) else VIter(it.iterate(a[0]), "iter")
    if n == "next":
        return _next(it, a[0], a[1] if len(a) > 1 else MISSING)
    if n == "print":
        return None
    if n == "type":
        if len(a) == 1:
            return _type_of(it, a[0])
        raise Unsupported("type() with three arguments")
    if n == "super":
        return SuperVal(a[0], a[1])
    if n == "id":
        return Term("id", (id(a[0]),), "int")
    if n == "hash":
        return Term("hash", (a[0] if is_const(a[0]) or isinstance(a[0], Term) else id(a[0]),), "int")
    if n == "callable":
        return isinstance(a[0], (FuncVal, Bound, ClassVal, Alias, Ext)) or isinstance(a[0], Instance) and it.find_attr(a[0].cls, "__call__") is not None
    if n == "ord":
        v = it.ctx.resolve(a[0])
        return ord(v) if isinstance(v, (str, bytes)) else Term("ord", (v,), "int")
    if n == "chr":
        v = it.ctx.resolve(a[0])
        return chr(v) if isinstance(v, int) else Term("chr", (v,), "str")
    if n == "open":
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        return _open(it, a[0], mode)
    if n == "property":
        return PropVal(*a, **k)
    if n == "staticmethod":
        return StaticVal(a[0])
    if n == "classmethod":
        return ClassMethodVal(a[0])
    if n == "object":
        return Instance(OBJECT_CLS)
    if n == "vars":
        if isinstance(a[0], ClassVal):
            return VDict([(x, y) for x, y in a[0].ns.items()])
        if isinstance(a[0], Instance):
            return VDict([(x, y) for x, y in a[0].attrs.items()])
        raise Unsupported("vars")
    if n == "dir":
        raise Unsupported("dir")
    if n == "format":
        v = a[0]
        if is_const(v):
            return format(v, a[1] if len(a) > 1 else "")
        return Term("fmt", (v, a[1] if len(a) > 1 else ""), "str")
    if n in ("hex", "bin", "oct"):
        if isinstance(a[0], int):
            return {"hex": hex, "bin": bin, "oct": oct}[n](a[0])
        return Term(n, (a[0],), "str")
    if n == "input":
        raise Unsupported("input")
    if n == "globals":
        raise Unsupported("globals")
    raise Unsupported(f"builtin {n}")


MISSING2 = object()
OBJECT_CLS = ClassVal("object", None, (), {})

_MATH1 = {"floor": "int", "ceil": "int", "trunc": "int", "log2": "float", "exp": "float", "sqrt": "float", "log10": "float"}


def call_ext(it, path, a, kw):
    if path in it.ext_override:
        return it.call(it.ext_override[path], a, kw)
    if path.startswith("builtins."):
        return call_builtin(it, path[9:], a, kw)
    if path.startswith("construct.") or path.startswith("construct.core."):
        r = con.call(it, path.split(".")[-1], a, kw)
        if r is not MISSING:
            return r
        raise Unsupported(f"construct call {path}")
    mod, _, name = path.rpartition(".")
    if path in EXC_BASES:
        return ExcVal(Ext(path), tuple(a))
    if mod in TYPING or mod == "types":
        if name == "cast":
            return a[1]
        if name in ("TypeVar", "ParamSpec", "NewType", "TypeVarTuple"):
            return Ext(f"typing.{name}.{a[0]}")
        if name == "NamedTuple":
            c = ClassVal(a[0], None, (), {})
            c.kind = "namedtuple"
            c.fields = [(list(it.iterate(p))[0], MISSING, None, True) for p in it.iterate(a[1])]
            return c
        if name in ("overload", "final", "runtime_checkable", "no_type_check"):
            return a[0]
        if name in ("OrderedDict", "Dict", "DefaultDict"):
            return call_builtin(it, "dict", a, kw) if name != "DefaultDict" else VDict([], a[0] if a else None)
        if name in ("List",):
            return call_builtin(it, "list", a, kw)
        if name == "MappingProxyType":
            return a[0]
        if name == "SimpleNamespace":
            return VDict([(x, y) for x, y in kw.items()], attr=True)
        if name == "assert_never":
            it.raise_("AssertionError")
        if name == "TypedDict":
            c = ClassVal(a[0], None, (), {})
            c.kind = "typeddict"
            return c
        raise Unsupported(path)
    if mod == "collections":
        if name == "defaultdict":
            d = VDict([], a[0] if a else None)
            if len(a) > 1:
                for x, y in a[1].pairs:
                    it.dict_set(d, x, y)
            return d
        if name == "OrderedDict":
            return call_builtin(it, "dict", a, kw)
        if name == "deque":
            return VList(list(it.iterate(a[0])) if a else [])
        if name == "namedtuple":
            c = ClassVal(a[0], None, (), {})
            c.kind = "namedtuple"
            names = a[1].replace(",", " ").split() if isinstance(a[1], str) else list(it.iterate(a[1]))
            c.fields = [(x, MISSING, None, True) for x in names]
            return c
    if mod == "math":
        v = [it.intish(it.ctx.resolve(x)) for x in a]
        if any(x is None for x in v):
            it.raise_("TypeError", "must be real number")
        if any(isinstance(x, Term) for x in v):
            if name in _MATH1 and len(v) == 1:
                if name in ("floor", "ceil", "trunc") and v[0].ty in ("int", "byte"):
                    return v[0]
                return Term(name, tuple(v), _MATH1[name])
            if name == "log":
                return Term("log", tuple(v), "float")
            if name == "pow":
                return mk_bin("pow", Term("float", (v[0],), "float") if isinstance(v[0], Term) and v[0].ty != "float" else v[0], v[1])
            if name == "isclose":
                return Term("isclose", tuple(v), "bool")
            if name == "modf":
                return (Term("modf0", tuple(v), "float"), Term("modf1", tuple(v), "float"))
            raise Unsupported(path)
        try:
            r = getattr(math, name)(*v)
        except ValueError as e:
            it.raise_("ValueError", str(e))
        except OverflowError as e:
            it.raise_("OverflowError", str(e))
        return r
    if path == "struct.Struct":
        return StructFmt(it, a[0])
    if mod == "struct":
        if name == "calcsize":
            return StructFmt(it, a[0]).size
        if name == "pack":
            return StructFmt(it, a[0]).pack(it, a[1:])
        if name == "unpack":
            return StructFmt(it, a[0]).unpack(it, a[1])
        if name == "unpack_from":
            return StructFmt(it, a[0]).unpack_from(it, a[1], a[2] if len(a) > 2 else 0)
    if path == "io.BytesIO":
        return Stream(make_bytes(it, a[0]) if a else b"")
    if path == "io.open":
        return call_builtin(it, "open", a, kw)
    if mod == "pathlib":
        if len(a) == 1 and isinstance(a[0], PathVal):
            return a[0]
        return PathVal(a[0] if len(a) == 1 else Term("path.join", tuple(a), "str"))
    if mod == "warnings":
        it.ctx.effects.append(("warn", it.where()))
        return None
    if mod == "logging" or path.startswith("logging."):
        return Ext("logging.object")
    if path == "fastenum.enable":
        return None
    if mod == "dataclasses":
        if name == "dataclass":
            opts = dict(kw)
            if a:
                return dataclass_apply(it, a[0], opts)
            return it.native("dataclass", lambda i, x, k: dataclass_apply(i, x[0], opts))
        if name == "field":
            return FieldVal(kw.get("default", MISSING), kw.get("default_factory"), kw.get("compare", True))
        if name == "astuple":
            return tuple(a[0].attrs[f[0]] for f in a[0].cls.fields)
        if name == "asdict":
            return VDict([(f[0], a[0].attrs[f[0]]) for f in a[0].cls.fields])
        if name == "fields":
            return tuple(VDict([("name", f[0])], attr=True) for f in a[0].cls.fields)
        if name == "replace":
            o = a[0]
            return it.call(o.cls, [], {**{f[0]: o.attrs[f[0]] for f in o.cls.fields}, **kw})
    if mod == "functools":
        if name == "wraps":
            src = a[0]
            def wr(i, x, k):
                if isinstance(x[0], FuncVal):
                    x[0].attrs["__wrapped__"] = src
                return x[0]
            return it.native("wraps", wr)
        if name == "partial":
            f, pa, pk = a[0], a[1:], dict(kw)
            return it.native("partial", lambda i, x, k: i.call(f, pa + list(x), {**pk, **k}))
        if name == "reduce":
            items = list(it.iterate(a[1]))
            acc = a[2] if len(a) > 2 else items.pop(0)
            for x in items:
                acc = it.call(a[0], [acc, x])
            return acc
        if name == "total_ordering":
            a[0].ns["__total_ordering__"] = True
            return a[0]
        if name == "singledispatch":
            raise Unsupported("singledispatch")
    if mod == "itertools":
        if name == "zip_longest":
            its = [it.iterate(x) for x in a]
            fill = kw.get("fillvalue")
            def zl():
                alive = [True] * len(its)
                while True:
                    row = []
                    for j, s in enumerate(its):
                        if alive[j]:
                            try:
                                row.append(next(s))
                                continue
                            except StopIteration:
                                alive[j] = False
                        row.append(fill)
                    if not any(alive):
                        return
                    yield tuple(row)
            return VIter(zl(), "zip_longest")
        if name == "chain":
            return VIter((x for s in a for x in it.iterate(s)), "chain")
        if name == "count":
            return VIter(itertools.count(*(a or [0])), "count")
        if name == "islice":
            v = [it.ctx.resolve(x) for x in a[1:]]
            if all(x is None or isinstance(x, int) for x in v):
                return VIter(itertools.islice(it.iterate(a[0]), *v), "islice")
        if name == "repeat":
            return VIter(itertools.repeat(*a), "repeat")
        if name == "takewhile":
            def tw():
                for x in it.iterate(a[1]):
                    if not it.truth(it.call(a[0], [x])):
                        return
                    yield x
            return VIter(tw(), "takewhile")
        if name == "dropwhile":
            def dw():
                drop = True
                for x in it.iterate(a[1]):
                    if drop and it.truth(it.call(a[0], [x])):
                        continue
                    drop = False
                    yield x
            return VIter(dw(), "dropwhile")
        if name == "accumulate":
            def ac():
                acc = None
                for j, x in enumerate(it.iterate(a[0])):
                    acc = x if j == 0 else (it.call(a[1], [acc, x]) if len(a) > 1 else it.binop("add", acc, x))
                    yield acc
            return VIter(ac(), "accumulate")
        if name == "product":
            pools = [list(it.iterate(x)) for x in a]
            return VIter(iter(list(itertools.product(*pools))), "product")
        if name == "starmap":
            return VIter((it.call(a[0], list(it.iterate(x))) for x in it.iterate(a[1])), "starmap")
        if name == "tee":
            items = list(it.iterate(a[0]))
            return tuple(VIter(iter(items)) for _ in range(a[1] if len(a) > 1 else 2))
        if name == "groupby":
            key = a[1] if len(a) > 1 else kw.get("key")
            groups = []
            for x in it.iterate(a[0]):
                kx = it.call(key, [x]) if key is not None else x
                if groups and it.truth(it.eq(groups[-1][0], kx)):
                    groups[-1][1].append(x)
                else:
                    groups.append((kx, [x]))
            return VIter(iter([(g, VIter(iter(xs))) for g, xs in groups]), "groupby")
        if name == "filterfalse":
            return VIter((x for x in it.iterate(a[1]) if not it.truth(it.call(a[0], [x]))), "filterfalse")
    if mod == "operator":
        ops = {"add": "add", "sub": "sub", "mul": "mul", "truediv": "div", "floordiv": "floordiv", "mod": "mod",
               "and_": "bitand", "or_": "bitor", "xor": "bitxor", "lshift": "shl", "rshift": "shr", "pow": "pow"}
        if name in ops:
            return it.binop(ops[name], a[0], a[1])
        if name in ("eq", "ne", "lt", "le", "gt", "ge"):
            return it.compare(name, a[0], a[1])
        if name == "not_":
            return it.not_(a[0])
        if name == "truth":
            return it.truth(a[0])
        if name == "contains":
            return it.contains(a[1], a[0])
        if name == "getitem":
            return it.getitem(a[0], a[1])
        if name == "setitem":
            return it.setitem(*a)
        if name in ("inv", "invert"):
            x = it.intish(a[0])
            return ~x if is_const(x) else Term("inv", (x,), "int")
        if name == "index":
            return a[0]
        if name == "attrgetter":
            def ag(i, x, k):
                out = []
                for nm in a:
                    v = x[0]
                    for part in nm.split("."):
                        v = i.getattr(v, part)
                    out.append(v)
                return out[0] if len(out) == 1 else tuple(out)
            return it.native("attrgetter", ag)
        if name == "itemgetter":
            return it.native("itemgetter", lambda i, x, k: i.getitem(x[0], a[0]) if len(a) == 1 else tuple(i.getitem(x[0], y) for y in a))
        if name == "methodcaller":
            return it.native("methodcaller", lambda i, x, k: i.call(i.getattr(x[0], a[0]), a[1:], kw))
    if mod == "contextlib":
        if name == "suppress":
            return SuppressVal(a)
        raise Unsupported(path)
    if mod == "copy":
        if name == "copy":
            return _copy(it, a[0], False, {})
        if name == "deepcopy":
            return _copy(it, a[0], True, {})
    if mod == "enum":
        if name == "auto":
            return ExtAuto()
        if name == "unique":
            return apply_decorator(it, Ext(path), a[0])
    if mod in ("datetime", "datetime.datetime", "datetime.date", "datetime.timedelta"):
        return Term("call:" + path, tuple(a) + tuple((x, y) for x, y in sorted(kw.items())), None)
    if mod in ("os", "os.path", "shutil", "tempfile"):
        if name in ("fspath", "fsdecode"):
            return a[0].p if isinstance(a[0], PathVal) else a[0]
        if path in ("os.path.exists", "os.path.isfile", "os.path.isdir"):
            return Term("fs." + name, (a[0],), "bool")
        if path in ("os.path.join", "os.path.basename", "os.path.dirname", "os.path.abspath", "os.path.splitext", "os.path.realpath"):
            return Term(path, tuple(a), "str")
        if path in ("os.replace", "os.rename", "os.remove", "os.unlink", "shutil.move", "shutil.copy", "shutil.copyfile", "os.fsync", "os.truncate"):
            ps = [x.p if isinstance(x, PathVal) else x for x in a]
            it.ctx.effects.append((name, *ps, it.where()))
            fs = it.ctx.__dict__.setdefault("files", {})
            if name in ("replace", "rename", "move", "copy", "copyfile") and ps[0] in fs:
                fs[ps[1]] = fs[ps[0]]
            return None
        raise Unsupported(path)
    if mod == "construct_typed":
        if name == "EnumValue":
            return a[0]
        raise Unsupported(path)
    if mod == "abc":
        return a[0] if a else None
    if mod == "textwrap" or mod == "string":
        raise Unsupported(path)
    if mod == "bisect":
        lst = a[0].items if isinstance(a[0], VList) else list(it.iterate(a[0]))
        j = 0
        if name in ("bisect_left",):
            while j < len(lst) and it.truth(it.compare("lt", lst[j], a[1])):
                j += 1
            return j
        if name in ("bisect", "bisect_right"):
            while j < len(lst) and not it.truth(it.compare("lt", a[1], lst[j])):
                j += 1
            return j
        if name in ("insort", "insort_right", "insort_left"):
            while j < len(lst) and (it.truth(it.compare("lt", lst[j], a[1])) if name == "insort_left" else not it.truth(it.compare("lt", a[1], lst[j]))):
                j += 1
            a[0].items.insert(j, a[1])
            return None
    if path.startswith("logging"):
        return None
    raise Unsupported(f"call of {path}")


def _copy(it, v, deep, memo):
    if id(v) in memo:
        return memo[id(v)]
    rec = (lambda x: _copy(it, x, True, memo)) if deep else (lambda x: x)
    if isinstance(v, VList):
        r = VList([], v.tag)
        memo[id(v)] = r
        r.items = [rec(x) for x in v.items]
        return r
    if isinstance(v, VDict):
        r = VDict([], v.default_factory, v.attr)
        memo[id(v)] = r
        r.pairs = [[rec(x), rec(y)] for x, y in v.pairs]
        return r
    if isinstance(v, VSet):
        return VSet([rec(x) for x in v.items], v.frozen)
    if isinstance(v, VByteArray):
        return VByteArray(v.data)
    if isinstance(v, tuple):
        return tuple(rec(x) for x in v)
    if isinstance(v, NT):
        return NT(v.cls, [rec(x) for x in v.items])
    if isinstance(v, Instance):
        r = Instance(v.cls)
        memo[id(v)] = r
        r.attrs = {k: rec(x) for k, x in v.attrs.items()}
        return r
    return v


_init_exc_names_done = False
