"""Abstract interpreter for the Python subset PyFLP is written in.

It evaluates syntax trees over the abstract values of ``values``; branch
conditions the facts do not settle split the path (``ctx``).  The analysed
package is never imported or executed.
"""
from __future__ import annotations

import ast
import pathlib

from .ctx import Ctx
from .terms import *
from .values import *
from .values import _same


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class Env:
    __slots__ = ("vars", "parent", "module", "cls", "nonlocals", "globals_", "func", "self_", "is_class")

    def __init__(self, parent, module, func=None):
        self.vars = {}
        self.parent = parent  # enclosing function env (closures)
        self.module = module
        self.func = func
        self.nonlocals = ()
        self.globals_ = ()
        self.is_class = False
        self.cls = None


def _scope_decl(node):
    """nonlocal / global names declared in a function body, and whether it yields."""
    nl, gl, gen = set(), set(), False
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return nl, gl, gen


def _assigned(node):
    out = set()
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda,)):
            continue
        if isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            # only walrus targets leak
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        stack.extend(ast.iter_child_nodes(n))
    return out


_BINOPS = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv",
    ast.Mod: "mod", ast.Pow: "pow", ast.BitAnd: "bitand", ast.BitOr: "bitor", ast.BitXor: "bitxor",
    ast.LShift: "shl", ast.RShift: "shr",
}
_DUNDER = {
    "add": "add", "sub": "sub", "mul": "mul", "div": "truediv", "floordiv": "floordiv", "mod": "mod",
    "pow": "pow", "bitand": "and", "bitor": "or", "bitxor": "xor", "shl": "lshift", "shr": "rshift",
}
_CMPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
_SWAP = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}

BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError", "AssertionError": "Exception", "AttributeError": "Exception",
    "BufferError": "Exception", "EOFError": "Exception", "ImportError": "Exception", "LookupError": "Exception",
    "IndexError": "LookupError", "KeyError": "LookupError", "NameError": "Exception", "OSError": "Exception",
    "IOError": "Exception", "FileNotFoundError": "OSError", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "StopIteration": "Exception", "SyntaxError": "Exception", "TypeError": "Exception", "ValueError": "Exception",
    "UnicodeError": "ValueError", "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
    "Warning": "Exception", "UserWarning": "Warning", "RuntimeWarning": "Warning", "DeprecationWarning": "Warning",
    "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException", "GeneratorExit": "BaseException", "UnboundLocalError": "NameError",
}


class Interp:
    PKG = "pyflp"

    def __init__(self, root):
        self.root = pathlib.Path(root)
        self.modules = {}
        self.ctx = Ctx()
        self.stack = []
        self.visited = set()  # functions whose bodies were analysed
        self.visited_nodes = 0
        self.max_steps = 200_000_000
        self.ext_override = {}
        from . import ext
        self.ext = ext
        ext._init_exc_names()
        self.prelude = self._load_prelude()

    # ------------------------------------------------------------ module loading
    def _load_prelude(self):
        f = pathlib.Path(__file__).with_name("prelude") / "stubs.py"
        m = ModuleVal("prelude", str(f))
        self._exec_module(m, f.read_text())
        return m

    def source_of(self, name):
        rel = name.split(".")
        p = self.root.joinpath(*rel)
        for cand in (p / "__init__.py", p.with_suffix(".py")):
            if cand.is_file():
                return cand
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        f = self.source_of(name)
        if f is None:
            return None
        parent = name.rpartition(".")[0]
        if parent and parent not in self.modules:
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        m = ModuleVal(name, str(f.relative_to(self.root)))
        self.modules[name] = m
        m.ns["__name__"] = name
        m.ns["__file__"] = m.file
        self._exec_module(m, f.read_text(encoding="utf-8"))
        if parent in self.modules:
            self.modules[parent].ns.setdefault(name.rpartition(".")[2], m)
        return m

    def _exec_module(self, m, text):
        tree = ast.parse(text, filename=m.file)
        m.tree = tree
        env = Env(None, m)
        env.vars = m.ns
        for st in tree.body:
            self._guarded(st, env)

    def _guarded(self, st, env):
        """Module/class level statement; what cannot be followed becomes Bad."""
        try:
            for _ in self.exec_stmt(st, env):
                pass
        except (Unsupported, PyRaise) as e:
            names = _assigned(ast.Module(body=[st], type_ignores=[]))
            for n in names:
                if n not in env.vars:
                    env.vars[n] = Bad(f"{n}: {e}")

    # ---------------------------------------------------------------- utilities
    def step(self, node=None):
        self.ctx.steps += 1
        if self.ctx.steps > self.max_steps:
            raise Unsupported("step limit")

    def where(self):
        for f in reversed(self.stack):
            return f.qual
        return "<module>"

    def raise_(self, name, *args):
        raise PyRaise(ExcVal(Ext("builtins." + name), args), self.where())

    def exc_classes(self, cls):
        """All classes (Ext/ClassVal) an exception class derives from."""
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if isinstance(c, Alias):
                c = c.origin
            if c in out:
                continue
            out.append(c)
            if isinstance(c, Ext) and c.path.startswith("builtins."):
                b = BUILTIN_EXC.get(c.path[9:])
                if b:
                    todo.append(Ext("builtins." + b))
            elif isinstance(c, Ext):
                b = self.ext.ext_exc_base(c.path)
                if b:
                    todo.append(Ext(b))
            elif isinstance(c, ClassVal):
                todo.extend(c.bases)
        return out

    # -------------------------------------------------------------------- truth
    def truth(self, v):
        if is_const(v):
            return bool(v)
        if isinstance(v, Term):
            if v.op == "lazyin":
                return self.truth(self.contains(v.args[0], v.args[1]))
            return self.ctx.truth(v)
        if isinstance(v, (VList, VSet)):
            return bool(v.items)
        if isinstance(v, VDict):
            return bool(v.pairs)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, NT):
            return bool(v.items)
        if isinstance(v, (ABytes,)):
            return len(v) > 0
        if isinstance(v, VByteArray):
            return len(v.data) > 0
        if isinstance(v, VRange):
            return self.truth(self.len_(v))
        if isinstance(v, SymSeq):
            return self.seq_has(v, 0)
        if isinstance(v, EnumMember):
            f = self.find_attr(v.cls, "__bool__")
            if f is not None:
                return self.truth(self.call(Bound(f, v), []))
            return bool(v.value) if v.cls.kind in ("intenum", "flag", "intflag") else True
        if isinstance(v, Instance):
            f = self.find_attr(v.cls, "__bool__")
            if f is not None:
                return self.truth(self.call(Bound(f, v), []))
            f = self.find_attr(v.cls, "__len__")
            if f is not None:
                return self.truth(mk_not(mk_cmp("eq", self.call(Bound(f, v), []), 0)))
            return True
        return True

    # ----------------------------------------------------------------- equality
    def eq(self, a, b):
        """Value (bool or Term) of ``a == b``."""
        if a is b and not isinstance(a, (Term, Instance)):
            return True
        if isinstance(a, Alias):
            a = a.origin
        if isinstance(b, Alias):
            b = b.origin
        a, b = self.ctx.resolve(a), self.ctx.resolve(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Instance, EnumMember)):
                cls = x.cls
                if isinstance(x, EnumMember) and isinstance(x.value, int) and self.find_attr(cls, "__eq__") is None:
                    continue
                f = self.find_attr(cls, "__eq__")
                if f is not None:
                    r = self.call(Bound(f, x), [y])
                    if r is not NotImplemented:
                        return r
                    continue
                if isinstance(x, Instance) and cls.kind == "dataclass" and cls.dc.get("eq", True):
                    if isinstance(y, Instance) and y.cls is cls:
                        return self.eq(self.dc_tuple(x), self.dc_tuple(y))
                    return False
        if isinstance(a, Instance) or isinstance(b, Instance):
            return a is b
        an, bn = self.intish(a), self.intish(b)
        if an is not None and bn is not None:
            return mk_cmp("eq", an, bn)
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            if isinstance(a, EnumMember) and isinstance(b, EnumMember):
                return a is b or (a.cls is b.cls and a.name == b.name)
            t = a if isinstance(a, Term) else b
            m = b if isinstance(a, Term) else a
            if isinstance(t, Term) and t.op == "enum" and isinstance(m, EnumMember) and t.args[0] is m.cls:
                return self.eq(t.args[1], m.value)
            return False
        if isinstance(a, Term) and a.op in ("enum",) and isinstance(b, Term) and b.op == "enum":
            return mk_cmp("eq", a.args[1], b.args[1]) if a.args[0] is b.args[0] else False
        if is_const(a) and is_const(b):
            return a == b
        sa, sb = self.seq_items(a), self.seq_items(b)
        if sa is not None and sb is not None:
            if isinstance(a, (VList,)) != isinstance(b, (VList,)) and not (isinstance(a, NT) or isinstance(b, NT)):
                return False
            if len(sa) != len(sb):
                return False
            return self.and_([self.eq(x, y) for x, y in zip(sa, sb)])
        if isinstance(a, VDict) and isinstance(b, VDict):
            if len(a.pairs) != len(b.pairs):
                return False
            rs = []
            for k, v in a.pairs:
                w = self.dict_get(b, k, MISSING)
                if w is MISSING:
                    return False
                rs.append(self.eq(v, w))
            return self.and_(rs)
        if isinstance(a, VSet) and isinstance(b, VSet):
            if all(is_const(x) for x in a.items + b.items):
                return set(a.items) == set(b.items)
            raise Unsupported("equality of symbolic sets")
        ba, bb = self.bytesish(a), self.bytesish(b)
        if ba is not None and bb is not None:
            if len(ba) != len(bb):
                return False
            if to_abytes(ba) == to_abytes(bb):
                return True
            if isinstance(ba, bytes) and isinstance(bb, bytes):
                return ba == bb
            if bytes_apart(ba, bb):
                return False
            return Term("eq", tuple(sorted((norm_bytes(to_abytes(ba)), norm_bytes(to_abytes(bb))), key=lambda v: (isinstance(v, bytes), repr(v)))), "bool")
        if isinstance(a, Term) or isinstance(b, Term):
            t, o = (a, b) if isinstance(a, Term) else (b, a)
            if o is None and t.ty is not None and t.ty != "any":
                return False
            if isinstance(o, str) and t.ty in NUM_TY:
                return False
            if isinstance(o, (int, float)) and t.ty == "str":
                return False
            if not (is_const(o) or isinstance(o, Term)):
                if isinstance(o, (ClassVal, FuncVal, Ext, tuple, VList, VDict)) and t.ty in NUM_TY + ("str",):
                    return False
            return mk_cmp("eq", a, b)
        if isinstance(a, (ClassVal, Ext, FuncVal)) or isinstance(b, (ClassVal, Ext, FuncVal)):
            return a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self is b.self
        return False

    def and_(self, rs):
        rs = [r for r in rs if r is not True]
        if any(r is False for r in rs):
            return False
        if not rs:
            return True
        return rs[0] if len(rs) == 1 else Term("and", rs, "bool")

    def or_(self, rs):
        rs = [r for r in rs if r is not False]
        if any(r is True for r in rs):
            return True
        if not rs:
            return False
        return rs[0] if len(rs) == 1 else Term("or", rs, "bool")

    def intish(self, v):
        """Integer/float constant or numeric term behind v, else None."""
        if isinstance(v, (bool, int, float)):
            return v
        if isinstance(v, EnumMember) and isinstance(v.value, (int,)) and v.cls.kind in ("intenum", "intflag", "flag", "ctenum"):
            return v.value
        if isinstance(v, Term):
            if v.op in ("enum", "flag") and v.args[0].kind in ("intenum", "intflag", "flag", "ctenum"):
                return v.args[1]
            if v.ty in NUM_TY:
                return v
        return None

    def bytesish(self, v):
        if isinstance(v, (bytes, ABytes)):
            return v
        if isinstance(v, VByteArray):
            return v.data
        return None

    def seq_items(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, NT):
            return list(v.items)
        if isinstance(v, VList):
            return v.items
        return None

    def dc_tuple(self, o):
        return tuple(o.attrs[f[0]] for f in o.cls.fields if f[3])

    def compare(self, op, a, b):
        r = self.ext.compare_hook(self, op, a, b)
        if r is not MISSING:
            return r
        if op == "eq":
            return self.eq(a, b)
        if op == "ne":
            for x, y in ((a, b),):
                if isinstance(x, Instance):
                    f = self.find_attr(x.cls, "__ne__")
                    if f is not None:
                        r = self.call(Bound(f, x), [y])
                        if r is not NotImplemented:
                            return r
            return self.not_(self.eq(a, b))
        a, b = self.ctx.resolve(a), self.ctx.resolve(b)
        for x, y, o in ((a, b, op), (b, a, _SWAP[op])):
            if isinstance(x, (Instance, EnumMember)):
                f = self.find_attr(x.cls, f"__{o}__")
                if f is not None:
                    r = self.call(Bound(f, x), [y])
                    if r is not NotImplemented:
                        return r
                elif isinstance(x, Instance) and x.cls.kind == "dataclass" and x.cls.dc.get("order"):
                    if isinstance(y, Instance) and y.cls is x.cls:
                        return self.compare(o, self.dc_tuple(x), self.dc_tuple(y))
                elif isinstance(x, Instance) and self.find_attr(x.cls, "__total_ordering__"):
                    r = self.total_ordering(o, x, y)
                    if r is not NotImplemented:
                        return r
        if isinstance(a, Instance) or isinstance(b, Instance):
            self.raise_("TypeError", "unorderable")
        an, bn = self.intish(a), self.intish(b)
        if an is not None and bn is not None:
            return mk_cmp(op, an, bn)
        sa, sb = self.seq_items(a), self.seq_items(b)
        if sa is not None and sb is not None:
            if isinstance(a, VList) != isinstance(b, VList):
                self.raise_("TypeError", "unorderable")
            for x, y in zip(sa, sb):
                if self.truth(self.eq(x, y)):
                    continue
                return self.compare(op, x, y)
            return {"lt": len(sa) < len(sb), "le": len(sa) <= len(sb), "gt": len(sa) > len(sb), "ge": len(sa) >= len(sb)}[op]
        if is_const(a) and is_const(b):
            try:
                return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[op]()
            except TypeError:
                self.raise_("TypeError", "unorderable")
        if (a is None or b is None) and not (isinstance(a, Term) and a.ty in (None, "any") or isinstance(b, Term) and b.ty in (None, "any")):
            self.raise_("TypeError", "unorderable")
        if isinstance(a, Term) or isinstance(b, Term):
            for x in (a, b):
                if not (is_const(x) or isinstance(x, Term)):
                    raise Unsupported(f"ordering of {a!r} and {b!r}")
            if {getattr(a, "ty", None), getattr(b, "ty", None)} & {"str"} and (self.intish(a) is not None or self.intish(b) is not None):
                self.raise_("TypeError", "unorderable")
            return mk_cmp(op, a, b)
        if isinstance(a, VSet) and isinstance(b, VSet):
            raise Unsupported("set ordering")
        self.raise_("TypeError", "unorderable")

    def total_ordering(self, op, a, b):
        """The method functools.total_ordering derives from the one the class defines."""
        for root in ("lt", "le", "gt", "ge"):
            f = self.find_attr(a.cls, f"__{root}__")
            if f is not None:
                break
        else:
            return NotImplemented
        r = self.call(Bound(f, a), [b])
        if r is NotImplemented:
            return r
        t = self.truth(r)
        how = {  # (root, op): value if the root comparison holds, if it does not
            ("lt", "gt"): (False, "ne"), ("lt", "le"): (True, "eq"), ("lt", "ge"): (False, True),
            ("le", "ge"): ("eq", True), ("le", "lt"): ("ne", False), ("le", "gt"): (False, True),
            ("gt", "lt"): (False, "ne"), ("gt", "ge"): (True, "eq"), ("gt", "le"): (False, True),
            ("ge", "le"): ("eq", True), ("ge", "gt"): ("ne", False), ("ge", "lt"): (False, True),
        }[root, op][0 if t else 1]
        return how if isinstance(how, bool) else self.compare(how, a, b)

    def not_(self, v):
        if is_const(v):
            return not v
        if isinstance(v, Term):
            return mk_not(v)
        return not self.truth(v)

    # --------------------------------------------------------------- containment
    def contains(self, x, c):
        """Value of ``x in c``."""
        if isinstance(c, ClassVal):
            meta = self.metaclass_attr(c, "__contains__")
            if meta is not None:
                return self.call(Bound(meta, c), [x])
            if c.kind:
                if isinstance(x, EnumMember):
                    return any(x is m for m in c.members)
                return self.or_([self.eq(x, m) for m in c.members])
        if isinstance(c, Instance):
            f = self.find_attr(c.cls, "__contains__")
            if f is not None:
                r = self.call(Bound(f, c), [x])
                return r if is_const(r) or isinstance(r, Term) else self.truth(r)
            return self._any_eq(x, self.iterate(c))
        if isinstance(c, Term) and c.op in ("flag", "enum"):
            xv = self.intish(x)
            if xv is not None and c.args[0].kind in ("flag", "intflag"):
                return mk_cmp("eq", mk_bin("bitand", c.args[1], xv), xv)
        if isinstance(c, EnumMember) and c.cls.kind in ("flag", "intflag"):
            xv = self.intish(x)
            return mk_cmp("eq", mk_bin("bitand", c.value, xv), xv)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, Term):
                return Term("m:contains", (c, x), "bool")
        if isinstance(c, VRange):
            xv = self.intish(x)
            if xv is None:
                return False
            if c.step == 1:
                return self.and_([mk_cmp("le", c.start, xv), mk_cmp("lt", xv, c.stop)])
            if all(isinstance(v, int) for v in (c.start, c.stop, c.step)):
                return self._in_consts(xv, list(range(c.start, c.stop, c.step)))
            raise Unsupported("membership in a stepped symbolic range")
        if isinstance(c, VDict):
            return self.or_([self.eq(x, k) for k, _ in c.pairs])
        if isinstance(c, (tuple, VList, VSet, NT)):
            items = c if isinstance(c, tuple) else c.items
            xv = self.intish(x)
            if isinstance(xv, Term) and items and all(isinstance(self.intish(i), int) for i in items):
                return self._in_consts(xv, [self.intish(i) for i in items])
            return self._any_eq(x, items)
        if isinstance(c, (ABytes, bytes, VByteArray)):
            if isinstance(x, int) and isinstance(c, bytes):
                return x in c
            raise Unsupported("membership in bytes")
        if isinstance(c, Term):
            if c.ty == "str" and (isinstance(x, str) or isinstance(x, Term)):
                return Term("m:contains", (c, x), "bool")
            raise Unsupported(f"membership in {show(c)}")
        if isinstance(c, (VIter, SymSeq)):
            return self._any_eq(x, self.iterate(c))
        self.raise_("TypeError", "not a container")

    def _in_consts(self, x, values):
        if isinstance(x, int):
            return x in values
        x = self.ctx.resolve(x)
        if isinstance(x, int):
            return x in values
        l = leaves(x)
        if x.op in LEAF_OPS or x.ty in ("int", "byte"):
            return Term("inset", (x, frozenset(values)), "bool")
        return self.or_([mk_cmp("eq", x, v) for v in values])

    def _any_eq(self, x, items):
        for i in items:
            if x is i and not isinstance(x, Term):
                return True
            r = self.eq(x, i)
            if r is True or (r is not False and self.truth(r)):
                return True
        return False

    # ---------------------------------------------------------------- iteration
    def seq_has(self, s, i):
        """Decide whether the unknown sequence has an element number i."""
        while len(s.items) <= i:
            if s.closed:
                return False
            n = len(s.items)
            if n >= s.limit:
                s.closed = True
                return False
            if n < s.minimum or self.ctx.choose(2, [f"{s.name} has element {n}", f"{s.name} ends after {n}"]) == 0:
                s.items.append(s.make(n))
            else:
                s.closed = True
        return True

    def iterate(self, v):
        if isinstance(v, (tuple,)):
            return iter(v)
        if isinstance(v, NT):
            return iter(v.items)
        if isinstance(v, VList):
            return self._live(v)
        if isinstance(v, VSet):
            return iter(list(v.items))
        if isinstance(v, VDict):
            return iter([k for k, _ in v.pairs])
        if isinstance(v, VIter):
            return v.it
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, bytes):
            return iter(v)
        if isinstance(v, VByteArray):
            return self.iterate(v.data)
        if isinstance(v, ABytes):
            return iter([self.byte_at(v, i) for i in range(len(v))])
        if isinstance(v, VRange):
            if all(isinstance(x, int) for x in (v.start, v.stop, v.step)):
                return iter(range(v.start, v.stop, v.step))
            return self._symrange(v)
        if isinstance(v, SymSeq):
            return self._symiter(v)
        if isinstance(v, Alias):
            v = v.origin
        if isinstance(v, ClassVal):
            if v.kind in ("enum", "intenum", "flag", "intflag", "ctenum"):
                seen = []
                for m in v.members:
                    if m not in seen:
                        seen.append(m)
                return iter(seen)
            meta = self.metaclass_attr(v, "__iter__")
            if meta is not None:
                return self.iterate(self.call(Bound(meta, v), []))
        if isinstance(v, Instance):
            f = self.find_attr(v.cls, "__iter__")
            if f is not None:
                return self.iterate(self.call(Bound(f, v), []))
            if self.find_attr(v.cls, "__next__") is not None:
                return self._nextiter(v)
            g = self.find_attr(v.cls, "__getitem__")
            if g is not None:
                return self._getitem_iter(v, g)
        if isinstance(v, Term) and v.ty in ("str", "bytes", None, "any", "list"):
            return self._symiter(self.term_seq(v))
        self.raise_("TypeError", "not iterable")

    def _nextiter(self, v):
        while True:
            try:
                x = self.call(self.getattr(v, "__next__"), [])
            except PyRaise as e:
                if Ext("builtins.StopIteration") in self.exc_classes(e.exc.cls):
                    return
                raise
            yield x

    def _getitem_iter(self, v, g):
        i = 0
        while True:
            try:
                x = self.call(Bound(g, v), [i])
            except PyRaise as e:
                if Ext("builtins.IndexError") in self.exc_classes(e.exc.cls):
                    return
                raise
            yield x
            i += 1

    def term_seq(self, t):
        """Abstract sequence behind an opaque iterable term (memoised per path)."""
        memo = self.ctx.__dict__.setdefault("seqs", {})
        if t not in memo:
            ety = "str" if t.ty == "str" or t.op in ("m:split", "m:rsplit") else None
            memo[t] = SymSeq(show(t), lambda i, t=t, e=ety: Term("item", (t, i), e), limit=2,
                             minimum=1 if t.op in ("m:split", "m:rsplit") else 0)
        return memo[t]

    def _live(self, v):
        i = 0
        while i < len(v.items):
            yield v.items[i]
            i += 1

    def _symiter(self, s):
        i = 0
        while self.seq_has(s, i):
            yield s.items[i]
            i += 1

    def _symrange(self, r):
        if not isinstance(r.step, int) or r.step == 0:
            raise Unsupported("symbolic range step")
        x, n = r.start, 0
        while self.truth(self.compare("lt" if r.step > 0 else "gt", x, r.stop)):
            if n > 6:
                raise Unsupported("symbolic range too long")
            yield x
            x = mk_bin("add", x, r.step)
            n += 1

    def byte_at(self, b, i):
        if isinstance(b, bytes):
            return b[i]
        pos = 0
        for s in b.segs:
            n = seg_len(s)
            if pos <= i < pos + n:
                if isinstance(s, bytes):
                    return s[i - pos]
                if s[0] == "raw":
                    return Term("rd", (s[1], s[2] + i - pos, 1, "u"), "int")
                if s[1] == 1 and s[2] == "u":
                    return s[3]
                return Term("bytepart", (s[2], s[3], i - pos, 1), "int")
            pos += n
        self.raise_("IndexError")

    def len_(self, v):
        if isinstance(v, (tuple, str, bytes, ABytes)):
            return len(v)
        if isinstance(v, (VList, VSet, NT)):
            return len(v.items)
        if isinstance(v, VDict):
            return len(v.pairs)
        if isinstance(v, VByteArray):
            return len(v.data)
        if isinstance(v, VRange):
            if all(isinstance(x, int) for x in (v.start, v.stop, v.step)):
                return len(range(v.start, v.stop, v.step))
            if v.start == 0 and v.step == 1:
                return Term("max", (v.stop, 0), "int")
        if isinstance(v, SymSeq):
            n = 0
            while self.seq_has(v, n):
                n += 1
            return n
        if isinstance(v, Alias):
            v = v.origin
        if isinstance(v, ClassVal) and v.kind:
            return len(list(self.iterate(v)))
        if isinstance(v, Instance):
            f = self.find_attr(v.cls, "__len__")
            if f is not None:
                return self.call(Bound(f, v), [])
        if isinstance(v, Term):
            if v.op in ("m:split",):
                return self.len_(self.term_seq(v))
            if v.ty in NUM_TY:
                self.raise_("TypeError", "no len")
            return Term("len", (v,), "int")
        self.raise_("TypeError", "object has no len()")

    # --------------------------------------------------------------- dict access
    def dict_find(self, d, k):
        for p in d.pairs:
            if p[0] is k and not isinstance(k, Term):
                return p
        if is_const(k) and not isinstance(k, float):
            cands = []
            for p in d.pairs:
                if is_const(p[0]):
                    if p[0] == k:
                        return p
                else:
                    cands.append(p)
        else:
            cands = d.pairs
        for p in cands:
            if self.truth(self.eq(p[0], k)):
                return p
        return None

    def dict_get(self, d, k, default=MISSING, use_factory=True):
        p = self.dict_find(d, k)
        if p is not None:
            return p[1]
        if default is not MISSING:
            return default
        if d.default_factory is not None and use_factory:
            v = self.call(d.default_factory, [])
            d.pairs.append([k, v])
            return v
        self.raise_("KeyError", k)

    def dict_set(self, d, k, v):
        p = self.dict_find(d, k)
        if p is not None:
            p[1] = v
        else:
            d.pairs.append([k, v])

    # ---------------------------------------------------------------- attributes
    def mro(self, cls):
        if cls.mro is None:
            cls.mro = self._c3(cls)
        return cls.mro

    def _c3(self, cls):
        bases = []
        for b in cls.bases:
            if isinstance(b, Alias):
                b = b.origin
            bases.append(b)
        seqs = [list(self.mro(b)) if isinstance(b, ClassVal) else [b] for b in bases] + [list(bases)]
        out = [cls]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported(f"inconsistent MRO for {cls.name}")
            out.append(c)
            for s in seqs:
                if s[0] == c:
                    del s[0]

    def find_attr(self, cls, name, after=None):
        """Class attribute through the MRO (repo and prelude classes only)."""
        mro = self.mro(cls)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassVal) and name in c.ns:
                return c.ns[name]
        return None

    def ext_bases(self, cls):
        return [c for c in self.mro(cls) if isinstance(c, Ext)]

    def metaclass_attr(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, ClassVal) and isinstance(c.meta, ClassVal):
                f = self.find_attr(c.meta, name)
                if f is not None:
                    return f
        return None

    def is_subclass(self, c, d):
        if isinstance(d, tuple):
            return any(self.is_subclass(c, x) for x in d)
        if isinstance(c, Alias):
            c = c.origin
        if isinstance(d, Alias):
            d = d.origin
        if c is d:
            return True
        if isinstance(c, ClassVal):
            return d in self.mro(c) or (isinstance(d, Ext) and any(d in self.exc_classes(x) for x in self.ext_bases(c)))
        if isinstance(c, Ext) and isinstance(d, Ext):
            if c == d:
                return True
            if c.path.startswith("builtins.") and d.path.startswith("builtins."):
                if c.path == "builtins.bool" and d.path == "builtins.int":
                    return True
                return d in self.exc_classes(c)
        return False

    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except PyRaise as e:
            if default is not MISSING and Ext("builtins.AttributeError") in self.exc_classes(e.exc.cls):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Bad):
            raise Unsupported(o.reason)
        if isinstance(o, ModuleVal):
            if name in o.ns:
                return self._ok(o.ns[name])
            sub = self.load(f"{o.name}.{name}") if o.name.startswith(self.PKG) else None
            if sub is not None:
                return sub
            self.raise_("AttributeError", name)
        if isinstance(o, Instance):
            ga = self.find_attr(o.cls, "__getattribute__")
            if ga is not None:
                return self.call(Bound(ga, o), [name])
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return VDict([(k, v) for k, v in o.attrs.items()])
            d = self.find_attr(o.cls, name)
            if d is not None and self._is_data_desc(d):
                return self._desc_get(d, o, o.cls)
            if name in o.attrs:
                return self._ok(o.attrs[name])
            if d is not None:
                return self._desc_get(d, o, o.cls)
            ga = self.find_attr(o.cls, "__getattr__")
            if ga is not None:
                return self.call(Bound(ga, o), [name])
            r = self.ext.instance_attr(self, o, name)
            if r is not MISSING:
                return r
            self.raise_("AttributeError", name)
        if isinstance(o, EnumMember):
            if name in ("value", "_value_"):
                return o.value
            if name in ("name", "_name_"):
                return o.attrs.get("_name_", o.name)
            if name == "__class__":
                return o.cls
            if name in o.attrs:
                return o.attrs[name]
            d = self.find_attr(o.cls, name)
            if d is not None and not isinstance(d, EnumMember):
                return self._desc_get(d, o, o.cls)
            if isinstance(o.value, int):
                return self.ext.scalar_attr(self, o.value, name)
            self.raise_("AttributeError", name)
        if isinstance(o, NT):
            for i, f in enumerate(o.cls.fields):
                if f[0] == name:
                    return o.items[i]
            d = self.find_attr(o.cls, name)
            if d is not None:
                return self._desc_get(d, o, o.cls)
            return self.ext.scalar_attr(self, o, name)
        if isinstance(o, Alias):
            if name == "__args__":
                return o.args
            if name == "__origin__":
                return o.origin
            return self._getattr(o.origin, name)
        if isinstance(o, ClassVal):
            return self._class_getattr(o, name)
        if isinstance(o, SuperVal):
            return self._super_getattr(o, name)
        if isinstance(o, FuncVal):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return None
            if name == "__wrapped__" and "__wrapped__" in o.attrs:
                return o.attrs[name]
            self.raise_("AttributeError", name)
        if isinstance(o, Bound):
            return self._getattr(o.func, name)
        if isinstance(o, PropVal):
            if name in ("setter", "getter", "deleter", "fget", "fset"):
                if name == "setter":
                    return self.native("setter", lambda it, a, k: PropVal(o.fget, a[0]))
                if name == "getter":
                    return self.native("getter", lambda it, a, k: PropVal(a[0], o.fset))
                if name == "fget":
                    return o.fget
                if name == "fset":
                    return o.fset
            self.raise_("AttributeError", name)
        return self.ext.value_attr(self, o, name)

    def _ok(self, v):
        if isinstance(v, Bad):
            raise Unsupported(v.reason)
        return v

    def native(self, name, fn, self_=None):
        return FuncVal(None, None, None, name, [], {}, native=fn)

    def _class_getattr(self, c, name):
        if name == "__name__" or name == "__qualname__":
            return c.name
        if name == "__subclasses__":
            return self.native("__subclasses__", lambda it, a, k: VList(c.subclasses))
        if name == "__orig_bases__":
            for x in self.mro(c):
                if isinstance(x, ClassVal) and any(isinstance(b, Alias) for b in x.orig_bases):
                    return x.orig_bases
            self.raise_("AttributeError", name)
        if name == "__bases__":
            return tuple(b.origin if isinstance(b, Alias) else b for b in c.bases)
        if name == "__mro__":
            return tuple(self.mro(c))
        if name == "mro":
            return self.native("mro", lambda it, a, k: VList(it.mro(c)))
        if name == "__dict__":
            return VDict([(k, v) for k, v in c.ns.items()])
        if name == "__module__":
            return c.module.name
        if name == "__members__" and c.kind:
            return VDict([(m.name, m) for m in c.members])
        if name == "__annotations__":
            return VDict([(n, None) for n, _ in c.annotations])
        if c.kind and name == "_value2member_map_":
            if not hasattr(c, "v2m"):
                c.v2m = VDict([(m.value, m) for m in c.members])
            return c.v2m
        if c.kind and name == "_member_map_":
            return VDict([(m.name, m) for m in c.members])
        if name == "_fields" and c.kind == "namedtuple":
            return tuple(f[0] for f in c.fields)
        if name == "_make" and c.kind == "namedtuple":
            return self.native("_make", lambda it, a, k: NT(c, list(it.iterate(a[0]))))
        d = self.find_attr(c, name)
        if d is None:
            d = self.metaclass_attr(c, name)
            if d is not None:
                return self._desc_get(d, c, c.meta)
            r = self.ext.class_attr(self, c, name)
            if r is not MISSING:
                return r
            self.raise_("AttributeError", name)
        if isinstance(d, PropVal):
            return d
        return self._desc_get(d, None, c)

    def _super_getattr(self, s, name):
        obj = s.self
        cls = obj if isinstance(obj, ClassVal) else getattr(obj, "cls", None)
        if cls is None:
            raise Unsupported("super() of a non-instance")
        d = self.find_attr(cls, name, after=s.cls)
        if d is not None:
            if isinstance(obj, ClassVal):
                if isinstance(d, (FuncVal,)):
                    return d if name == "__new__" else Bound(d, obj)
                return self._desc_get(d, None, obj)
            return self._desc_get(d, obj, cls)
        r = self.ext.super_attr(self, s, cls, name)
        if r is not MISSING:
            return r
        self.raise_("AttributeError", name)

    def _is_data_desc(self, d):
        if isinstance(d, PropVal):
            return True
        if isinstance(d, Instance):
            return self.find_attr(d.cls, "__set__") is not None
        return False

    def _desc_get(self, d, obj, cls):
        if isinstance(d, Bad):
            raise Unsupported(d.reason)
        if isinstance(d, FuncVal):
            if obj is None:
                return d
            return Bound(d, obj)
        if isinstance(d, PropVal):
            if obj is None:
                return d
            if d.fget is None:
                self.raise_("AttributeError", "unreadable")
            return self.call(d.fget, [obj])
        if isinstance(d, StaticVal):
            return d.f
        if isinstance(d, ClassMethodVal):
            return Bound(d.f, cls)
        if isinstance(d, Instance):
            g = self.find_attr(d.cls, "__get__")
            if g is not None:
                return self.call(Bound(g, d), [obj, cls])
        return d

    def setattr(self, o, name, v):
        if isinstance(o, Instance):
            d = self.find_attr(o.cls, name)
            if d is not None:
                if isinstance(d, PropVal):
                    if d.fset is None:
                        self.raise_("AttributeError", name)
                    self.call(d.fset, [o, v])
                    return
                if isinstance(d, Instance):
                    st = self.find_attr(d.cls, "__set__")
                    if st is not None:
                        self.call(Bound(st, d), [o, v])
                        return
            if o.cls.kind == "dataclass" and o.cls.dc.get("frozen") and not getattr(o, "initing", False):
                raise PyRaise(ExcVal(Ext("dataclasses.FrozenInstanceError"), (name,)), self.where())
            sa = self.find_attr(o.cls, "__setattr__")
            if sa is not None:
                self.call(Bound(sa, o), [name, v])
                return
            o.attrs[name] = v
            return
        if isinstance(o, EnumMember):
            o.attrs[name] = v
            if name == "_value_":
                o.value = v
            if name == "_name_":
                o.name = v
            return
        if isinstance(o, ClassVal):
            o.ns[name] = v
            return
        if isinstance(o, ModuleVal):
            o.ns[name] = v
            return
        if isinstance(o, (FuncVal,)):
            o.attrs[name] = v
            return
        if isinstance(o, ExcVal):
            o.attrs[name] = v
            return
        if isinstance(o, VDict) and o.attr:
            self.dict_set(o, name, v)
            return
        if isinstance(o, SuperVal):
            self.setattr(o.self, name, v)
            return
        if isinstance(o, Term):
            raise Unsupported(f"attribute assignment on {show(o)}")
        self.raise_("AttributeError", name)

    # ---------------------------------------------------------------- subscripts
    def index(self, i, n):
        if isinstance(i, bool):
            i = int(i)
        return i + n if i < 0 else i

    def slice_bounds(self, s, n):
        a = [self.ctx.resolve(x) for x in (s.start, s.stop, s.step)]
        a = [self.intish(x) if x is not None else None for x in a]
        if any(isinstance(x, Term) for x in a):
            raise Unsupported("symbolic slice")
        return slice(*a).indices(n)

    def getitem(self, o, k):
        k = self.ctx.resolve(k)
        if isinstance(o, Bad):
            raise Unsupported(o.reason)
        if isinstance(o, (ClassVal,)):
            if o.kind in ("enum", "intenum", "flag", "intflag", "ctenum"):
                for m in o.members:
                    if m.name == k:
                        return m
                if isinstance(k, str):
                    self.raise_("KeyError", k)
            f = self.find_attr(o, "__class_getitem__")
            if f is not None:
                return self.call(Bound(f.f if isinstance(f, ClassMethodVal) else f, o), [k])
            return Alias(o, k if isinstance(k, tuple) else (k,))
        if isinstance(o, (Ext,)):
            return Alias(o, k if isinstance(k, tuple) else (k,))
        if isinstance(o, Alias):
            return Alias(o.origin, k if isinstance(k, tuple) else (k,))
        if isinstance(o, (tuple, VList, NT)):
            items = o if isinstance(o, tuple) else o.items
            if isinstance(k, VSlice):
                a, b, c = self.slice_bounds(k, len(items))
                r = items[slice(a, b if b >= 0 else None, c)]
                return VList(r) if isinstance(o, VList) else tuple(r)
            kv = self.intish(k)
            if kv is None:
                self.raise_("TypeError", "index")
            if isinstance(kv, Term):
                return self.sym_index(items, kv)
            if not isinstance(kv, int):
                self.raise_("TypeError", "index")
            if not -len(items) <= kv < len(items):
                self.raise_("IndexError", kv)
            return items[kv]
        if isinstance(o, VDict):
            return self.dict_get(o, k)
        if isinstance(o, (str,)):
            if isinstance(k, VSlice):
                a, b, c = self.slice_bounds(k, len(o))
                return o[slice(a, b if b >= 0 else None, c)]
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    self.raise_("IndexError", k)
        if isinstance(o, VByteArray):
            r = self.getitem(o.data, k)
            return VByteArray(r) if isinstance(k, VSlice) else r
        if isinstance(o, (bytes, ABytes)):
            n = len(o)
            if isinstance(k, VSlice):
                a, b, c = self.slice_bounds(k, n)
                if c != 1:
                    if isinstance(o, bytes):
                        return o[slice(a, b if b >= 0 else None, c)]
                    raise Unsupported("stepped bytes slice")
                return norm_bytes(to_abytes(o).cut(a, max(a, b)))
            kv = self.intish(k)
            if isinstance(kv, int):
                if not -n <= kv < n:
                    self.raise_("IndexError", kv)
                return self.byte_at(o, self.index(kv, n))
        if isinstance(o, VRange):
            if isinstance(k, int) and all(isinstance(x, int) for x in (o.start, o.stop, o.step)):
                try:
                    r = range(o.start, o.stop, o.step)[k]
                except IndexError:
                    self.raise_("IndexError", k)
                return r
            if isinstance(k, VSlice) and all(isinstance(x, int) for x in (o.start, o.stop, o.step)):
                r = range(o.start, o.stop, o.step)[slice(*self.slice_bounds(k, self.len_(o)))]
                return VRange(r.start, r.stop, r.step)
        if isinstance(o, SymSeq):
            if isinstance(k, int):
                if k >= 0:
                    if self.seq_has(o, k):
                        return o.items[k]
                    self.raise_("IndexError", k)
                n = self.len_(o)
                if n + k < 0:
                    self.raise_("IndexError", k)
                return o.items[n + k]
            self.len_(o)
            return self.getitem(VList(o.items), k)
        if isinstance(o, Instance):
            f = self.find_attr(o.cls, "__getitem__")
            if f is not None:
                return self.call(Bound(f, o), [k])
            r = self.ext.instance_getitem(self, o, k)
            if r is not MISSING:
                return r
        if isinstance(o, Term):
            if o.op in ("m:split", "m:rsplit"):
                return self.getitem(self.term_seq(o), k)
            if isinstance(k, VSlice):
                return mk_slice(o, k.start, k.stop, k.step)
            if o.ty in NUM_TY:
                self.raise_("TypeError", "not subscriptable")
            return Term("item", (o, k), "str" if o.ty == "str" else None)
        if o is None:
            self.raise_("TypeError", "'NoneType' object is not subscriptable")
        r = self.ext.value_getitem(self, o, k)
        if r is not MISSING:
            return r
        self.raise_("TypeError", "not subscriptable")

    def sym_index(self, items, k):
        """Index a known sequence with a symbolic index: case split."""
        if len(items) > 40:
            raise Unsupported("symbolic index into a long sequence")
        for i, x in enumerate(items):
            if all(is_const(y) for y in items):
                b = bounds(k)
                if b and b[0] >= 0 and b[1] < len(items):
                    t = items[-1]
                    return Term("item", (tuple(items), k), "str" if isinstance(t, str) else "int" if isinstance(t, int) else None)
            if self.truth(mk_cmp("eq", k, i)):
                return x
        for i, x in enumerate(items):
            if self.truth(mk_cmp("eq", k, i - len(items))):
                return x
        self.raise_("IndexError", k)

    def setitem(self, o, k, v):
        k = self.ctx.resolve(k)
        if isinstance(o, VDict):
            return self.dict_set(o, k, v)
        if isinstance(o, VList):
            if isinstance(k, VSlice):
                a, b, c = self.slice_bounds(k, len(o.items))
                if c != 1:
                    raise Unsupported("extended slice assignment")
                o.items[a:max(a, b)] = list(self.iterate(v))
                return
            kv = self.intish(k)
            if isinstance(kv, int):
                if not -len(o.items) <= kv < len(o.items):
                    self.raise_("IndexError", kv)
                o.items[kv] = v
                return
            if isinstance(kv, Term):
                for i in range(len(o.items)):
                    if self.truth(mk_cmp("eq", kv, i)):
                        o.items[i] = v
                        return
                self.raise_("IndexError", kv)
        if isinstance(o, VByteArray):
            n = len(o.data)
            if isinstance(k, VSlice):
                a, b, c = self.slice_bounds(k, n)
                d = to_abytes(o.data)
                nv = self.bytesish(v)
                if nv is None:
                    nv = self.ext.make_bytes(self, v)
                o.data = norm_bytes(ABytes(d.cut_(0, a) + to_abytes(nv).segs + d.cut_(max(a, b), n)))
                return
            kv = self.intish(k)
            if isinstance(kv, int):
                kv = self.index(kv, n)
                if not 0 <= kv < n:
                    self.raise_("IndexError", kv)
                d = to_abytes(o.data)
                o.data = norm_bytes(ABytes(d.cut_(0, kv) + to_abytes(self.ext.make_bytes(self, VList([v]))).segs + d.cut_(kv + 1, n)))
                return
        if isinstance(o, Instance):
            f = self.find_attr(o.cls, "__setitem__")
            if f is not None:
                self.call(Bound(f, o), [k, v])
                return
        if isinstance(o, (tuple, NT, str, bytes, ABytes)) or o is None:
            self.raise_("TypeError", "does not support item assignment")
        raise Unsupported(f"item assignment on {o!r}")

    def delitem(self, o, k):
        if isinstance(o, VDict):
            p = self.dict_find(o, k)
            if p is None:
                self.raise_("KeyError", k)
            o.pairs.remove(p)
            return
        if isinstance(o, VList):
            if isinstance(k, VSlice):
                a, b, c = self.slice_bounds(k, len(o.items))
                del o.items[slice(a, b if b >= 0 else None, c)]
                return
            kv = self.intish(self.ctx.resolve(k))
            if isinstance(kv, int):
                if not -len(o.items) <= kv < len(o.items):
                    self.raise_("IndexError", kv)
                del o.items[kv]
                return
        if isinstance(o, Instance):
            f = self.find_attr(o.cls, "__delitem__")
            if f is not None:
                self.call(Bound(f, o), [k])
                return
        raise Unsupported("del item")

    # --------------------------------------------------------------------- calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        self.step()
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, FuncVal):
            if f.native is not None:
                return f.native(self, list(args), kw)
            return self.call_func(f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, Alias):
            if isinstance(f.origin, ClassVal):
                return self.instantiate(f.origin, args, kw, alias=f)
            return self.call(f.origin, args, kw)
        if isinstance(f, Ext):
            return self.ext.call_ext(self, f.path, list(args), kw)
        if isinstance(f, StaticVal):
            return self.call(f.f, args, kw)
        if isinstance(f, ClassMethodVal):
            raise Unsupported("raw classmethod call")
        if isinstance(f, Bad):
            raise Unsupported(f.reason)
        if isinstance(f, Instance):
            c = self.find_attr(f.cls, "__call__")
            if c is not None:
                return self.call(Bound(c, f), args, kw)
        if isinstance(f, Term):
            raise Unsupported(f"call of {show(f)}")
        r = self.ext.call_value(self, f, list(args), kw)
        if r is not MISSING:
            return r
        self.raise_("TypeError", f"{f!r} is not callable")

    def bind(self, f, args, kw):
        a = f.node.args
        args = list(args)
        kw = dict(kw)
        out = {}
        pos = list(a.posonlyargs) + list(a.args)
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if i < len(args):
                if p.arg in kw and p not in a.posonlyargs:
                    self.raise_("TypeError", f"{f.name}() got multiple values for argument '{p.arg}'")
                out[p.arg] = args[i]
            elif p.arg in kw and p not in a.posonlyargs:
                out[p.arg] = kw.pop(p.arg)
            else:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.raise_("TypeError", f"{f.name}() missing argument '{p.arg}'")
                out[p.arg] = f.defaults[j]
        extra = args[len(pos):]
        if a.vararg:
            out[a.vararg.arg] = tuple(extra)
        elif extra:
            self.raise_("TypeError", f"{f.name}() takes {len(pos)} positional arguments")
        for p in a.kwonlyargs:
            if p.arg in kw:
                out[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                out[p.arg] = f.kwdefaults[p.arg]
            else:
                self.raise_("TypeError", f"{f.name}() missing keyword argument '{p.arg}'")
        if a.kwarg:
            out[a.kwarg.arg] = VDict([(k, v) for k, v in kw.items()])
        elif kw:
            self.raise_("TypeError", f"{f.name}() got an unexpected keyword argument '{next(iter(kw))}'")
        return out

    def call_func(self, f, args, kw):
        if len(self.stack) > 90:
            raise Unsupported("call depth")
        env = Env(f.env, f.module, f)
        env.vars = self.bind(f, args, kw)
        info = f.node.__dict__.get("_info")
        if info is None:
            nl, gl, gen = _scope_decl(f.node) if not isinstance(f.node, ast.Lambda) else (set(), set(), False)
            asg = _assigned(f.node) if not isinstance(f.node, ast.Lambda) else set()
            info = f.node._info = (nl, gl, gen, asg)
        env.nonlocals, env.globals_, gen, asg = info
        if f.module is not None and f.module.name != "prelude":
            self.visited.add(f.qual)
        if isinstance(f.node, ast.Lambda):
            self.stack.append(f)
            try:
                return self.eval(f.node.body, env)
            finally:
                self.stack.pop()
        if gen:
            return VIter(self._run_gen(f, env), f"generator {f.qual}")
        self.stack.append(f)
        try:
            for _ in self.exec_block(f.node.body, env):
                raise Unsupported("yield outside generator")
        except ReturnSig as r:
            return r.v
        finally:
            self.stack.pop()
        return None

    def _run_gen(self, f, env):
        it = self.exec_block(f.node.body, env)
        while True:
            self.stack.append(f)
            try:
                try:
                    v = next(it)
                except StopIteration:
                    return
                except ReturnSig:
                    return
                except PyRaise as e:
                    if isinstance(e.exc, ExcVal) and e.exc.cls == Ext("builtins.StopIteration"):
                        raise PyRaise(ExcVal(Ext("builtins.RuntimeError"), ("generator raised StopIteration",)), e.where)
                    raise
            finally:
                self.stack.pop()
            yield v

    def instantiate(self, c, args, kw, alias=None):
        if c.kind in ("enum", "intenum", "flag", "intflag", "ctenum"):
            return self.ext.enum_call(self, c, args, kw)
        meta_call = self.metaclass_attr(c, "__call__")
        if meta_call is not None:
            return self.call(Bound(meta_call, c), args, kw)
        if c.kind == "namedtuple":
            return self.ext.namedtuple_new(self, c, args, kw)
        if c.kind == "typeddict":
            return VDict([(k, v) for k, v in kw.items()])
        if Ext("builtins.BaseException") in self.exc_classes(c):
            e = ExcVal(c, tuple(args))
            init = self.find_attr(c, "__init__")
            if init is not None:
                self.call(Bound(init, e), args, kw)
            return e
        new = self.find_attr(c, "__new__")
        if new is not None:
            if isinstance(new, StaticVal):
                new = new.f
            o = self.call(new, [c] + list(args), kw)
            if not (isinstance(o, (Instance,)) and self.is_subclass(o.cls, c)):
                return o
        else:
            o = self.ext.ext_new(self, c, args, kw)
            if o is MISSING:
                o = Instance(c)
        if alias is not None and isinstance(o, Instance):
            o.attrs["__orig_class__"] = alias
        init = self.find_attr(c, "__init__")
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif c.kind == "dataclass":
            self.ext.dataclass_init(self, c, o, args, kw)
        else:
            dc = next((b for b in self.mro(c) if isinstance(b, ClassVal) and b.kind == "dataclass"), None)
            if dc is not None:
                self.ext.dataclass_init(self, dc, o, args, kw)
            elif (args or kw) and not self.ext_bases(c):
                self.raise_("TypeError", f"{c.name}() takes no arguments")
        return o

    # ---------------------------------------------------------------- statements
    def exec_block(self, body, env):
        for st in body:
            yield from self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        self.step(st)
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        r = m(st, env)
        if r is not None:
            yield from r

    def s_Expr(self, st, env):
        v = st.value
        if isinstance(v, ast.Yield):
            return self._yield(v, env)
        if isinstance(v, ast.YieldFrom):
            return self._yield_from(v, env)
        if isinstance(v, ast.Constant):
            return None
        self.eval(v, env)

    def _yield(self, v, env):
        yield self.eval(v.value, env) if v.value is not None else None

    def _yield_from(self, v, env):
        src = self.eval(v.value, env)
        for x in self.iterate(src):
            yield x

    def s_Assign(self, st, env):
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            return self._assign_yield(st, env)
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def _assign_yield(self, st, env):
        if isinstance(st.value, ast.Yield):
            yield self.eval(st.value.value, env) if st.value.value is not None else None
        else:
            yield from self._yield_from(st.value, env)
        for t in st.targets:
            self.assign(t, None, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        op = _BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            self.assign(t, self.iop(op, cur, self.eval(st.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(op, cur, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.iop(op, cur, self.eval(st.value, env)))

    def iop(self, op, a, b):
        if isinstance(a, VList) and op == "add":
            a.items.extend(list(self.iterate(b)))
            return a
        if isinstance(a, VByteArray) and op == "add":
            a.data = norm_bytes(ABytes(to_abytes(a.data).segs + to_abytes(b).segs))
            return a
        if isinstance(a, VDict) and op == "bitor" and isinstance(b, VDict):
            for k, v in b.pairs:
                self.dict_set(a, k, v)
            return a
        if isinstance(a, VSet) and not a.frozen and op == "bitor":
            for x in self.iterate(b):
                if not self.truth(self.contains(x, a)):
                    a.items.append(x)
            return a
        if isinstance(a, Instance):
            f = self.find_attr(a.cls, f"__i{_DUNDER[op]}__")
            if f is not None:
                return self.call(Bound(f, a), [b])
        return self.binop(op, a, b)

    def s_Return(self, st, env):
        raise ReturnSig(self.eval(st.value, env) if st.value is not None else None)

    def s_Pass(self, st, env):
        return None

    def s_Break(self, st, env):
        raise BreakSig()

    def s_Continue(self, st, env):
        raise ContinueSig()

    def s_Global(self, st, env):
        return None

    s_Nonlocal = s_Global

    def s_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            self.raise_("AssertionError")

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Instance) and t.attr in o.attrs:
                    del o.attrs[t.attr]
                else:
                    raise Unsupported("del attribute")

    def s_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            yield from self.exec_block(st.body, env)
        else:
            yield from self.exec_block(st.orelse, env)

    def s_While(self, st, env):
        n = 0
        while self.truth(self.eval(st.test, env)):
            n += 1
            if n > 5000:
                raise Unsupported("loop bound")
            try:
                yield from self.exec_block(st.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        yield from self.exec_block(st.orelse, env)

    def s_For(self, st, env):
        it = self.iterate(self.eval(st.iter, env))
        n = 0
        while True:
            try:
                x = next(it)
            except StopIteration:
                break
            n += 1
            if n > 5000:
                raise Unsupported("loop bound")
            self.assign(st.target, x, env)
            try:
                yield from self.exec_block(st.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        yield from self.exec_block(st.orelse, env)

    def s_Raise(self, st, env):
        if st.exc is None:
            cur = self.ctx.__dict__.get("handling")
            if cur:
                raise PyRaise(cur[-1], self.where())
            self.raise_("RuntimeError", "No active exception to reraise")
        e = self.eval(st.exc, env)
        if st.cause is not None:
            self.eval(st.cause, env)
        if isinstance(e, (ClassVal, Ext)):
            e = self.call(e, [])
        if isinstance(e, Term):
            raise Unsupported("raise of a symbolic value")
        if not isinstance(e, ExcVal):
            self.raise_("TypeError", "exceptions must derive from BaseException")
        raise PyRaise(e, self.where())

    def exc_matches(self, exc, spec):
        if isinstance(spec, tuple):
            return any(self.exc_matches(exc, s) for s in spec)
        if isinstance(spec, Alias):
            spec = spec.origin
        if isinstance(spec, Ext) and spec.path in ("builtins.IOError", "builtins.EnvironmentError"):
            spec = Ext("builtins.OSError")
        return spec in self.exc_classes(exc.cls)

    def s_Try(self, st, env):
        def body():
            try:
                yield from self.exec_block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.eval(h.type, env)):
                        if h.name:
                            env.vars[h.name] = e.exc
                        hs = self.ctx.__dict__.setdefault("handling", [])
                        hs.append(e.exc)
                        try:
                            yield from self.exec_block(h.body, env)
                        finally:
                            hs.pop()
                        return
                raise
            else:
                yield from self.exec_block(st.orelse, env)

        if not st.finalbody:
            yield from body()
            return
        try:
            yield from body()
        except (PyRaise, ReturnSig, BreakSig, ContinueSig):
            yield from self.exec_block(st.finalbody, env)
            raise
        yield from self.exec_block(st.finalbody, env)

    def s_With(self, st, env):
        mgrs = []
        for item in st.items:
            m = self.eval(item.context_expr, env)
            mgrs.append(m)
            v = self.ext.enter(self, m)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        try:
            yield from self.exec_block(st.body, env)
        except PyRaise as e:
            swallowed = False
            for m in reversed(mgrs):
                if self.ext.exit(self, m, e.exc):
                    swallowed = True
                    break
            if not swallowed:
                raise
            return
        except (ReturnSig, BreakSig, ContinueSig):
            for m in reversed(mgrs):
                self.ext.exit(self, m, None)
            raise
        for m in reversed(mgrs):
            self.ext.exit(self, m, None)

    def s_Import(self, st, env):
        for a in st.names:
            if a.name.split(".")[0] == self.PKG:
                m = self.load(a.name)
                top = self.modules[self.PKG]
                env.vars[a.asname or a.name.split(".")[0]] = m if a.asname else top
            else:
                env.vars[a.asname or a.name.split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, st, env):
        name = st.module or ""
        if st.level:
            base = env.module.name.split(".")
            is_pkg = env.module.file.endswith("__init__.py")
            base = base[: len(base) - (st.level - (1 if is_pkg else 0))]
            name = ".".join(base + ([name] if name else []))
        if name.split(".")[0] == self.PKG:
            m = self.load(name)
            if m is None:
                raise Unsupported(f"module {name} not found")
            for a in st.names:
                if a.name == "*":
                    for k, v in m.ns.items():
                        if not k.startswith("_"):
                            env.vars[k] = v
                    continue
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    v = self.load(f"{name}.{a.name}")
                    if v is None:
                        v = Bad(f"cannot import {a.name} from {name}")
                env.vars[a.asname or a.name] = v
            return
        for a in st.names:
            if name == "__future__":
                continue
            env.vars[a.asname or a.name] = self.ext.import_from(self, name, a.name)

    def s_FunctionDef(self, st, env):
        f = self.make_func(st, env)
        v = f
        for d in reversed(st.decorator_list):
            v = self.ext.apply_decorator(self, self.eval(d, env), v)
        self.bind_name(st.name, v, env)

    def make_func(self, st, env):
        defaults = [self.eval(d, env) for d in st.args.defaults]
        kwd = {a.arg: self.eval(d, env) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        fenv = env.parent if env.is_class else env
        if fenv is not None and fenv.func is None and not fenv.is_class:
            fenv = None  # module scope
        f = FuncVal(st, fenv, env.module, getattr(st, "name", "<lambda>"), defaults, kwd)
        f.cls = env.cls if env.is_class else (env.func.cls if env.func is not None else None)
        return f

    def s_ClassDef(self, st, env):
        self.bind_name(st.name, self.ext.make_class(self, st, env), env)

    def s_Match(self, st, env):
        subj = self.eval(st.subject, env)
        for case in st.cases:
            binds = {}
            if self.match(case.pattern, subj, binds, env):
                for k, v in binds.items():
                    self.bind_name(k, v, env)
                if case.guard is None or self.truth(self.eval(case.guard, env)):
                    yield from self.exec_block(case.body, env)
                    return

    def match(self, p, v, binds, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, binds, env) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, binds, env):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.ext.isinstance_(self, v, self.eval(p.cls, env)))
        raise Unsupported("match pattern")

    # --------------------------------------------------------------- assignment
    def bind_name(self, name, v, env):
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
            raise Unsupported(f"nonlocal {name}")
        if name in env.globals_:
            env.module.ns[name] = v
            return
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Term) and v.ty in NUM_TY:
                self.raise_("TypeError", "cannot unpack")
            if isinstance(v, Term) and not stars:
                vals = [Term("item", (v, i)) for i in range(len(t.elts))]
            else:
                vals = list(self.iterate(v))
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(vals) < i + after:
                    self.raise_("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, VList(vals[i: len(vals) - after]), env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
                return
            if len(vals) != len(t.elts):
                self.raise_("ValueError", "unpack")
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.vars and (first or not e.is_class):
                return self._ok(e.vars[name])
            if first and "__comp__" in e.vars:
                e = e.parent
                continue
            if first and e.func is not None and not isinstance(e.func.node, ast.Lambda):
                info = e.func.node.__dict__.get("_info")
                if info and name in info[3] and name not in info[0] and name not in info[1] and not e.is_class:
                    self.raise_("UnboundLocalError", name)
            first = False
            e = e.parent
        if name in env.module.ns:
            return self._ok(env.module.ns[name])
        return self.ext.builtin(self, name)

    # --------------------------------------------------------------- expressions
    def eval(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        return self.getitem(self.eval(n.value, env), self.eval(n.slice, env))

    def e_Slice(self, n, env):
        f = lambda x: self.eval(x, env) if x is not None else None
        return VSlice(f(n.lower), f(n.upper), f(n.step))

    def e_Index(self, n, env):
        return self.eval(n.value, env)

    def _elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def e_Tuple(self, n, env):
        return tuple(self._elts(n.elts, env))

    def e_List(self, n, env):
        return VList(self._elts(n.elts, env))

    def e_Set(self, n, env):
        return self.make_set(self._elts(n.elts, env))

    def make_set(self, items, frozen=False):
        s = VSet([], frozen)
        for x in items:
            if is_const(x) and not isinstance(x, float):
                if any(is_const(y) and y == x and type(y) is not type(None) or y is x for y in s.items):
                    continue
                s.items.append(x)
            else:
                s.items.append(x)  # symbolic duplicates are harmless for membership
        s.maybe_dup = any(not is_const(x) for x in s.items)
        return s

    def e_Dict(self, n, env):
        d = VDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v, env)
                for kk in self.iterate(self.getattr(src, "keys") and self.call(self.getattr(src, "keys"), [])):
                    self.dict_set(d, kk, self.getitem(src, kk))
            else:
                kk = self.eval(k, env)
                self.dict_set(d, kk, self.eval(v, env))
        return d

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.eval(v, env))
        return self.ext.join_str(self, parts)

    def e_FormattedValue(self, n, env):
        v = self.eval(n.value, env)
        spec = self.eval(n.format_spec, env) if n.format_spec is not None else ""
        if n.conversion == ord("r"):
            v = self.ext.repr_(self, v)
        elif n.conversion == ord("s"):
            v = self.ext.str_(self, v)
        if spec == "":
            return self.ext.str_(self, v)
        if is_const(v) and isinstance(spec, str):
            return format(v, spec)
        return Term("fmt", (v, spec), "str")

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return self.not_(v)
        if isinstance(n.op, ast.USub):
            x = self.intish(v)
            if x is None:
                self.raise_("TypeError", "bad operand")
            return -x if is_const(x) else mk_bin("mul", x, -1) if x.ty != "float" else Term("neg", (x,), x.ty)
        if isinstance(n.op, ast.Invert):
            if isinstance(v, Instance):
                return self.call(self.getattr(v, "__invert__"), [])
            x = self.intish(v)
            if x is None:
                self.raise_("TypeError", "bad operand")
            return ~x if is_const(x) else Term("inv", (x,), "int")
        if isinstance(n.op, ast.UAdd):
            return v

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return self.binop(_BINOPS[type(n.op)], a, b)

    def binop(self, op, a, b):
        a, b = self.ctx.resolve(a), self.ctx.resolve(b)
        r = self.ext.binop_hook(self, op, a, b)
        if r is not MISSING:
            return r
        for x, y, nm in ((a, b, f"__{_DUNDER[op]}__"), (b, a, f"__r{_DUNDER[op]}__")):
            if isinstance(x, (Instance, NT, EnumMember)):
                f = self.find_attr(x.cls, nm)
                if f is not None:
                    r = self.call(Bound(f, x), [y])
                    if r is not NotImplemented:
                        return r
        if isinstance(a, EnumMember) and isinstance(b, EnumMember) and a.cls is b.cls and a.cls.kind in ("flag", "intflag") and op in ("bitand", "bitor", "bitxor"):
            return Term("flag", (a.cls, PYBIN[op](a.value, b.value)), "flag")
        an, bn = self.intish(a), self.intish(b)
        if an is not None and bn is not None:
            try:
                fl = None
                if op in ("bitand", "bitor", "bitxor"):
                    for x in (a, b):
                        if isinstance(x, Term) and x.op == "flag":
                            fl = x.args[0]
                        elif isinstance(x, EnumMember) and x.cls.kind in ("flag", "intflag"):
                            fl = fl or x.cls
                r = mk_bin(op, an, bn)
                if fl is not None:
                    return Term("flag", (fl, r), "flag")
                return r
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError")
            except TypeError:
                self.raise_("TypeError", op)
        if op == "add":
            if isinstance(a, tuple) and isinstance(b, (tuple, NT)):
                return a + tuple(b if isinstance(b, tuple) else b.items)
            if isinstance(a, VList) and isinstance(b, VList):
                return VList(a.items + b.items)
            ba, bb = self.bytesish(a), self.bytesish(b)
            if ba is not None and bb is not None:
                r = norm_bytes(ABytes(to_abytes(ba).segs + to_abytes(bb).segs))
                return VByteArray(r) if isinstance(a, VByteArray) else r
            if self.strish(a) and self.strish(b):
                return mk_bin("add", a, b)
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int):
                    if isinstance(x, (str, bytes, tuple)):
                        return x * y
                    if isinstance(x, VList):
                        return VList(x.items * y)
                    if isinstance(x, VByteArray):
                        return VByteArray(norm_bytes(ABytes(to_abytes(x.data).segs * y)))
                    if isinstance(x, ABytes):
                        return norm_bytes(ABytes(x.segs * y))
        if op == "mod" and isinstance(a, str):
            return Term("pctfmt", (a, b), "str")
        if isinstance(a, VSet) and isinstance(b, VSet):
            if all(is_const(x) or isinstance(x, EnumMember) for x in a.items + b.items):
                ib = lambda x, s: any(x is y or self.eq(x, y) is True for y in s.items)
                if op == "bitor":
                    return VSet(a.items + [x for x in b.items if not ib(x, a)], a.frozen)
                if op == "bitand":
                    return VSet([x for x in a.items if ib(x, b)], a.frozen)
                if op == "sub":
                    return VSet([x for x in a.items if not ib(x, b)], a.frozen)
            elif op == "bitor":
                return VSet(a.items + b.items, a.frozen)
        if isinstance(a, VDict) and isinstance(b, VDict) and op == "bitor":
            d = VDict(a.pairs)
            for k, v in b.pairs:
                self.dict_set(d, k, v)
            return d
        if isinstance(a, Term) or isinstance(b, Term):
            if any(isinstance(x, Term) and x.ty in (None, "any") for x in (a, b)) or a is not None and b is not None and not (
                self.intish(a) is not None and self.strish(b) or self.strish(a) and self.intish(b) is not None
            ):
                if (is_const(a) or isinstance(a, (Term, Ext))) and (is_const(b) or isinstance(b, (Term, Ext))) and a is not None and b is not None:
                    return Term(op, (a, b), None)
                raise Unsupported(f"{op} of {a!r} and {b!r}")
        if isinstance(a, (Ext, Alias)) or isinstance(b, (Ext, Alias)):
            return Term(op, (a, b), None)
        self.raise_("TypeError", f"unsupported operand for {op}: {show(a)}, {show(b)}")

    def strish(self, v):
        return isinstance(v, str) or isinstance(v, Term) and v.ty == "str"

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, env)
            if i == len(n.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c, env)
            if isinstance(op, (ast.Is, ast.IsNot)):
                r = self.is_(left, right)
                if isinstance(op, ast.IsNot):
                    r = self.not_(r)
            elif isinstance(op, ast.In):
                r = self.contains(left, right)
            elif isinstance(op, ast.NotIn):
                r = self.not_(self.contains(left, right))
            else:
                r = self.compare(_CMPS[type(op)], left, right)
            if i == len(n.ops) - 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return res

    def is_(self, a, b):
        a, b = self.ctx.resolve(a), self.ctx.resolve(b)
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if y is None or y is True or y is False:
                if isinstance(x, Term):
                    if y is None:
                        if x.ty in (None, "any"):
                            return Term("eq", (x, None), "bool")
                        return False
                    if x.ty == "bool":
                        return self.eq(x, y)
                    return False
                return x is y
        if is_const(a) and is_const(b):
            return type(a) is type(b) and a == b
        if isinstance(a, Term) and isinstance(b, Term) and a == b:
            return True
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, Alias) or isinstance(b, Alias):
            return False
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            return self.eq(a, b)
        if isinstance(a, (Term,)) or isinstance(b, Term):
            if isinstance(a, (Instance, ClassVal, tuple, VList, VDict)) or isinstance(b, (Instance, ClassVal, tuple, VList, VDict)):
                return False
            raise Unsupported(f"identity of {a!r} and {b!r}")
        return False

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        e = env
        while e.func is None and e.parent is not None and getattr(e, "is_class", False) is False and e.vars.get("__comp__"):
            e = e.parent
        if "__comp__" in env.vars:
            e = env
            while "__comp__" in e.vars:
                e = e.parent
        self.bind_name(n.target.id, v, e)
        return v

    def e_Lambda(self, n, env):
        return self.make_func(n, env)

    def e_Starred(self, n, env):
        raise Unsupported("starred expression")

    def e_Call(self, n, env):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None and (e.func is None or e.func.cls is None or isinstance(e.func.node, ast.Lambda) or "__comp__" in e.vars):
                e = e.parent
            if e is None:
                raise Unsupported("super() outside a method")
            names = e.func.node.args
            first = (list(names.posonlyargs) + list(names.args))[0].arg
            return SuperVal(e.func.cls, e.vars[first])
        f = self.eval(n.func, env)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                for kk in self.iterate(d):
                    kw[kk] = self.getitem(d, kk)
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    # comprehensions
    def _comp_env(self, env):
        e = Env(env if not env.is_class else env.parent, env.module, env.func)
        if env.is_class:
            e.parent = env
        e.vars = {"__comp__": True}
        e.cls = getattr(env, "cls", None)
        return e

    def _comp(self, gens, env, emit, first=None):
        g = gens[0]
        it = first if first is not None else self.iterate(self.eval(g.iter, env))
        n = 0
        for x in it:
            n += 1
            if n > 5000:
                raise Unsupported("loop bound")
            self.assign(g.target, x, env)
            ok = True
            for c in g.ifs:
                if not self.truth(self.eval(c, env)):
                    ok = False
                    break
            if ok:
                if len(gens) > 1:
                    yield from self._comp(gens[1:], env, emit)
                else:
                    yield emit(env)

    def e_GeneratorExp(self, n, env):
        src = self.iterate(self.eval(n.generators[0].iter, env))
        e = self._comp_env(env)
        return VIter(self._comp(n.generators, e, lambda ev_: self.eval(n.elt, ev_), src), "generator expression")

    def e_ListComp(self, n, env):
        src = self.iterate(self.eval(n.generators[0].iter, env))
        e = self._comp_env(env)
        return VList(list(self._comp(n.generators, e, lambda ev_: self.eval(n.elt, ev_), src)))

    def e_SetComp(self, n, env):
        src = self.iterate(self.eval(n.generators[0].iter, env))
        e = self._comp_env(env)
        return self.make_set(list(self._comp(n.generators, e, lambda ev_: self.eval(n.elt, ev_), src)))

    def e_DictComp(self, n, env):
        src = self.iterate(self.eval(n.generators[0].iter, env))
        e = self._comp_env(env)
        d = VDict()
        for k, v in self._comp(n.generators, e, lambda ev_: (self.eval(n.key, ev_), self.eval(n.value, ev_)), src):
            self.dict_set(d, k, v)
        return d
