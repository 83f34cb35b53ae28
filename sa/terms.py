"""Construction, normalisation, evaluation and comparison of value terms."""
from __future__ import annotations

import math

from .values import *
from .values import _same


class CannotEval(Exception):
    pass


# ------------------------------------------------------------ leaves & domains
def leaf_dom(t):
    """Natural integer domain of a leaf, from its storage kind."""
    if t.op == "rd":
        w, kind = t.args[2], t.args[3]
        if kind == "u":
            return IntDom.rng(0, (1 << (8 * w)) - 1)
        if kind == "s":
            return IntDom.rng(-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1)
    if t.op == "sym" and t.ty == "byte":
        return IntDom.rng(0, 255)
    if t.op == "sym" and t.ty == "bool":
        return IntDom.rng(0, 1)
    return None


LEAF_OPS = {"sym", "rd", "decode"}


def leaves(t, out=None):
    out = {} if out is None else out
    if isinstance(t, Term):
        if t.op in LEAF_OPS:
            out[t] = None
        else:
            for a in t.args:
                leaves(a, out)
    elif isinstance(t, (tuple, list)):
        for a in t:
            leaves(a, out)
    elif isinstance(t, NT):
        leaves(t.items, out)
    elif isinstance(t, (VList, VSet)):
        leaves(t.items, out)
    elif isinstance(t, VDict):
        for k, v in t.pairs:
            leaves(k, out)
            leaves(v, out)
    elif isinstance(t, ABytes):
        for s in t.segs:
            if not isinstance(s, bytes) and s[0] == "enc":
                leaves(s[3], out)
    return list(out)


def is_int_ty(v):
    return isinstance(v, int) or (isinstance(v, Term) and v.ty in ("int", "byte", "bool", "flag"))


NUM_TY = ("int", "byte", "bool", "float", "flag", "num")


def _ty_arith(op, a, b):
    ta = a.ty if isinstance(a, Term) else ("float" if isinstance(a, float) else "int" if isinstance(a, int) else "str" if isinstance(a, str) else None)
    tb = b.ty if isinstance(b, Term) else ("float" if isinstance(b, float) else "int" if isinstance(b, int) else "str" if isinstance(b, str) else None)
    if op == "div":
        return "float"
    if "str" in (ta, tb):
        return "str"
    if "float" in (ta, tb):
        return "float"
    if op == "pow":
        return "num"
    if ta in ("int", "byte", "bool", "flag") and tb in ("int", "byte", "bool", "flag"):
        return "int"
    return "num"


PYBIN = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "div": lambda a, b: a / b, "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b,
    "pow": lambda a, b: a ** b, "bitand": lambda a, b: a & b, "bitor": lambda a, b: a | b,
    "bitxor": lambda a, b: a ^ b, "shl": lambda a, b: a << b, "shr": lambda a, b: a >> b,
}


# Linear integer normal form ---------------------------------------------------
def _lin(t):
    """t as (const, {atom: coeff}) when t is integer linear, else None."""
    if isinstance(t, bool):
        return int(t), {}
    if isinstance(t, int):
        return t, {}
    if not isinstance(t, Term) or t.ty not in ("int", "byte", "bool", "flag"):
        return None
    if t.op in ("add", "sub"):
        x, y = _lin(t.args[0]), _lin(t.args[1])
        if x is None or y is None:
            return None
        s = 1 if t.op == "add" else -1
        d = dict(x[1])
        for k, v in y[1].items():
            d[k] = d.get(k, 0) + s * v
        return x[0] + s * y[0], {k: v for k, v in d.items() if v}
    if t.op == "mul":
        x, y = _lin(t.args[0]), _lin(t.args[1])
        if x is None or y is None:
            return None
        if not x[1]:
            return x[0] * y[0], {k: v * x[0] for k, v in y[1].items() if v * x[0]}
        if not y[1]:
            return x[0] * y[0], {k: v * y[0] for k, v in x[1].items() if v * y[0]}
        return 0, {t: 1}
    if t.op == "neg":
        x = _lin(t.args[0])
        return None if x is None else (-x[0], {k: -v for k, v in x[1].items()})
    return 0, {t: 1}


def _key(t):
    return repr(t)


def _fold_divmod(d):
    """a*k*(x//k) + a*(x%k) -> a*x, repeatedly."""
    changed = True
    while changed:
        changed = False
        for t, a in list(d.items()):
            if t is not None and t.op == "mod" and isinstance(t.args[1], int) and t.args[1] > 0:
                x, k = t.args
                q = Term("floordiv", (x, k), "int")
                if d.get(q) == a * k:
                    del d[t], d[q]
                    lx = _lin(x)
                    for kk, vv in lx[1].items():
                        d[kk] = d.get(kk, 0) + a * vv
                        if not d[kk]:
                            del d[kk]
                    if lx[0]:
                        d[None] = d.get(None, 0) + a * lx[0]
                    changed = True
                    break
    return d


def _unlin(c, d):
    d = _fold_divmod(dict(d))
    c += d.pop(None, 0)
    out = None
    for t in sorted(d, key=_key):
        k = d[t]
        e = t if k == 1 else Term("mul", (t, k), "int")
        out = e if out is None else Term("add", (out, e), "int")
    if out is None:
        return c
    if c:
        out = Term("add", (out, c), "int")
    return out


def mk_bin(op, a, b):
    if is_const(a) and is_const(b) and a is not None and b is not None:
        return PYBIN[op](a, b)
    if op in ("add", "sub", "mul") and is_int_ty(a) and is_int_ty(b):
        t = Term(op, (a, b), "int")
        l = _lin(t)
        if l is not None:
            return _unlin(*l)
    if op in ("bitand", "bitor", "bitxor"):
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
        if type(b) is bool and isinstance(a, Term) and a.ty == "bool":
            return {"bitand": a if b else False, "bitor": True if b else a, "bitxor": mk_not(a) if b else a}[op]
        if isinstance(b, int):
            if op == "bitand" and b == 0:
                return 0
            if op in ("bitor", "bitxor") and b == 0:
                return a
            if op == "bitand" and b == -1:
                return a
            if isinstance(a, Term) and a.op == op and isinstance(a.args[1], int):
                return mk_bin(op, a.args[0], PYBIN[op](a.args[1], b))
            if op == "bitand" and isinstance(a, Term) and a.op == "bitor" and isinstance(a.args[1], int):
                if a.args[1] & b == b:
                    return b
                if a.args[1] & b == 0:
                    return mk_bin(op, a.args[0], b)
            if op == "bitor" and isinstance(a, Term) and a.op == "bitand" and isinstance(a.args[1], int) and (a.args[1] | b) == -1:
                return mk_bin(op, a.args[0], b)
            if op == "bitand" and isinstance(a, Term) and a.op == "rd" and a.args[3] == "s" and 0 <= b < 1 << 8 * a.args[2]:
                return mk_bin(op, Term("rd", a.args[:3] + ("u",), "int"), b)
        elif _key(b) < _key(a):
            a, b = b, a
        return Term(op, (a, b), "int")
    if op in ("shl", "shr") and b == 0:
        return a
    if op in ("floordiv",) and b == 1 and is_int_ty(a):
        return a
    if op in ("floordiv", "mod") and isinstance(b, int) and b > 0 and is_int_ty(a):
        l = _lin(a)
        if l and l[1]:
            # (k*q + r) // b where the rest is known non-negative and < b
            mult = {t: c for t, c in l[1].items() if c % b == 0}
            rest = {t: c for t, c in l[1].items() if c % b}
            c0 = l[0]
            lo, hi = _bounds(c0 % b, rest)
            if mult and lo is not None and lo >= 0 and hi < b:
                if op == "mod":
                    return _unlin(c0 % b, rest)
                return _unlin(c0 // b, {t: c // b for t, c in mult.items()})
            if not mult and lo is not None and 0 <= lo and hi < b and c0 % b == c0:
                return 0 if op == "floordiv" else a
    if op == "add" and isinstance(a, str) and a == "":
        return b
    if op == "add" and isinstance(b, str) and b == "":
        return a
    if op == "add" and _ty_arith(op, a, b) == "str":
        return mk_concat([a, b])
    if op == "mul" and isinstance(a, (int, float)) and not isinstance(b, (int, float)):
        a, b = b, a
    if op == "mul" and b == 1 and is_int_ty(a) and not isinstance(b, float):
        return a
    return Term(op, (a, b), _ty_arith(op, a, b))


def _bounds(c, d):
    lo = hi = c
    for t, k in d.items():
        b = bounds(t)
        if b is None:
            return None, None
        l, h = b
        lo += min(k * l, k * h)
        hi += max(k * l, k * h)
    return lo, hi


def bounds(t):
    if isinstance(t, int):
        return t, t
    if not isinstance(t, Term):
        return None
    d = leaf_dom(t)
    if d is not None and not d.empty():
        return d.lo(), d.hi()
    if t.op == "mod" and isinstance(t.args[1], int) and t.args[1] > 0:
        return 0, t.args[1] - 1
    if t.op == "bitand" and isinstance(t.args[1], int) and t.args[1] >= 0:
        return 0, t.args[1]
    if t.op == "floordiv" and isinstance(t.args[1], int) and t.args[1] > 0:
        b = bounds(t.args[0])
        return b and (b[0] // t.args[1], b[1] // t.args[1])
    if t.op == "shr" and isinstance(t.args[1], int):
        b = bounds(t.args[0])
        return b and (b[0] >> t.args[1], b[1] >> t.args[1])
    if t.ty in ("int",) and t.op in ("add", "mul", "sub"):
        l = _lin(t)
        if l and t not in l[1]:
            r = _bounds(l[0], l[1])
            return None if r[0] is None else r
    return None


def mk_concat(parts):
    out = []
    for p in parts:
        if isinstance(p, Term) and p.op == "concat":
            out.extend(p.args)
        else:
            out.append(p)
    m = []
    for p in out:
        if isinstance(p, str) and m and isinstance(m[-1], str):
            m[-1] += p
        elif p != "" or not isinstance(p, str):
            m.append(p)
    if not m:
        return ""
    if len(m) == 1:
        return m[0]
    return Term("concat", m, "str")


def mk_not(t):
    if isinstance(t, Term) and t.op == "not":
        return t.args[0] if t.args[0].ty == "bool" else Term("bool", (t.args[0],), "bool")
    if isinstance(t, Term) and t.op == "bool":
        return mk_not(t.args[0])
    if is_const(t):
        return not t
    return Term("not", (t,), "bool")


def bytes_apart(a, b):
    """Two byte strings that differ for sure: in length or in a constant byte."""
    if len(a) != len(b):
        return True
    known = []
    for x in (a, b):
        d, pos = {}, 0
        for s in to_abytes(x).segs:
            if isinstance(s, bytes):
                d.update(enumerate(s, pos))
            pos += seg_len(s)
        known.append(d)
    return any(known[1].get(i, v) != v for i, v in known[0].items())


def mk_cmp(op, a, b):
    """op in eq ne lt le gt ge."""
    if op == "ne":
        return mk_not(mk_cmp("eq", a, b))
    if op == "gt":
        return mk_cmp("lt", b, a)
    if op == "ge":
        return mk_cmp("le", b, a)
    if is_const(a) and is_const(b):
        if op == "eq":
            return a == b
        return a < b if op == "lt" else a <= b
    if _same(a, b) and not (isinstance(a, Term) and a.ty == "float"):
        return op in ("eq", "le")
    if op == "eq":
        if isinstance(a, (ABytes, bytes)) and isinstance(b, (ABytes, bytes)) and bytes_apart(a, b):
            return False
        if is_const(a) or (not is_const(b) and _key(b) < _key(a)):
            a, b = b, a
        if isinstance(a, Term) and a.ty == "bool" and type(b) in (bool, int):
            return a if b == 1 else mk_not(a) if b == 0 else False
        # strip additive constants: x + c == d
        if is_int_ty(a) and is_int_ty(b):
            l = _lin(mk_bin("sub", a, b))
            if l is not None:
                if not l[1]:
                    return l[0] == 0
                if len(l[1]) == 1:
                    (t, k), = l[1].items()
                    if (-l[0]) % k:
                        return False
                    return Term("eq", (t, -l[0] // k), "bool")
    elif is_int_ty(a) and is_int_ty(b):
        l = _lin(mk_bin("sub", a, b))  # a - b < 0
        if l is not None:
            if not l[1]:
                return l[0] < 0 if op == "lt" else l[0] <= 0
            if len(l[1]) == 1:
                (t, k), = l[1].items()
                c0 = -l[0]
                if k > 0:  # t < c0/k
                    bnd = math.ceil(c0 / k) - 1 if op == "lt" else math.floor(c0 / k)
                    return Term("le", (t, bnd), "bool")
                k = -k  # t > -c0/k
                bnd = math.floor(-c0 / k) + 1 if op == "lt" else math.ceil(-c0 / k)
                return Term("not", (Term("le", (t, bnd - 1), "bool"),), "bool")
    return Term(op, (a, b), "bool")


# -------------------------------------------------------------------- evaluate
def _pyint(x):
    return int(x)


EV = {}


def ev_op(name):
    def deco(f):
        EV[name] = f
        return f
    return deco


for _n, _f in PYBIN.items():
    EV[_n] = _f
EV.update({
    "eq": lambda a, b: a == b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
    "not": lambda a: not a, "bool": lambda a: bool(a), "int": lambda a: int(a),
    "float": lambda a: float(a), "round": lambda a, *n: round(a, *n), "str": lambda a: str(a),
    "neg": lambda a: -a, "inv": lambda a: ~a, "abs": lambda a: abs(a), "len": lambda a: len(a),
    "floor": lambda a: math.floor(a), "ceil": lambda a: math.ceil(a), "trunc": lambda a: math.trunc(a),
    "log2": lambda a: math.log2(a), "log": lambda a, *b: math.log(a, *b), "exp": lambda a: math.exp(a),
    "sqrt": lambda a: math.sqrt(a), "log10": lambda a: math.log10(a),
    "min": lambda *a: min(a), "max": lambda *a: max(a), "ord": lambda a: ord(a), "chr": lambda a: chr(a),
    "concat": lambda *a: "".join(a), "ite": lambda c, a, b: a if c else b,
    "and": lambda *a: all(a), "or": lambda *a: any(a),
    "modf0": lambda a: math.modf(a)[0], "modf1": lambda a: math.modf(a)[1], "fmod": math.fmod,
    "inset": lambda a, s: a in s, "item": lambda a, i: a[i], "slice": lambda a, i, j, k: a[slice(i, j, k)],
    "to_bytes": lambda a, n, order, signed=False: a.to_bytes(n, order, signed=signed),
    "from_bytes": lambda b, order, signed=False: int.from_bytes(b, order, signed=signed),
    "enum": lambda cls, x: x, "flag": lambda cls, x: x,
    "hasbits": lambda a, b: a & b == b,
    "fmt": lambda v, spec: format(v, spec),
})

_STR_METHODS = {
    "rstrip", "lstrip", "strip", "startswith", "endswith", "replace", "split", "rsplit", "partition",
    "rpartition", "upper", "lower", "find", "index", "isalnum", "isdigit", "isnumeric", "isdecimal", "isalpha", "join",
    "removeprefix", "removesuffix", "decode", "encode", "zfill", "title", "isascii", "isspace", "count",
}


def ev(t, env):
    if isinstance(t, Term):
        if t in env:
            return env[t]
        if t.op == "rd":
            return _rd_const(_srcbytes(t.args[0], t.args[1], t.args[2], env), t.args[3])
        if t.op == "decode":
            return ev(t.args[0], env).decode(t.args[1])
        if t.op == "rdmix":
            return _rd_const(ev(t.args[0], env), t.args[1])
        if t.op.startswith("m:"):
            args = [ev(a, env) for a in t.args]
            name = t.op[2:]
            if name not in _STR_METHODS:
                raise CannotEval(t.op)
            return getattr(args[0], name)(*args[1:])
        f = EV.get(t.op)
        if f is None:
            raise CannotEval(t.op)
        if t.op in ("enum", "flag"):
            return ev(t.args[1], env)
        if t.op == "ite":
            return ev(t.args[1] if ev(t.args[0], env) else t.args[2], env)
        return f(*[ev(a, env) for a in t.args])
    if isinstance(t, tuple):
        return tuple(ev(x, env) for x in t)
    if isinstance(t, NT):
        return tuple(ev(x, env) for x in t.items)
    if isinstance(t, VList):
        return [ev(x, env) for x in t.items]
    if isinstance(t, VByteArray):
        return ev(t.data, env)
    if isinstance(t, EnumMember):
        return t.value if isinstance(t.value, int) else ("enum", t.cls.name, t.name)
    if isinstance(t, ABytes):
        out = []
        for s in t.segs:
            if isinstance(s, bytes):
                out.append(s)
            elif s[0] == "raw":
                out.append(_srcbytes(s[1], s[2], s[3], env))
            else:
                out.append(enc_value(s[1], s[2], ev(s[3], env)))
        return b"".join(out)
    if is_const(t):
        return t
    raise CannotEval(type(t).__name__)


_ident = {}


def identity_leaf(t, ctx=None):
    """The leaf ``t`` equals for every stored value, if there is one."""
    if not isinstance(t, Term) or t.op in LEAF_OPS:
        return None
    ls = leaves(t)
    if len(ls) != 1 or ls[0].op != "rd" or ls[0].args[3] not in "us":
        return None
    x = ls[0]
    d = ctx.dom(x) if ctx is not None else leaf_dom(x)
    if d is None or d.size() > 65536:
        return None
    return x if _is_ident(t, x, d) else None


def _is_ident(t, x, d):
    k = (_shape(t, x), d)
    r = _ident.get(k)
    if r is None:
        try:
            r = all(ev(t, {x: v}) == v for v in d.values())
        except Exception:
            r = False
        _ident[k] = r
    return r


def mk_slice(o, a, b, st):
    """o[a:b:st] of a text: constant ends of a concatenation are cut off."""
    if st in (None, 1) and isinstance(o, Term) and o.op == "concat":
        parts = list(o.args)
        if isinstance(b, int) and b < 0 and isinstance(parts[-1], str) and len(parts[-1]) >= -b:
            parts[-1] = parts[-1][:b]
            b = None
        if isinstance(a, int) and a >= 0 and isinstance(parts[0], str) and len(parts[0]) >= a:
            parts[0] = parts[0][a:]
            a = None
        if a in (None, 0) and b is None:
            return mk_concat(parts)
        o = mk_concat(parts)
        if not isinstance(o, Term):
            return o[a:b]
    return Term("slice", (o, a, b, st), o.ty)


def mk_int(v):
    """int(v) of a number: dropped when v is known to be the integer inside."""
    if not isinstance(v, Term):
        return int(v)
    if v.ty in ("int", "byte"):
        return v
    for a in _atoms(v):
        b = bounds(a)
        if b is not None and b[1] - b[0] <= 4096 and _is_ident(Term("int", (v,), "int"), a, IntDom.rng(*b)):
            return a
    return Term("int", (v,), "int")


def _atoms(t):
    """Integer sub-terms a numeric chain of operations is built on."""
    while isinstance(t, Term) and t.op not in LEAF_OPS:
        ts = [a for a in t.args if isinstance(a, Term)]
        if len(ts) != 1 or t.op not in EV:
            return
        t = ts[0]
        if t.ty in ("int", "byte"):
            yield t


def mk_round(v):
    """round(v) to the nearest integer.

    Lemma used: when v is, over the reals, an integer-valued x + c with
    |x| < 2**40 computed by a constant number of double operations, the
    rounding error is far below 1/2 and round() restores x + c."""
    if not isinstance(v, Term):
        return round(v)
    if v.ty in ("int", "byte"):
        return v
    r = _real_lin(v)
    if r is not None and r[2] is not None and r[0] == 1 and r[1].denominator == 1:
        b = bounds(r[2])
        if b is not None and max(abs(b[0]), abs(b[1])) < 2 ** 40:
            return mk_bin("add", r[2], int(r[1]))
    return Term("round", (v,), "int")


def _real_lin(t):
    """t = a * x + b over the reals, x one integer term: (a, b, x) or None."""
    from fractions import Fraction
    if isinstance(t, (int, float)) and not isinstance(t, bool):
        try:
            return Fraction(0), Fraction(t), None
        except (OverflowError, ValueError):
            return None
    if not isinstance(t, Term):
        return None
    if t.ty in ("int", "byte") and t.op not in ("int", "round", "floor", "trunc", "ceil"):
        return Fraction(1), Fraction(0), t
    if t.op in ("add", "sub", "mul", "div"):
        p, q = _real_lin(t.args[0]), _real_lin(t.args[1])
        if p is None or q is None:
            return None
        if t.op in ("add", "sub"):
            s = 1 if t.op == "add" else -1
            if p[2] is not None and q[2] is not None and p[2] != q[2]:
                return None
            return p[0] + s * q[0], p[1] + s * q[1], p[2] if p[2] is not None else q[2]
        if t.op == "mul":
            if q[2] is not None:
                p, q = q, p
            if q[2] is not None:
                return None
            return p[0] * q[1], p[1] * q[1], p[2]
        if q[2] is not None or not q[1]:
            return None
        return p[0] / q[1], p[1] / q[1], p[2]
    if t.op == "log2":
        return _log2_lin(t.args[0])
    return None


def _log2_lin(t):
    from fractions import Fraction
    if isinstance(t, (int, float)) and t > 0:
        m, e = math.frexp(t)
        return (Fraction(0), Fraction(e - 1), None) if m == 0.5 else None
    if not isinstance(t, Term):
        return None
    if t.op == "pow" and t.args[0] == 2:
        return _real_lin(t.args[1])
    if t.op in ("mul", "div"):
        p, q = _log2_lin(t.args[0]), _log2_lin(t.args[1])
        if p is None or q is None:
            return None
        s = 1 if t.op == "mul" else -1
        if p[2] is not None and q[2] is not None:
            return None
        return p[0] + s * q[0], p[1] + s * q[1], p[2] if p[2] is not None else q[2]
    return None


def nbounds(t, ctx=None):
    """Interval of a numeric term (floats included), None when unknown."""
    if isinstance(t, bool):
        return int(t), int(t)
    if isinstance(t, (int, float)):
        return (t, t) if t == t else None
    if not isinstance(t, Term):
        return None
    d = ctx.doms.get(t) if ctx is not None else None
    if d is None:
        d = leaf_dom(t)
    if d is not None and not d.empty():
        return d.lo(), d.hi()
    if t.ty == "bool":
        return 0, 1
    rec = lambda x: nbounds(x, ctx)
    try:
        if t.op in ("add", "sub", "mul", "div"):
            p, q = rec(t.args[0]), rec(t.args[1])
            if p is None or q is None:
                return None
            if t.op == "div" and q[0] <= 0 <= q[1]:
                return None
            f = PYBIN[t.op]
            cs = [f(x, y) for x in p for y in q]
            return (None if any(c != c for c in cs) else (min(cs), max(cs)))
        if t.op == "floordiv" and isinstance(t.args[1], int) and t.args[1] > 0:
            p = rec(t.args[0])
            return p and (p[0] // t.args[1], p[1] // t.args[1])
        if t.op == "mod" and isinstance(t.args[1], int) and t.args[1] > 0:
            return 0, t.args[1] - 1
        if t.op == "bitand" and isinstance(t.args[1], int) and t.args[1] >= 0:
            return 0, t.args[1]
        if t.op in ("bitand", "bitor", "bitxor"):
            p, q = rec(t.args[0]), rec(t.args[1])
            if p is None or q is None or INF in (p[1], q[1]) or -INF in (p[0], q[0]):
                return None
            if t.op == "bitand":
                if p[0] >= 0 or q[0] >= 0:
                    return 0, min(x[1] for x in (p, q) if x[0] >= 0)
            elif p[0] >= 0 and q[0] >= 0:
                return (max(p[0], q[0]) if t.op == "bitor" else 0), (1 << max(p[1], q[1]).bit_length()) - 1
            m = 1 << max((x if x >= 0 else ~x).bit_length() for x in p + q)
            return -m, m - 1
        if t.op == "shr" and isinstance(t.args[1], int):
            p = rec(t.args[0])
            return p and (p[0] >> t.args[1], p[1] >> t.args[1])
        if t.op == "pow" and isinstance(t.args[0], (int, float)) and t.args[0] > 1:
            p = rec(t.args[1])
            return p and (t.args[0] ** p[0], t.args[0] ** p[1])
        if t.op == "log2":
            p = rec(t.args[0])
            return None if p is None or p[0] <= 0 else (math.log2(p[0]), math.log2(p[1]))
        if t.op in ("int", "round", "floor", "ceil", "trunc", "float") and len(t.args) == 1:
            p = rec(t.args[0])
            if p is None:
                return None
            f = EV[t.op]
            return f(p[0]) if abs(p[0]) != INF else p[0], f(p[1]) if abs(p[1]) != INF else p[1]
        if t.op in ("min", "max"):
            ps = [rec(x) for x in t.args]
            f = min if t.op == "min" else max
            if any(p is None for p in ps):
                return None
            return f(p[0] for p in ps), f(p[1] for p in ps)
        if t.op == "neg":
            p = rec(t.args[0])
            return p and (-p[1], -p[0])
        if t.op in ("enum", "flag"):
            return rec(t.args[1])
        if t.op == "len" or t.op == "ord":
            return 0, INF
    except (OverflowError, ValueError, TypeError, ZeroDivisionError):
        return None
    return None


def _shape(t, x):
    if isinstance(t, Term):
        if t == x:
            return ("*",) + (tuple(x.args[2:4]) if x.op == "rd" else ())
        return (t.op,) + tuple(_shape(a, x) for a in t.args)
    return repr(t)


def enc_value(n, kind, v):
    import struct
    if kind == "u":
        return int(v).to_bytes(n, "little")
    if kind == "s":
        return int(v).to_bytes(n, "little", signed=True)
    if kind == "ub":
        return int(v).to_bytes(n, "big")
    if kind == "sb":
        return int(v).to_bytes(n, "big", signed=True)
    if kind == "f":
        return struct.pack("<f" if n == 4 else "<d", v)
    raise CannotEval(kind)


def _srcbytes(name, start, n, env):
    f = env.get("bytes")
    if f is None:
        raise CannotEval("source bytes")
    return bytes(f(name, i) for i in range(start, start + n))


def _rd_const(b, kind):
    import struct
    if kind in ("u", "s"):
        return int.from_bytes(b, "little", signed=kind == "s")
    if kind in ("ub", "sb"):
        return int.from_bytes(b, "big", signed=kind == "sb")
    return struct.unpack({2: "<e", 4: "<f", 8: "<d"}[len(b)], b)[0]


# Corner points used to refute an equality of two normal forms.  A point fixes
# every byte of every source and every free leaf; both forms are then folded to
# constants.  Only a difference is ever concluded from it, never an equality.
_PATTERNS = [
    lambda i: (i * 37 + 11) & 0xFF, lambda i: 0, lambda i: 0xFF, lambda i: (0x41 + i % 26) if i % 2 == 0 else 0,
    lambda i: 0x30 + i % 10, lambda i: (0, 0, 0x80, 0x3F)[i % 4], lambda i: (0, 0, 0, 0x3F)[i % 4], lambda i: 1,
    lambda i: (0x00, 0x80)[i % 2], lambda i: (0x01, 0, 0, 0)[i % 4], lambda i: 0x80, lambda i: 0x7F, lambda i: 0x40 + i % 16,
    lambda i: (0xC3, 0xF5, 0x48, 0x40)[i % 4], lambda i: 1 << (i % 8), lambda i: 0xFE - i % 32,
]
_STRS = ["", "a", "C#5", "12.9.1", "Fruity Wrapper", "zz9", "100%", "7", "B10"]
_FLTS = [0.0, 1.0, 0.5, 0.25, 0.29, 1.1, 57.3, 130.57, 140.01, 2.675, 0.1, 100.0, 3.0, 521.999]
_INTS = [0, 1, 2, 3, 5, 7, 12, 60, 64, 100, 127, 128, 255, 256, 499, 1000, 20480, 65535, 65536, -1, -5]


_leafcache = {}


def _cleaves(t):
    r = _leafcache.get(t)
    if r is None:
        if len(_leafcache) > 200000:
            _leafcache.clear()
        r = _leafcache[t] = frozenset(leaves(t))
    return r


def _lkey(l):
    return l.args[0] if l.op == "rd" else l


def srckeys(t, out):
    """Leaves and source names a value depends on."""
    if isinstance(t, Term):
        if t.op in LEAF_OPS:
            out.add(_lkey(t))
        for a in t.args:
            if isinstance(a, (Term, tuple, list, ABytes, NT)):
                srckeys(a, out)
    elif isinstance(t, (tuple, list)):
        for a in t:
            srckeys(a, out)
    elif isinstance(t, (NT, VList, VSet)):
        srckeys(list(t.items), out)
    elif isinstance(t, VDict):
        for k, v in t.pairs:
            srckeys(k, out)
            srckeys(v, out)
    elif isinstance(t, ABytes):
        for s in t.segs:
            if not isinstance(s, bytes):
                if s[0] == "raw":
                    out.add(s[1])
                else:
                    srckeys(s[3], out)
    return out


_keycache = {}


def _ckeys(t):
    r = _keycache.get(t)
    if r is None:
        if len(_keycache) > 200000:
            _keycache.clear()
        r = _keycache[t] = frozenset(srckeys(t, set()))
    return r


def related(own, ctx):
    """Facts of a path that mention (transitively) the given values."""
    facts = []
    for d, kind in ((ctx.doms, 0), (ctx.atoms, 1), (ctx.eqc, 2), (ctx.neqc, 3)):
        for f, v in d.items():
            facts.append((f, kind, v, _cleaves(f), _ckeys(f)))
    keys = srckeys(own, set())
    out, rest, grown = [], facts, True
    while grown:
        grown, nxt = False, []
        for x in rest:
            if x[4] & keys:
                out.append(x)
                if not x[4] <= keys:
                    keys |= x[4]
                    grown = True
            else:
                nxt.append(x)
        rest = nxt
    return out


def points(terms, ctx, count=96):
    own = leaves(terms)
    ls = set(own)
    facts = []
    if ctx is not None:
        facts = related(terms, ctx)
        for f in facts:
            ls |= f[3]
    ls = sorted(ls, key=repr)
    for k in range(count):
        env = {}
        over = {}
        pat = _PATTERNS[k % len(_PATTERNS)]
        for idx, l in enumerate(ls):
            d = ctx.doms.get(l) if ctx is not None else None
            if l.op == "rd":
                c = None
                if ctx is not None and l in ctx.eqc:
                    c = ctx.eqc[l]
                elif d is not None and l.args[3] in ("u", "s"):
                    cs = [x for iv in d.iv for x in (iv[0], iv[1], (iv[0] + iv[1]) // 2 if abs(iv[0]) != INF and abs(iv[1]) != INF else 0) if abs(x) != INF and x in d]
                    c = cs[(k + idx) % len(cs)] if cs else None
                if c is not None:
                    try:
                        b = enc_value(l.args[2], l.args[3], c)
                    except Exception:
                        continue
                    for j, x in enumerate(b):
                        over[(l.args[0], l.args[1] + j)] = x
            elif l.op == "sym":
                j = k // len(_PATTERNS) * 5 + k * 3 + idx * 7
                if ctx is not None and l in ctx.eqc:
                    env[l] = ctx.eqc[l]
                elif l.ty == "str":
                    env[l] = _STRS[j % len(_STRS)]
                elif l.ty == "float":
                    env[l] = _FLTS[j % len(_FLTS)]
                elif l.ty == "bool":
                    env[l] = bool(j % 2)
                elif l.ty in ("int", "byte", "num", "flag"):
                    dd = (ctx.dom(l) if ctx is not None else leaf_dom(l)) or IntDom.rng(-INF, INF)
                    cs = [x for iv in dd.iv for x in iv if abs(x) != INF] + [x for x in _INTS if x in dd]
                    if cs:
                        env[l] = cs[j % len(cs)]
                elif l.ty in (None, "any"):
                    env[l] = f"@{idx}"
        env["bytes"] = lambda name, i, pat=pat, over=over: over.get((name, i), pat(i + 5 * (len(str(name)) if k > 40 else 0)))
        if ctx is not None and not ctx.consistent(env, own, facts):
            continue
        yield env


def _tuplish(v):
    if isinstance(v, (VList,)):
        return list(v.items)
    if isinstance(v, NT):
        return list(v.items)
    if isinstance(v, tuple):
        return list(v)
    return None


EQ, NE, UNK = "equal", "different", "undecided"


def _word(v):
    """(source, offset, width) when bytes ``v`` are a bitwise function of it."""
    if isinstance(v, bytes):
        return ()
    if not isinstance(v, ABytes) or len(v.segs) != 1:
        return None
    s = v.segs[0]
    if isinstance(s, bytes):
        return ()
    if s[0] == "raw":
        return s[1], s[2], s[3]
    if s[2] not in ("u", "s"):
        return None
    out = set()

    def walk(t):
        if isinstance(t, Term):
            if t.op == "rd" and t.args[3] in ("u", "s"):
                out.add(t.args[:3])
                return t.args[2] == s[1]
            if t.op in ("enum", "flag"):
                return walk(t.args[1])
            if t.op in ("bitand", "bitor", "bitxor", "inv"):
                return all(walk(x) for x in t.args)
            return False
        return isinstance(t, int) or (isinstance(t, EnumMember) and isinstance(t.value, int))

    if not walk(s[3]) or len(out) > 1:
        return None
    return out.pop() if out else ()


def _bit_bytes(a, b, ctx):
    x, y = _word(a), _word(b)
    if x is None or y is None or (x and y and x != y):
        return None
    for c in (0, 255):
        env = {"bytes": lambda name, i: c}
        try:
            if ev(a, env) != ev(b, env):
                return NE if ctx is None or not related((a, b), ctx) else None
        except Exception:
            return None
    return EQ


def _bit_exact(a, b, ctx=None):
    """Exact decision for terms that act bitwise on one leaf."""
    if isinstance(a, (ABytes, bytes)) and isinstance(b, (ABytes, bytes)):
        return _bit_bytes(a, b, ctx)
    ls = leaves((a, b))
    if len(ls) != 1:
        return None

    def bitwise(t):
        if isinstance(t, Term):
            if t in ls:
                return True
            if t.op in ("enum", "flag"):
                return bitwise(t.args[1])
            if t.op in ("bitand", "bitor", "bitxor", "inv"):
                return all(bitwise(x) for x in t.args)
            return False
        return isinstance(t, int) or (isinstance(t, EnumMember) and isinstance(t.value, int))

    if not (bitwise(a) and bitwise(b)):
        return None
    x = ls[0]
    d = leaf_dom(x)
    lo_mask = (1 << 64) - 1 if d is None else int(max(abs(d.lo()), abs(d.hi())))
    full = (1 << lo_mask.bit_length()) - 1
    for v in (0, full):
        try:
            if ev(a, {x: v}) != ev(b, {x: v}):
                return NE if ctx is None or x not in ctx.doms else None
        except CannotEval:
            return None
    return EQ


def compare(a, b, ctx=None):
    """equal / different / undecided, from normal forms (see DESIGN.md)."""
    ta, tb = _tuplish(a), _tuplish(b)
    if ta is not None and tb is not None:
        if len(ta) != len(tb):
            return NE
        r = [compare(x, y, ctx) for x, y in zip(ta, tb)]
        return NE if NE in r else UNK if UNK in r else EQ
    a = _strip(a, ctx)
    b = _strip(b, ctx)
    if is_const(a) and is_const(b):
        if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
            return EQ
        return EQ if a == b and (a is None) == (b is None) else NE
    if isinstance(a, VDict) and isinstance(b, VDict):
        if len(a.pairs) != len(b.pairs):
            return NE
        r = []
        for (k1, v1), (k2, v2) in zip(a.pairs, b.pairs):
            r += [compare(k1, k2, ctx), compare(v1, v2, ctx)]
        return NE if NE in r else UNK if UNK in r else EQ
    if (a is None) != (b is None):
        other = a if b is None else b
        if isinstance(other, Term) and other.op not in LEAF_OPS and other.ty not in NUM_TY + ("str", "bytes"):
            return UNK
        return NE
    if isinstance(a, (ABytes, bytes)) and isinstance(b, (ABytes, bytes)):
        if to_abytes(a) == to_abytes(b):
            return EQ
        if len(a) != len(b):
            return NE
    elif isinstance(a, (Term, ABytes)) or isinstance(b, (Term, ABytes)):
        if _same(a, b):
            return EQ
    else:
        if a is b:
            return EQ
        if isinstance(a, EnumMember) and isinstance(b, EnumMember):
            return EQ if a.cls is b.cls and a.name == b.name else (EQ if isinstance(a.value, int) and a.value == b.value else NE)
        if isinstance(a, (Instance, ClassVal)) or isinstance(b, (Instance, ClassVal)):
            return NE
        if isinstance(a, ExcVal) or isinstance(b, ExcVal):
            return UNK
    r = _bit_exact(a, b, ctx)
    if r is not None:
        return r
    ls = leaves((a, b))
    if len(ls) == 1:
        d = ctx.dom(ls[0]) if ctx is not None else leaf_dom(ls[0])
        if d is not None and d.size() <= 70000:
            try:
                for v in d.values():
                    if ev(a, {ls[0]: v}) != ev(b, {ls[0]: v}):
                        return NE
                return EQ
            except (CannotEval, Exception):
                pass
    r = _independent(a, b, ctx)
    if r is not None:
        return r
    for env in points((a, b), ctx):
        try:
            x, y = ev(a, env), ev(b, env)
        except CannotEval:
            return UNK
        except Exception:
            continue
        if x != y and not (isinstance(x, float) and isinstance(y, float) and (x != x and y != y)):
            return NE
    return UNK


def _independent(a, b, ctx):
    """A bare leaf against a form that does not read it: different functions."""
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Term) and x.op in ("rd", "sym") and not isinstance(y, (ABytes,)):
            d = ctx.dom(x) if ctx is not None else leaf_dom(x)
            if d is not None and d.size() < 2:
                continue
            if isinstance(y, Term) and _opaque(y):
                continue
            rest = leaves(y)
            if any(_overlap(x, l) for l in rest) or not (is_const(y) or isinstance(y, Term)):
                continue
            if ctx is not None and any(x in leaves(f) for dd in (ctx.atoms, ctx.neqc) for f in dd):
                continue
            return NE
    return None


def _opaque(t):
    if isinstance(t, Term):
        if t.op in LEAF_OPS:
            return False
        if t.op not in EV and t.op not in ("enum", "flag"):
            return True
        return any(_opaque(x) for x in t.args)
    return not is_const(t) and not isinstance(t, (ClassVal, frozenset, EnumMember))


def _overlap(x, y):
    if x == y:
        return True
    if x.op == "rd" and y.op == "rd":
        return x.args[0] == y.args[0] and x.args[1] < y.args[1] + y.args[2] and y.args[1] < x.args[1] + x.args[2]
    if "decode" in (x.op, y.op):
        return True
    return False


def _strip(v, ctx):
    if isinstance(v, Term) and v.op in ("enum", "flag"):
        v = v.args[1]
    if isinstance(v, EnumMember) and isinstance(v.value, int) and not isinstance(v.value, bool):
        v = v.value
    if isinstance(v, VByteArray):
        v = v.data
    if ctx is not None and isinstance(v, Term):
        v = ctx.resolve(v)
    return v
