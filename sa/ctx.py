"""Path contexts: facts collected along one path, and path enumeration."""
from __future__ import annotations

from .terms import *
from .values import *


class Ctx:
    def __init__(self, prefix=(), max_decisions=60):
        self.prefix = list(prefix)
        self.choices = []  # chosen alternative index
        self.alts = []  # number of alternatives
        self.descr = []
        self.doms = {}
        self.atoms = {}
        self.eqc = {}
        self.neqc = {}
        self.effects = []
        self.notes = []
        self.max_decisions = max_decisions
        self.fresh = 0
        self.steps = 0
        self.cut = False

    # ---------------------------------------------------------------- choices
    def choose(self, n, descr):
        i = len(self.choices)
        if i >= self.max_decisions:
            raise PathLimit(f"more than {self.max_decisions} decisions on a path")
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.choices.append(c)
        self.alts.append(n)
        self.descr.append(descr[c] if isinstance(descr, (list, tuple)) else f"{descr}:{c}")
        return c

    def facts(self):
        return [str(d) for d in self.descr]

    # ------------------------------------------------------------------ facts
    def dom(self, t):
        if t in self.doms:
            return self.doms[t]
        d = leaf_dom(t)
        if d is None:
            b = bounds(t)
            if b is not None:
                d = IntDom.rng(*b)
        return d

    def set_dom(self, t, d):
        if d.empty():
            raise Infeasible()
        self.doms[t] = d

    def resolve(self, t):
        if isinstance(t, Term):
            if t in self.eqc:
                return self.eqc[t]
            d = self.doms.get(t)
            if d is not None and len(d.iv) == 1 and d.iv[0][0] == d.iv[0][1]:
                v = d.iv[0][0]
                return bool(v) if t.ty == "bool" else v
        return t

    def consistent(self, env, ls=(), facts=()):
        """Whether a corner point satisfies the related facts of the path."""
        for t, kind, v, lk, _ in facts:
            try:
                x = ev(t, env)
            except CannotEval:
                if any(l in lk for l in ls):
                    return False
                continue
            except Exception:
                return False
            if kind == 0:
                ok = x in v
            elif kind == 1:
                ok = bool(x) == v
            elif kind == 2:
                ok = x == v
            else:
                ok = x not in v
            if not ok:
                return False
        return True

    def truth(self, t):
        """Decide a boolean term on this path (splitting when both can hold)."""
        if not isinstance(t, Term):
            return bool(t)
        if t.op == "not":
            return not self.truth(t.args[0])
        if t.op == "bool":
            return self.truth(t.args[0])
        if t.op == "and":
            return all(self.truth(a) for a in t.args)
        if t.op == "or":
            return any(self.truth(a) for a in t.args)
        t = self._subst(t)
        if not isinstance(t, Term):
            return bool(t)
        if t.op in ("not", "bool", "and", "or"):
            return self.truth(t)
        r = self._pointwise(t)
        if r is not None:
            return r
        if t.op in ("eq", "le", "lt") and len(t.args) == 2:
            p, q = nbounds(t.args[0], self), nbounds(t.args[1], self)
            if p is not None and q is not None:
                if t.op == "eq":
                    if p[1] < q[0] or q[1] < p[0]:
                        return False
                elif (p[1] < q[0]) if t.op == "lt" else (p[1] <= q[0]):
                    return True
                elif (p[0] >= q[1]) if t.op == "lt" else (p[0] > q[1]):
                    return False
        if t.ty in ("float", "num", "int") and t.op not in LEAF_OPS:
            p = nbounds(t, self)
            if p is not None and (p[0] > 0 or p[1] < 0):
                return True
        if t.op in ("eq", "le", "lt") and isinstance(t.args[1], (int, float)) and isinstance(t.args[0], Term):
            x = t.args[0]
            if x.op in ("enum", "flag"):
                return self.truth(mk_cmp(t.op, x.args[1], t.args[1]))
            if x.ty in ("int", "byte", "bool", "flag") or x.op == "rd" and x.args[3] in "us":
                return self._split(x, cmp_dom(t.op, t.args[1]), t)
        if t.op in ("eq", "le", "lt") and isinstance(t.args[0], (int, float)) and isinstance(t.args[1], Term):
            x = t.args[1]
            if x.ty in ("int", "byte", "bool", "flag"):
                return self._split(x, cmp_dom({"eq": "eq", "le": "ge", "lt": "gt"}[t.op], t.args[0]), t)
        if t.op == "inset" and isinstance(t.args[0], Term):
            return self._split(t.args[0], IntDom.of(t.args[1]), t)
        if t.op == "eq" and is_const(t.args[1]):
            x, c = t.args
            if isinstance(x, ABytes) and isinstance(c, bytes) and self._bytes_excluded(x, c):
                return False
            if x in self.eqc:
                return self.eqc[x] == c
            if c in self.neqc.get(x, ()):
                return False
            r = self.choose(2, [f"{show(x)} == {c!r}", f"{show(x)} != {c!r}"]) == 0
            if r:
                self.eqc[x] = c
            else:
                self.neqc.setdefault(x, set()).add(c)
            return r
        if t.op not in ("eq", "le", "lt", "inset") and t.ty in ("int", "byte", "bool", "flag"):
            if t.op in LEAF_OPS or t.ty != "bool":
                return not self._split(t, cmp_dom("eq", 0), Term("eq", (t, 0), "bool"))
        if t.ty in ("str",) and t.op not in ("eq", "le", "lt"):
            return not self.truth(Term("eq", (t, ""), "bool"))
        # single leaf with a small domain: pointwise
        ls = leaves(t)
        if len(ls) == 1:
            d = self.dom(ls[0])
            if d is not None and d.size() <= 4096:
                try:
                    yes = IntDom.of([v for v in d.values() if ev(t, {ls[0]: v})])
                    return self._split(ls[0], yes, t)
                except (CannotEval, TypeError, ValueError):
                    pass
        if t in self.atoms:
            return self.atoms[t]
        # what the path knows about the same two numbers
        if t.op in ("eq", "lt", "le") and len(t.args) == 2 and all(isinstance(x, Term) and x.ty in ("int", "byte", "bool", "flag") for x in t.args):
            x, y = t.args
            left = {-1, 0, 1}
            for p, q, sg in ((x, y, 1), (y, x, -1)):
                for op, rel in (("eq", {0}), ("lt", {-1}), ("le", {-1, 0})):
                    k = self.atoms.get(Term(op, (p, q), "bool"))
                    if k is not None:
                        rel = {sg * v for v in rel}
                        left &= rel if k else {-1, 0, 1} - rel
            mine = {"eq": {0}, "lt": {-1}, "le": {-1, 0}}[t.op]
            if left <= mine:
                return True
            if not left & mine:
                return False
        elif t.op in ("lt", "le"):
            twin = Term("le" if t.op == "lt" else "lt", (t.args[1], t.args[0]), "bool")
            if twin in self.atoms:
                return not self.atoms[twin]
        r = self.choose(2, [f"{show(t)}", f"not {show(t)}"]) == 0
        self.atoms[t] = r
        return r

    def _bytes_excluded(self, x, c):
        """Byte string ``x`` cannot equal ``c``: a slice of it is known to hold other values."""
        if len(x) != len(c):
            return True
        pos = 0
        for seg in x.segs:
            n = len(seg) if isinstance(seg, bytes) else seg[3] if seg[0] == "raw" else seg[1]
            if isinstance(seg, bytes):
                if seg != c[pos:pos + n]:
                    return True
            elif seg[0] == "raw":
                _, src, off, _ = seg
                for t, d in self.doms.items():
                    if t.op == "rd" and t.args[0] == src and t.args[3] in ("u", "s") and off <= t.args[1] and t.args[1] + t.args[2] <= off + n:
                        o = pos + t.args[1] - off
                        if int.from_bytes(c[o:o + t.args[2]], "little", signed=t.args[3] == "s") not in d:
                            return True
            pos += n
        return False

    def _pointwise(self, t):
        """A condition on one byte-sized leaf is decided for each of its values."""
        if t.op in LEAF_OPS or (t.op in ("eq", "le", "lt") and isinstance(t.args[0], Term) and t.args[0].op in LEAF_OPS):
            return None
        ls = leaves(t)
        if len(ls) != 1:
            return None
        d = self.dom(ls[0])
        if d is None or d.size() > 256:
            return None
        try:
            yes = IntDom.of([v for v in d.values() if ev(t, {ls[0]: v})])
        except Exception:
            return None
        return self._split(ls[0], yes, t)

    def _subst(self, t):
        """Replace leaves already known to be constant."""
        if not self.eqc and not self.doms:
            return t
        if isinstance(t, Term):
            r = self.resolve(t)
            if r is not t:
                return r
            if t.op in LEAF_OPS:
                return t
            new = [self._subst(a) if isinstance(a, Term) else a for a in t.args]
            if all(x is y for x, y in zip(new, t.args)):
                return t
            if t.op in PYBIN:
                return mk_bin(t.op, *new)
            if t.op in ("eq", "lt", "le"):
                return mk_cmp(t.op, *new)
            if t.op == "not":
                return mk_not(new[0])
            try:
                if all(is_const(a) or isinstance(a, (frozenset, ClassVal)) for a in new) and t.op in EV:
                    return EV[t.op](*new)
            except Exception:
                pass
            return Term(t.op, new, t.ty)
        return t

    def _split(self, x, yes, t):
        d = self.dom(x) or IntDom.rng(-INF, INF)
        dy, dn = d.inter(yes), d.inter(yes.compl())
        if dy.empty():
            return False
        if dn.empty():
            return True
        if x.op == "rd" and x.args[2] > 1 and x.args[3] in ("u", "s") and dy.size() == 1:
            src, off, w, k = x.args[:4]
            if self._bytes_excluded(ABytes((("raw", src, off, w),)), int(dy.lo()).to_bytes(w, "little", signed=k == "s")):
                return False
        r = self.choose(2, [f"{show(x)} in {dy}", f"{show(x)} in {dn}"]) == 0
        self.doms[x] = dy if r else dn
        return r


def explore(run, max_paths=4000, max_decisions=60):
    """Enumerate all paths of ``run(ctx)``; yields (ctx, result | exception)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        ctx = Ctx(prefix, max_decisions)
        n += 1
        if n > max_paths:
            raise PathLimit(f"more than {max_paths} paths")
        infeasible = False
        try:
            res = run(ctx)
        except Infeasible:
            infeasible = True
            res = None
        except Unsupported as e:
            res = e
        except RecursionError as e:
            res = Unsupported("recursion too deep")
        for i in range(len(prefix), len(ctx.choices)):
            for alt in range(1, ctx.alts[i]):
                stack.append(ctx.choices[:i] + [alt])
        if not infeasible:
            yield ctx, res
