"""The event IDs of the FL Studio format PyFLP knows."""
from __future__ import annotations

import os

from .trip import *

TABLE = {}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "ids.txt")) as f:
    for line in f:
        if not line.startswith("#"):
            i, c, n, k = line.split()
            TABLE[int(i)] = (c, n, k)
OPTIONAL = {226, 227}  # pyflp.controller is not imported by pyflp itself


def default_kind(eid):
    return "u" if eid < 192 else "text" if eid in TEXT_IDS else "raw"


def value_kind(eid):
    return TABLE[eid][2] if eid in TABLE else default_kind(eid)


def value_check(lab, ctx, e, kind, eid, key="X", unicode=True, n=None):
    """Does the value of event ``e`` have the kind, for an unknown payload?"""
    it = lab.it
    v = it.getattr(e, "value")
    w = fixed(eid) if eid < 192 else n
    if kind in ("u", "s", "f"):
        want = rd(key, 0, w, kind)
        r = same(v, want, ctx)
    elif kind == "bool":
        x = rd(key, 0, w)
        t = it.ctx.truth(mk_cmp("ne", x, 0))
        if isinstance(v, Term) and v.ty == "bool" or isinstance(v, bool):
            r = EQ if it.ctx.truth(v) == t else NE
        else:
            r = same(v, x, ctx)
        want = t
    elif kind == "pair":
        want = (rd(key, 0, 2), rd(key, 2, 2))
        items = it.seq_items(v)
        if items is None or len(items) != 2:
            return NE, f"the value is {show(v)[:150]} instead of a pair"
        rs = [same(a, b, ctx) for a, b in zip(items, want)]
        r = NE if NE in rs else UNK if UNK in rs else EQ
    elif kind == "color":
        cls = getattr(v, "cls", None)
        if cls is None or cls.name != "RGBA":
            return NE, f"the value is {show(v)[:150]} instead of a color"
        b = it.call(Ext("builtins.bytes"), [v])
        want = source(key, 4)
        r = same(b, want, ctx)
    elif kind in ("text", "ascii"):
        want = sym("text:" + key, "str")
        r = same(v, want, ctx)
    elif kind in ("raw", "data"):
        want = source(key, n) if n else b""
        r = same(v, want, ctx) if isinstance(v, (bytes, ABytes, Term)) else NE
    elif kind == "struct":
        ok = isinstance(v, VDict) or isinstance(v, VList) or getattr(getattr(v, "cls", None), "name", "") in ("Container", "ListContainer")
        return (EQ if ok else NE), f"the value is {show(v)[:150]} instead of a structure"
    else:
        raise Unsupported(kind)
    return r, f"the value is {show(v)[:200]}, the format has {show(want)[:200]}"
