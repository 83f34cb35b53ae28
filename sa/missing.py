"""Obligations about absent events and truncated payloads (C10)."""
from __future__ import annotations

from .prop import *

CANNOT = "PropertyCannotBeSet"


def sample(pl, lab):
    """Some legal value of the property."""
    f = pl.fam()
    if f in ("u", "s"):
        return 1
    if f == "f":
        return 0.5
    if f == "bool" or "bit" in f:
        return True
    if f == "text":
        return "x"
    if f == "path":
        return lab.it.call(Ext("pathlib.Path"), ["x"])
    if f in ("enumu", "enums"):
        return list(enum_values(lab, pl.arg()).values())[0]
    if f.startswith("pair"):
        return (1, 1)
    if f == "color":
        return lab.it.call(lab.cls("pyflp.types.RGBA"), [0.0, 0.0, 0.0, 0.0])
    if f == "raw":
        return b"x" * pl.w
    if f == "musical":
        return lab.it.call(lab.cls("pyflp.types.MusicalTime"), [1, 1, 0])
    if f == "names":
        return pl.arg().split(",")[0]
    if f == "log2":
        return 1.0
    raise Unsupported(pl.kind)


def absent_job(lab, k, rows, default=lambda pl: None, present=(), drop=(), cut=None, places=()):
    """Parse a project without the events / with a shortened payload; every
    property of ``rows`` reads as its default, cannot be set, and the project
    is saved unchanged; ``present`` still read their own places."""
    it = lab.it
    mk = setup_for(lab, k, places, drop=drop, cut=cut, with_donor=False)

    def run(st, ctx):
        out = []
        try:
            st = public(lambda: mk(ctx), "parsing")
        except Lost as e:
            return [("parse", NE, str(e), "pyflp.parse")], ctx.facts()
        p = st["p"]
        for pl in rows:
            own = local(pl.owner, k)
            where = pl.path
            try:
                o = public(lambda: lab.walk(p, own) if own else p, "reaching " + own)
                where = describe(lab, o, pl.attr)
                v = public(lambda: it.getattr(o, pl.attr), f"getting {pl.name}")
            except Lost as e:
                out.append((f"absent reads as default: {pl.name}", NE, str(e), where))
                continue
            want = default(pl)
            r = EQ if v is want or (v == want and type(v) is type(want)) else same_value(v, want, ctx, lab)
            out.append((f"absent reads as default: {pl.name}", r, f"reads {show(v)[:120]} instead of {want!r}", where))
            if "ro" in pl.opts:
                continue
            try:
                it.setattr(o, pl.attr, sample(pl, lab))
                out.append((f"absent cannot be set: {pl.name}", NE, "setting it raises nothing", where))
            except PyRaise as e:
                n = exc_name(e)
                out.append((f"absent cannot be set: {pl.name}", EQ if n == CANNOT else NE, f"raises {n} instead of {CANNOT}: {e}"[:200], where))
        for pl in present:
            own = local(pl.owner, k)
            try:
                v = public(lambda: lab.walk(p, local(pl.path, k)), f"getting {pl.name}")
                e = expect(pl, lab, ctx)
                r = same_value(v, e, ctx, lab)
                out.append((f"others keep their place: {pl.name}", r, f"reads {show(v)[:120]}, the format has {show(e)[:120]}", pl.path))
            except Lost as e:
                out.append((f"others keep their place: {pl.name}", NE, str(e), pl.path))
        try:
            f = public(lambda: lab.save(p), "saving")
            r = same(f, st["data"], ctx)
            out.append(("saved unchanged", r, str(diff_bytes(f, st["data"]))[:300] if len(f) == len(st["data"]) else "other length", "pyflp.save"))
        except Lost as e:
            out.append(("saved unchanged", NE, str(e), "pyflp.save"))
        return out, ctx.facts()

    return run
