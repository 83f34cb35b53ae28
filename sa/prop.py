"""Obligations over the place table, shared by several checks."""
from __future__ import annotations

import gc

from .places import *
from .pool import Base, run_jobs


def bit_word(pl, on, pre=""):
    """Bytes of the flags word after setting the property to ``on``."""
    k = "s" if pl.fam().startswith("s") else "u"
    m = int(pl.arg())
    if "nbit" in pl.fam():
        on = not on
    x = rd(pre + pl.key, pl.off, pl.w, k)
    t = mk_bin("bitor", x, m) if on else mk_bin("bitand", x, ~m)
    return ABytes((("enc", pl.w, k, t),))


def describe(lab, obj, attr):
    """Where the property is defined: file:line Class.attr."""
    try:
        c = obj.cls
        for k in lab.it.mro(c):
            if attr in getattr(k, "ns", {}):
                m = getattr(k, "module", None)
                ln = getattr(getattr(k, "node", None), "lineno", 0)
                return f"{getattr(m, 'name', m)}:{ln} {k.name}.{attr}"
        return f"{c.name}.{attr}"
    except Exception:  # noqa: BLE001 - only used in messages
        return attr


class Lost(Exception):
    """A public operation on a legal project raised."""


def public(fn, what):
    try:
        return fn()
    except PyRaise as e:
        raise Lost(f"{what} raises {exc_name(e)}: {e}"[:300])
    except Missing as e:
        raise Lost(f"{what}: {e}")


def get_job(lab, pl):
    it = lab.it
    k = base_key(pl)
    own, pth = local(pl.owner, k), local(pl.path, k)

    def run(st, ctx):
        out = []
        try:
            o = public(lambda: lab.walk(st["p"], own) if own else st["p"], "reaching " + own)
            where = describe(lab, o, pl.attr)
            v = public(lambda: it.getattr(o, pl.attr), f"getting {pth}")
        except Lost as e:
            return [("get", NE, str(e), pl.path)], ctx.facts()
        e = expect(pl, lab, ctx)
        r = same_value(v, e, ctx, lab)
        out.append(("get", r, "" if r == EQ else f"reads {show(v)[:200]}, the format has {show(e)[:200]}", where))
        return out, ctx.facts()

    return run


def set_job(lab, pl, value=None):
    """Set to the value another project has there (or to True / False)."""
    it = lab.it
    k = base_key(pl)
    own, pth = local(pl.owner, k), local(pl.path, k)

    def run(st, ctx):
        out = []
        try:
            o = public(lambda: lab.walk(st["p"], own) if own else st["p"], "reaching " + own)
            where = describe(lab, o, pl.attr)
            if value is None:
                o2 = public(lambda: lab.walk(st["q"], own) if own else st["q"], "reaching " + own)
                nv = public(lambda: it.getattr(o2, pl.attr), f"getting {pth}")
                if nv is None:
                    return [("set", NE, f"{pth} reads as None although it is stored", where)], ctx.facts()
                want = expected_file(pl, st["data"], ctx)
            else:
                nv = value
                want, hit = subst(st["data"], pl.key, pl.off, pl.w, bit_word(pl, value))
                if not hit:
                    raise Unsupported(f"place {pl.key} not in the scenario")
            twin = public(lambda: lab.walk(st["p"], own), "reaching " + own) if own else o
            public(lambda: it.setattr(o, pl.attr, nv), f"setting {pth} = {show(nv)[:80]}")
            for name, f in (("same object", lambda: it.getattr(o, pl.attr)), ("object taken before", lambda: it.getattr(twin, pl.attr)), ("project", lambda: lab.walk(st["p"], pth))):
                v = public(f, f"reading back {pth}")
                r = same_value(v, nv, ctx, lab)
                out.append(("reads back (" + name + ")", r, "" if r == EQ else f"set to {show(nv)[:150]}, reads {show(v)[:150]}", where))
            f = public(lambda: lab.save(st["p"]), f"saving after setting {pth}")
        except Lost as e:
            out.append(("set", NE, str(e), pl.path))
            return out, ctx.facts()
        r = same(f, want, ctx)
        txt = ""
        if r != EQ:
            txt = f"the saved file differs from the expected one: " + (f"{len(f)} instead of {len(want)} bytes" if len(f) != len(want) else str(
                [(show(x), show(y)) for x, y in diff_bytes(f, want) if compare(x, y, ctx) != EQ])[:400])
        out.append(("saved", r, txt, where))
        return out, ctx.facts()

    return run


def bases(lab, rows, places, **kw):
    out = {}
    for pl in rows:
        k = base_key(pl)
        if k not in out:
            out[k] = Base(lab, setup_for(lab, k, places, **kw))
    return out


def collect(rep, jobs, max_paths=32, known=()):
    """Run jobs whose results are ([(rule, verdict, text, where)], facts)."""
    for key, rs, comp in run_jobs(jobs, max_paths):
        rep.paths += len(rs)
        if not comp:
            rep.undecide("paths", key, "too many paths")
        for r in rs:
            if r[0] in ("unsupported", "crash"):
                rep.undecide("analysis", key, r[1])
                continue
            for rule, v, text, where in r[0]:
                rep.ob(rule, key, v, f"{where}: {text}" + (f" [when {'; '.join(r[1])[:400]}]" if r[1] else ""))
        if rep.enough():
            break


def prepare(lab):
    gc.disable()
    warm(lab)
