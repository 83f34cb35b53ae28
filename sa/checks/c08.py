"""For every writable property of the place table, on an abstract project
whose payloads are unknown: set it to the (unknown) value a second project has
there - flags to True and to False - then require that the same object and a
fresh walk from the project read that value, and that the saved file is the
original with exactly the bytes of that place replaced."""
from ..prop import *
from ..share import share_cases
from ..special import get_cases, key_cases, set_cases, shown_cases
from ..trip import spread

FLOOR = 3000


def run(rep, make):
    lab = make()
    prepare(lab)
    P = load()
    rows = [p for p in P if "ro" not in p.opts]
    B = bases(lab, rows, P)
    jobs = []
    for pl in rows:
        b = B[base_key(pl)]
        if "bit" in pl.fam():
            jobs += [(f"{pl.name} = {v}", b, set_job(lab, pl, v)) for v in (True, False)]
        else:
            jobs.append((pl.name, b, set_job(lab, pl)))
    # ------------------------------------- one after the other, and back again
    by = {}
    for pl in rows:
        if "bit" not in pl.fam():
            by.setdefault(base_key(pl), []).append(pl)
    for k, ps in by.items():
        for i, pl in enumerate(ps):
            nxt = ps[(i + 1) % len(ps)]
            if i % 2:
                continue
            if not shares(pl, nxt):
                jobs.append((f"{pl.name}, then {nxt.name}, and back", B[k], chain_job(lab, pl, nxt)))
    spread(rep, set_cases(lab, P) + key_cases(lab, P) + share_cases(lab, (False,)), lab)
    collect(rep, jobs)
    rep.extra["properties"] = len(rows)


def shares(a, b):
    return a.path == b.path or a.key == b.key and (a.w == 0 or b.w == 0 or a.off < b.off + b.w and b.off < a.off + a.w)


def chain_job(lab, a, b):
    """Set ``a``, then ``b``, to the other project's values: both read back and
    are saved.  Then both to their first values: the file is as it was."""
    it = lab.it
    k = base_key(a)
    A, B = local(a.path, k), local(b.path, k)

    def run(st, ctx):
        out = []

        def put(pl, v):
            own = local(pl.owner, k)
            o = public(lambda: lab.walk(st["p"], own) if own else st["p"], "reaching " + own)
            public(lambda: it.setattr(o, pl.attr, v), f"setting {pl.path}")

        def check(rule, want, vals):
            for p, v in vals:
                got = public(lambda: lab.walk(st["p"], p), f"reading {p}")
                r = same_value(got, v, ctx, lab)
                out.append((rule, r, f"{p} was set to {show(v)[:120]}, reads {show(got)[:120]}", p))
            f = public(lambda: lab.save(st["p"]), "saving")
            r = same(f, want, ctx)
            out.append((rule, r, "the saved file is not the expected one: " + ("" if r == EQ else f"{len(f)} bytes instead of {len(want)}" if len(f) != len(want) else str(
                [(show(x), show(y)) for x, y in diff_bytes(f, want) if compare(x, y, ctx) != EQ])[:300]), A))

        try:
            old = public(lambda: lab.walk(st["p"], A), f"getting {A}")
            oldb = public(lambda: lab.walk(st["p"], B), f"getting {B}")
            na = public(lambda: lab.walk(st["q"], A), f"getting {A}")
            nb = public(lambda: lab.walk(st["q"], B), f"getting {B}")
            put(a, na)
            put(b, nb)
            only = expected_file(b, st["data"], ctx)
            check("set one after the other", expected_file(a, only, ctx), [(A, na), (B, nb)])
            put(a, old)
            put(b, oldb)
            check("set back", st["data"], [(A, old), (B, oldb)])
        except Lost as e:
            out.append(("set one after the other", NE, str(e), A))
        return out, ctx.facts()

    return run
