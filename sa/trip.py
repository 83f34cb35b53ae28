"""Small abstract files, parsed and saved: used by C01, C02, C06, C07."""
from __future__ import annotations

from .prop import *
from .scenario import *

TEXT_IDS = [i for i in range(192, 208)] + [231, 239, 241]
# Data events the format gives a structure: ID -> current payload size(s)
STRUCT_IDS = {
    209: [20], 212: [56], 215: [168], 217: [8], 218: [68], 219: [24], 221: [9], 223: [12, 24], 224: [24, 48], 225: [12, 24],
    227: [20], 228: [16], 229: [20], 233: [32, 60, 64, 120], 234: [52, 76], 235: [4, 127], 236: [12], 237: [16], 238: [66],
}
VERSIONS = {"unicode": "20.8.4", "ascii": "11.1.1"}


def fixed(eid):
    return 1 if eid < 64 else 2 if eid < 128 else 4


def automation(key, points):
    segs = [("raw", key, 0, 17), u32(points)] + [("raw", f"{key}#{i}", 0, 24) for i in range(points)] + [("raw", key, 17, 7)]
    return ABytes(segs)


def payload(lab, ctx, eid, n=None, key="X", unicode=True):
    """Unknown payload of ``n`` bytes, or the usual one."""
    if eid < 192:
        return source(key, fixed(eid))
    if n is not None:
        if eid == 234:
            a = automation(key, 2)
            return norm_bytes(a.cut(0, n) if n <= len(a) else ABytes([*a.segs, ("raw", key, 24, n - len(a))]))
        return source(key, n) if n else b""
    if eid == 199:
        return b"20.8.4\0"
    if eid in TEXT_IDS:
        return Text(lab, ctx, unicode)(key)
    if eid == 234:
        return automation(key, 1)
    if eid == 215:
        return params_event(key)
    return source(key, STRUCT_IDS[eid][0] if eid in STRUCT_IDS else 7)


def legal(ctx, eid, key):
    """Enumerations in structures hold legal values."""
    name = {215: "Parameters", 218: "EnvelopeLFO", 219: "Levels", 212: "Wrapper", 238: ".Data:238"}.get(eid)
    for off, w, k, vals in ENUMS.get(name, ()):
        ctx.doms[rd(key, off, w, k)] = IntDom.of(vals)
    if eid == 215:
        for off in LOGS["Parameters"]:
            ctx.doms[rd(key, off, 2)] = IntDom.rng(1, 61440)


def run_all(lab, fn, max_paths=150, max_decisions=80):
    """[(ctx, result)] with Unsupported turned into ("unsupported", why)."""
    out = []

    def go(ctx):
        try:
            return fn(ctx)
        except Unsupported as e:
            return ("unsupported", str(e))
        except RecursionError:
            return ("unsupported", "recursion too deep")
        except (Infeasible, PathLimit):
            raise
        except PyRaise as e:
            return NE, f"an operation on a legal project raises {exc_name(e)}: {str(e)[:200]}"
        except Exception as e:  # noqa: BLE001 - the analyser failed on this path
            import traceback

            return ("unsupported", "".join(traceback.format_exception(e))[-400:])

    for ctx, r in lab.paths(go, max_paths=max_paths, max_decisions=max_decisions):
        out.append((ctx, r))
    return out


def case(rep, rule, key, lab, fn, **kw):
    """Run ``fn(ctx)`` on every path; it returns (verdict, text) or None (nothing claimed)."""
    n = 0
    try:
        for ctx, r in run_all(lab, fn, **kw):
            rep.paths += 1
            if r is None:
                continue
            if r[0] == "unsupported":
                rep.undecide(rule, key, r[1])
                continue
            n += 1
            facts = ctx.facts()
            rep.ob(rule, key, r[0], r[1] + (f" [when {'; '.join(facts)[:400]}]" if facts else ""))
    except PathLimit as e:
        rep.undecide(rule, key, str(e))
    return n


def spread(rep, make_cases, lab, nproc=None):
    """``make_cases``: list of (rule, key, fn); each decided in a forked process batch."""
    from .pool import NPROC, fork_map

    np = nproc or NPROC
    n = max(1, min(len(make_cases) // 4 or 1, np * 4))
    batches = [make_cases[i::n] for i in range(n)]

    def work(b):
        def go():
            r = Report(rep.prop)
            r.tier, r.t0, r.known = rep.tier, rep.t0, rep.known
            for rule, key, fn in b:
                case(r, rule, key, lab, fn)
                if r.enough():
                    break
            return r.__dict__

        return go

    for key, r in fork_map([(i, work(b)) for i, b in enumerate(batches)], np):
        if isinstance(r, tuple) and r[0] == "crash":
            rep.undecide("analysis", str(key), r[1])
            continue
        rep.obligations += r["obligations"]
        rep.decided += r["decided"]
        rep.paths += r["paths"]
        rep.violations += r["violations"]
        rep.undecided += r["undecided"]
        for k, v in r["rules"].items():
            rep.rules[k] = rep.rules.get(k, 0) + v
        for s in r["samples"]:
            if len(rep.samples) < 10:
                rep.samples.append(s)
        if rep.enough():
            break
    rep.violations.sort()


def delta(f, want, ctx):
    if len(f) != len(want):
        return f"{len(f)} bytes are written instead of {len(want)}"
    return str([(show(x), show(y)) for x, y in diff_bytes(f, want) if compare(x, y, ctx) != EQ])[:400]


def round_trip(lab, mk, must=True):
    """Case: parsing ``mk(ctx)`` and saving gives the same bytes."""

    def fn(ctx):
        d = mk(ctx)
        try:
            p = lab.parse(d)
        except PyRaise as e:
            return (NE, f"parse() raises {exc_name(e)}: {str(e)[:200]}") if must else None
        try:
            f = lab.save(p)
        except PyRaise as e:
            return NE, f"save() raises {exc_name(e)}: {str(e)[:200]}"
        r = same(f, d, lab.it.ctx)
        return r, "" if r == EQ else "the saved file differs from the one read: " + delta(f, d, lab.it.ctx)

    return fn
