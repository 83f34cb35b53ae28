"""Two abstract projects with independent unknown contents are open at once.
For every property of the place table: reading it in one, in the other and
in the first again gives each time the project's own stored value; setting it
in one leaves every byte the other saves, and a fresh parse of the first's
file, as they were.  Whole projects of different shapes and FL versions are
walked in alternation and changed by every kind of operation (events
inserted, appended and removed, header numbers, plugins, text, selection)
while the other is saved; and a project is parsed, read and saved after every
kind of earlier file, including ones that fail to parse."""
import itertools
import re

from ..history import EARLIER, earlier
from ..layouts import *
from ..share import share_cases
from ..trip import spread

FLOOR = 3000
PPQ = {1: 96, 3: 768, 5: 960}


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    P = load()
    cases = []

    # ------------------------------------------------------------- single places
    def read(st, pl, which, pre, ctx, k, n=""):
        pth = local(pl.path, k)
        v = public(lambda: lab.walk(st[which], pth), "getting " + pth)
        e = expect(pl, lab, ctx, pre)
        r = same_value(v, e, ctx, lab)
        other = "" if pre else "~"
        return r, f"{pth} of the {'second' if pre else 'first'} project{n} reads {show(v)[:150]} instead of its own {show(e)[:150]}"

    def job_for(pl, again):
        k = base_key(pl)
        own, pth = local(pl.owner, k), local(pl.path, k)

        def job(st, ctx):
            out = []
            try:
                for which, pre, n in (("q", "~", ""), ("p", "", " read after the other"), ("q", "~", " read before the other")):
                    r, t = read(st, pl, which, pre, ctx, k, n)
                    out.append(("own value", r, t, pl.path))
                    if r != EQ:
                        return out, ctx.facts()
                if "ro" in pl.opts:
                    return out, ctx.facts()
                nv = public(lambda: lab.walk(st["q"], pth), f"getting {pth}")
                o = public(lambda: lab.walk(st["p"], own) if own else st["p"], "reaching " + own)
                public(lambda: it.setattr(o, pl.attr, nv), f"setting {pth}")
                f = public(lambda: lab.save(st["q"], "other.flp"), "saving the other project")
                out.append(("the other is saved as before", same(f, st["qdata"], ctx), f"setting {pth} of one project changes what the other saves", pl.path))
                r, t = read(st, pl, "q", "~", ctx, k, " (the first has been changed)")
                out.append(("the other reads as before", r, t, pl.path))
                if again:
                    st["r"] = public(lambda: lab.parse(st["data"], "again.flp"), "parsing the first file again")
                    r, t = read(st, pl, "r", "", ctx, k, " parsed again")
                    out.append(("parsed again", r, t, pl.path))
                    f = public(lambda: lab.save(st["r"], "third.flp"), "saving the project parsed again")
                    out.append(("parsed again", same(f, st["data"], ctx), f"after {pth} was set, the same file parsed again is not saved as it is", pl.path))
            except Lost as e:
                out.append(("independent", NE, str(e), pl.path))
            return out, ctx.facts()

        return job

    B = bases(lab, P, P)
    jobs, seen = [], set()
    for pl in P:
        kind = (pl.event, pl.kind)
        jobs.append((pl.name, B[base_key(pl)], job_for(pl, "ro" not in pl.opts and kind not in seen)))
        seen.add(kind)

    # ------------------------------------------------------------ whole projects
    rows = template_rows(P)

    def two(ctx, a, va, b, vb):
        x = Layout(lab, ctx, *va)
        LAYOUTS[a](x)
        assume_legal(x, ctx)
        assume_places(P, x, ctx)
        y = Layout(lab, ctx, *vb)
        LAYOUTS[b](y)
        assume_legal(y, ctx)
        assume_places(P, y, ctx)
        d = donor(y, ctx)
        d.ents = y.ents
        return x, d

    def file_of(b, n):
        return flp([(i, p) for _, i, p in b.ev], channels=n, ppq=PPQ[n])

    def entities(b, p, pre, ctx, every=1):
        """First wrong property of any entity, one row each, in steps."""
        have = {k for k, _, _ in b.ev}
        n, memo = 0, {}

        def reach(path):
            """Each collection is iterated once."""
            i = path.rfind("*[")
            if i < 0:
                return lab.walk(p, path) if path else p
            if path[:i] not in memo:
                memo[path[:i]] = lab.items(reach(path[:i]))
            m = re.match(r"\*\[(\d+)\]", path[i:])
            got = memo[path[:i]]
            if int(m.group(1)) >= len(got):
                raise Missing(f"{path[:i]} yields only {len(got)} elements")
            return lab.walk(got[int(m.group(1))], path[i + m.end():])

        for kind, path, key in b.ents:
            for rest, pl in rows[kind]:
                n += 1
                if n % every or any(x in rest for x in ("*[1]", ".tracks", ".timemarkers")):
                    continue
                q = row_for(rest, pl, kind, path, key)
                if pre + q.event not in have:
                    continue
                v = public(lambda: reach(q.path), "getting " + q.path)
                e = expect(q, lab, ctx, pre)
                r = same_value(v, e, ctx, lab)
                yield r, f"{q.path} of the {'second' if pre else 'first'} project reads {show(v)[:120]} instead of its own {show(e)[:120]}"

    def header(p, n):
        for a, w in (("ppq", PPQ[n]), ("channel_count", n)):
            v = public(lambda: it.getattr(p, a), a)
            if v != w:
                return f"{a} reads {show(v)} instead of {w}"
        return ""

    def alternating(a, va, b, vb):
        def fn(ctx):
            x, y = two(ctx, a, va, b, vb)
            dx, dy = file_of(x, 1), file_of(y, 5)
            try:
                p, q = lab.parse(dx), lab.parse(dy, "second.flp")
                for (r1, t1), (r2, t2) in itertools.zip_longest(entities(x, p, "", ctx, 3), entities(y, q, "~", ctx, 3), fillvalue=(EQ, "")):
                    if r1 != EQ or r2 != EQ:
                        return (r1, t1) if r1 != EQ else (r2, t2)
                for pr, n in ((p, 1), (q, 5), (p, 1)):
                    t = header(pr, n)
                    if t:
                        return NE, t
                    v = public(lambda: it.getattr(pr, "version"), "version")
                    w = tuple(int(i) for i in (va if pr is p else vb)[0].split("."))
                    got = tuple(seq(v) or ())[:3] if seq(v) else tuple(it.getattr(v, f) for f in ("major", "minor", "patch"))
                    if got != w:
                        return NE, f"version reads {got}, not {w}"
                for pr, d, n in ((p, dx, "first"), (q, dy, "second"), (p, dx, "first")):
                    f = public(lambda: lab.save(pr, f"out{n}.flp"), "saving")
                    if same(f, d, ctx) != EQ:
                        return same(f, d, ctx), f"the {n} of two open projects is not saved as it is"
            except Lost as e:
                return NE, str(e)
            return EQ, ""

        return fn

    U, A_ = ("20.8.4", True), ("11.1.1", False)
    pairs = [("sparse", U, "late", A_), ("late", A_, "sparse, the other way", U), ("patterns", U, "mixer", U), ("mixer", A_, "patterns", U), ("minimal", U, "sparse", A_),
             ("sparse", ("12.4.0", True), "minimal", A_), ("scattered", U, "patterns", A_), ("sparse", U, "sparse", U), ("patterns", A_, "patterns", U), ("late", U, "late", U)]
    for a, va, b, vb in pairs:
        cases.append(("read in alternation", f"{a} ({va[0]}) and {b} ({vb[0]})", alternating(a, va, b, vb)))

    # ---------------------------------------------------------------- operations
    def meth(o, name, *a):
        return it.call(it.getattr(o, name), list(a))

    def ops(p, q, x):
        ev = it.getattr(p, "events")
        first = lambda o: lab.items(o)[0]
        eid = lambda e: it.getattr(e, "id")
        put = lambda o, a, v: it.setattr(o, a, v)
        W = lab.walk
        return {
            "ppq": lambda: put(p, "ppq", 192), "channel_count": lambda: put(p, "channel_count", 99),
            "version": lambda: put(p, "version", "12.1.0"), "title": lambda: put(p, "title", "other"), "tempo": lambda: put(p, "tempo", 99.0),
            "append": lambda: meth(ev, "append", first(it.getattr(q, "events"))),
            "append its own": lambda: meth(ev, "append", first(ev)),
            "insert": lambda: meth(ev, "insert", 3, lab.items(it.getattr(q, "events"))[5]),
            "pop": lambda: meth(ev, "pop", eid(lab.items(ev)[7])), "remove": lambda: meth(ev, "remove", eid(lab.items(ev)[-1])),
            "remove all": lambda: [meth(ev, "remove", eid(e)) for e in lab.items(ev)],
            "channel removed": lambda: [meth(it.getattr(c, "events"), "remove", eid(e)) for c in [W(p, "channels*[0]")] for e in lab.items(it.getattr(c, "events"))],
            "channel name": lambda: put(W(p, "channels*[1]"), "name", "renamed"), "channel number": lambda: put(W(p, "channels*[0]"), "iid", 77),
            "pattern name": lambda: put(W(p, "patterns*[0]"), "name", "renamed"), "pattern number": lambda: put(W(p, "patterns*[0]"), "iid", 78),
            "arrangement name": lambda: put(W(p, "arrangements*[0]"), "name", "renamed"), "insert name": lambda: put(W(p, "mixer*[1]"), "name", "renamed"),
            "insert event": lambda: meth(it.getattr(W(p, "mixer*[0]"), "events"), "append", lab.items(it.getattr(W(q, "mixer*[1]"), "events"))[0]),
            "note key": lambda: put(W(p, "patterns*[1].notes*[0]"), "key", 60), "note": lambda: put(W(p, "patterns*[1].notes*[0]"), "length", 5),
            "automation": lambda: put(W(p, "channels*[5]*[0]"), "value", 0.5),
            "item": lambda: put(W(p, "arrangements*[0].tracks*[0]*[0]"), "position", 3),
            "track": lambda: put(W(p, "arrangements*[0].tracks*[0]"), "height", "55%"),
            "events of an item's copy": lambda: [W(p, "patterns*[1].notes*[0]"), put(W(p, "patterns*[1].notes*[1]"), "pan", 3)],
            "all read": lambda: [it.getattr(c, a) for c in lab.items(it.getattr(p, "channels")) for a in ("name", "display_name", "group")],
            "shown": lambda: it.str_(p) if hasattr(it, "str_") else None,
        }

    def operation(name, a, va, b, vb):
        def fn(ctx):
            x, y = two(ctx, a, va, b, vb)
            dx, dy = file_of(x, 1), file_of(y, 5)
            p, q = lab.parse(dx), lab.parse(dy, "second.flp")
            views = [lab.items(it.getattr(q, c)) for c in ("channels", "patterns", "arrangements", "mixer")]
            try:
                ops(p, q, x)[name]()
            except (PyRaise, Missing, IndexError):
                return None
            try:
                t = header(q, 5)
                if t:
                    return NE, f"after {name} on the first project, the second's {t}"
                f = public(lambda: lab.save(q, "q.flp"), "saving the second project")
                r = same(f, dy, ctx)
                if r != EQ:
                    return r, f"after {name} on the first project, the second is not saved as it was"
                for r, t in entities(y, q, "~", ctx, 5):
                    if r != EQ:
                        return r, f"after {name} on the first: {t}"
                z = public(lambda: lab.parse(dx, "in2.flp"), "parsing the first file again")
                t = header(z, 1)
                if t:
                    return NE, f"after {name}, a new parse of the first file: {t}"
                f = public(lambda: lab.save(z, "z.flp"), "saving it")
                r = same(f, dx, ctx)
                if r != EQ:
                    return r, f"after {name}, the same file parsed again is not saved as it is"
                for r, t in entities(x, z, "", ctx, 5):
                    if r != EQ:
                        return r, f"after {name} on another project from the same file: {t}"
            except Lost as e:
                return NE, str(e)
            return EQ, ""

        return fn

    names = ["ppq", "channel_count", "version", "title", "tempo", "append", "append its own", "insert", "pop", "remove", "remove all", "channel removed", "channel name", "channel number", "pattern name",
             "pattern number", "arrangement name", "insert name", "insert event", "note key", "note", "automation", "item", "track", "events of an item's copy", "all read", "shown"]
    for n in names:
        for a, va, b, vb in [("sparse", U, "sparse", U), ("sparse", U, "late", A_), ("late", A_, "patterns", U)]:
            cases.append(("operation on one", f"{n}: {a} ({va[0]}), the other {b} ({vb[0]})", operation(n, a, va, b, vb)))

    cases += share_cases(lab)

    # ----------------------------------------------------------------- histories
    def after(before, a, va):
        def fn(ctx):
            x = Layout(lab, ctx, *va)
            LAYOUTS[a](x)
            assume_legal(x, ctx)
            assume_places(P, x, ctx)
            for i, k in enumerate(before):
                earlier(lab, ctx, k, i)
            d = file_of(x, 3)
            try:
                p = public(lambda: lab.parse(d), "parsing")
                t = header(p, 3)
                if t:
                    return NE, t
                for r, t in entities(x, p, "", ctx, 2):
                    if r != EQ:
                        return r, t
                f = public(lambda: lab.save(p), "saving")
            except Lost as e:
                return NE, str(e)
            return same(f, d, ctx), "the project is not saved as it is"

        return fn

    for k in EARLIER:
        for a, va in (("sparse", U), ("late", A_), ("mixer", U)):
            cases.append(("after another file", f"{a} ({va[0]}) after a file {k}", after([k], a, va)))
    for i, k in enumerate(EARLIER):
        cases.append(("after other files", f"after files {k} and {EARLIER[i - 2]}", after([k, EARLIER[i - 2]], "sparse", A_ if i % 2 else U)))

    spread(rep, cases, lab)
    collect(rep, jobs)
    rep.extra["places"] = len(P)
