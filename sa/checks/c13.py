"""Abstract projects in many layouts (entities with and without optional
events next to each other, patterns announced twice and in any order, markers
before and after the first arrangement, slots and inserts with and without
plugins, unknown events in between, three FL versions): every property of every
entity reads the term of that entity's own event, or as missing when it has
none; the events of sibling entities are disjoint and none of an entity's
events is missing from it."""
from ..layouts import *

FLOOR = 1500
MISSING_OK = {"root_note": 60, "zipped": False, "looped": False}


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    P = load()
    rows = template_rows(P)
    jobs = []

    def entity_job(kind, path, key, rest, pl):
        q = row_for(rest, pl, kind, path, key)

        def job(st, ctx):
            have = {k for k, _, _ in st["b"].ev}
            here = q.event in have
            alt = {"Levels": ("_VolWord", "_VolByte", "_PanWord", "_PanByte"), "Name": ("_Name",)}.get(q.event.rpartition(".")[2], ())
            if not here and any(f"{key}.{a}" in have for a in alt):
                return [], ctx.facts()
            try:
                o = public(lambda: lab.walk(st["p"], q.owner), "reaching " + q.owner)
            except Lost as e:
                if not here and ("*[" in rest or "NoneType" in str(e)):
                    return [], ctx.facts()  # notes, envelopes ... which do not exist
                return [("own event", NE, str(e), q.path)], ctx.facts()
            if o is None and not here:
                return [], ctx.facts()
            try:
                v = public(lambda: it.getattr(o, q.attr), "getting " + q.path)
            except Lost as e:
                return [("own event" if here else "missing", NE, str(e), q.path)], ctx.facts()
            if here:
                e = expect(q, lab, ctx)
                r = same_value(v, e, ctx, lab)
                return [("own event", r, "" if r == EQ else f"reads {show(v)[:200]}, its own event has {show(e)[:200]}", q.path)], ctx.facts()
            w = MISSING_OK.get(q.attr)
            r = EQ if v is w or v == w else NE if not isinstance(v, Term) or leaves(v) else UNK
            return [("missing", r, f"has no event for it, but reads {show(v)[:200]}", q.path)], ctx.facts()

        return job

    def partition(st, ctx):
        b, out = st["b"], []
        evs = lab.items(it.getattr(st["p"], "events"))
        if len(evs) != len(b.ev):
            return [("events", NE, f"{len(evs)} events instead of {len(b.ev)}", "pyflp.parse")], ctx.facts()
        keys = [k for k, _, _ in b.ev]
        seen = {}
        for kind, path, key in b.ents:
            fam = "channel" if kind in TYPES else kind
            try:
                o = public(lambda: lab.walk(st["p"], path), "reaching " + path)
                mine = lab.items(it.getattr(o, "events"))
            except Lost as e:
                out.append(("entity", NE, str(e), path))
                continue
            have = {keys[i] for i, e in enumerate(evs) if any(e is x for x in mine)}
            want = {k for k in keys if k.startswith(key + ".")}
            lost = want - have
            out.append(("none lost", NE if lost else EQ, f"{path} does not have its events {sorted(lost)[:6]}", path))
            others = [k for f, _, k in b.ents if (("channel" if f in TYPES else f) == fam) and k != key and not key.startswith(k + ".") and not k.startswith(key + ".")]
            foreign = {k for k in have if any(k.startswith(x + ".") for x in others)}
            out.append(("disjoint", NE if foreign else EQ, f"{path} has events of another one: {sorted(foreign)[:6]}", path))
            alien = {k for k in have if not k.startswith(key + ".") and k[0] != "Z"} - foreign
            out.append(("only its own", NE if alien else EQ, f"{path} has events that are not its own: {sorted(alien)[:6]}", path))
            if fam == "channel":
                num = next(int.from_bytes(p, "little") for k, _, p in ((k, i, bytes(q)) for k, i, q in b.ev if k == key + ".GroupNum"))
                try:
                    v = public(lambda: lab.walk(o, "group.name"), f"getting {path}.group.name")
                    e = sym(f"text:G{num}.Name", "str")
                    r = same(v, e, ctx)
                    out.append(("display group", r, "" if r == EQ else f"{path}.group.name reads {show(v)[:80]}, its group is G{num}", path))
                except Lost as e:
                    out.append(("display group", NE, str(e), path))
        for coll, fam in (("channels", tuple(TYPES)), ("patterns", ("pattern",)), ("arrangements", ("arrangement",)), ("mixer", ("insert",))):
            n = sum(k in fam for k, _, _ in b.ents)
            got = len(lab.items(it.getattr(st["p"], coll)))
            out.append(("number of entities", EQ if got == n else NE, f"{got} {coll} instead of {n}", coll))
        for path, fam, sub in [(p, k, p) for k, p, _ in b.ents if k in ("pattern", "arrangement", "insert")]:
            o = lab.walk(st["p"], path)
            if fam == "insert":
                n, got = sum(k == "slot" and p.startswith(path + "*") for k, p, _ in b.ents), len(lab.items(o))
                out.append(("number of entities", EQ if got == n else NE, f"{path} has {got} slots instead of {n}", path))
            else:
                n = sum(k == "marker" and p.startswith(path + ".") for k, p, _ in b.ents)
                got = len(lab.items(it.getattr(o, "timemarkers")))
                out.append(("number of entities", EQ if got == n else NE, f"{path} has {got} time markers instead of {n}", path))
                if fam == "arrangement":
                    n = sum(k == "track" and p.startswith(path + ".") for k, p, _ in b.ents)
                    got = len(lab.items(it.getattr(o, "tracks")))
                    out.append(("number of entities", EQ if got == n else NE, f"{path} has {got} tracks instead of {n}", path))
        return out, ctx.facts()

    def overall(st, ctx):
        """Properties of the collections themselves."""
        out = []
        have = {k for k, _, _ in st["b"].ev}
        for path, key, off, w, k in (("channels.swing", "R.Swing", 0, 1, "u"), ("channels.height", "R.WindowHeight", 0, 4, "u"), ("arrangements.time_signature.num", "A.TimeSigNum", 0, 1, "u"),
                                     ("arrangements.time_signature.beat", "A.TimeSigBeat", 0, 1, "u")):
            try:
                v = public(lambda: lab.walk(st["p"], path), "getting " + path)
            except Lost as e:
                if key in have:
                    out.append(("collection", NE, str(e), path))
                continue
            if key in have:
                r = same(v, rd(key, off, w, k), ctx)
                out.append(("collection", r, f"reads {show(v)[:100]}", path))
        return out, ctx.facts()

    n = 0
    for name in LAYOUTS:
        for ver, uni in VERS.get(name, [("20.8.4", True)]):
            base = Base(lab, layout_setup(lab, name, P, ver, uni))
            lay = f"{name} ({ver})"
            n += 1
            jobs.append((f"{lay}: events", base, partition))
            jobs.append((f"{lay}: collections", base, overall))
            for kind, path, key in base.state["b"].ents:
                for rest, pl in rows[kind]:
                    jobs.append((f"{lay}: {path}{rest}", base, entity_job(kind, path, key, rest, pl)))
    collect(rep, jobs)
    rep.extra["layouts"] = n
