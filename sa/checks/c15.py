"""Assigning the value a property reads leaves the saved file as it is: for
every writable property of the place table with unknown stored contents, for
every converted value (levels, heights, musical time, tempo, licensee, note
names) over its stored domain - symbolically where the converter is arithmetic,
over the whole finite domain otherwise - and for RGBA.  Values encoded by a
converter decode to the same value again."""
from ..prop import *
from ..special import *
from ..trip import delta, spread

FLOOR = 900


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    P = load()
    rows = [p for p in P if "ro" not in p.opts and "bit" not in p.fam()]  # flags: C11
    B = bases(lab, rows, P, with_donor=False)
    D = bases(lab, [p for p in rows if converted(p)], P)
    jobs = [(pl.name, B[base_key(pl)], own_job(lab, pl)) for pl in rows]
    jobs += [(pl.name + " of another project", D[base_key(pl)], set_job(lab, pl)) for pl in rows if converted(pl)]
    cases = self_cases(lab, P)

    # --------------------------------------------------- symbolic stored values
    def symbolic(name, row, doms, off=None, w=None):
        def fn(ctx):
            b = setup(lab, ctx, row, None, P)
            for t, d in doms:
                ctx.doms[t] = d
            d = b.file()
            try:
                p = public(lambda: lab.parse(d), "parsing")
                o = public(lambda: lab.walk(p, row.owner) if row.owner else p, "reaching " + row.owner)
                v = public(lambda: it.getattr(o, row.attr), "reading " + row.path)
                public(lambda: it.setattr(o, row.attr, v), f"setting {row.path} = {show(v)[:60]}")
                f = public(lambda: lab.save(p), "saving")
            except Lost as x:
                return NE, str(x)
            r = same(f, d, ctx)
            return r, f"{row.path} reads {show(v)[:100]}; assigning that changes the file: " + (
                f"{len(f)} bytes instead of {len(d)}" if len(f) != len(d) else str([(show(x), show(y)) for x, y in diff_bytes(f, d)])[:300])

        return ("own value, any stored", name, fn)

    def carry(rule, name, row, data, other, doms=()):
        """The value read from a project that stores ``data`` (None: unknown),
        assigned in one that stores ``other``, makes it store ``data``."""
        def fn(ctx):
            q, b = setup(lab, ctx, row, data, P), setup(lab, ctx, row, other, P)
            for t, d in doms:
                ctx.doms[t] = d
            want = q.file()
            try:
                v = public(lambda: lab.walk(lab.parse(want, "other.flp"), row.path), "reading " + row.path)
                p = public(lambda: lab.parse(b.file()), "parsing")
                o = public(lambda: lab.walk(p, row.owner) if row.owner else p, "reaching " + row.owner)
                public(lambda: it.setattr(o, row.attr, v), f"setting {row.path} = {show(v)[:60]}")
                f = public(lambda: lab.save(p), "saving")
            except Lost as x:
                return NE, str(x)
            r = same(f, want, ctx)
            return r, "" if r == EQ else f"{row.path} reads {show(v)[:100]}; assigning that where {other.hex()} is stored does not store the same again: " + delta(f, want, ctx)

        return (rule, name, fn)

    for r in ROWS:
        if r.ro or len({d for d, _ in r.pairs}) < 2:
            continue
        for i, (d, v) in enumerate(r.pairs):
            o = r.pairs[i - 1][0]
            if o != d:
                cases.append(carry("value of another project", f"{r.name} {d.hex()[:24]}", r, d, o))
    Y = lambda path, key, off, w, **kw: S(path, key, off, w, [], **kw)
    cases += [
        carry("value of another project, any stored", "multiplier", Y("channels*[0].stretching.multiplier", "C0.Parameters", 104, 4), None, i32(777), [(rd("C0.Parameters", 104, 4, "s"), IntDom.rng(-100000, 100000))]),
        carry("value of another project, any stored", "fx.start", Y("channels*[0].fx.start", "C0.Parameters", 133, 4), None, u16(777) + u16(63)),
        carry("value of another project, any stored", "fx.length", Y("channels*[0].fx.length", "C0.Parameters", 141, 4), None, u16(777) + u16(63)),
        carry("value of another project, any stored", "time", Y("channels*[0].stretching.time", "C0.Parameters", 96, 4), None, i32(777)),
        carry("value of another project, any stored", "tempo", Y("tempo", "P.Tempo", 0, 4), None, u32(123456), [(rd("P.Tempo", 0, 4), IntDom.rng(10000, 522000))]),
        carry("value of another project, any stored", "tempo coarse", Y("tempo", "P._TempoCoarse", 0, 2, version="3.3.0", without=("P.Tempo",), extra=(("P._TempoCoarse", 66, None),)), None, u16(77), [(rd("P._TempoCoarse", 0, 2), IntDom.rng(10, 999))]),
    ]
    for v in (1, 2, 3, 4095, 4096, 4097, 20479, 20481, 33333, 45056, 52345, 61438, 61439, 61440):
        for a, off in (("start", 133), ("length", 141)):
            cases.append(carry("value of another project", f"fx.{a} {v}", Y(f"channels*[0].fx.{a}", "C0.Parameters", off, 4), u16(v) + u16(63), u16(777) + u16(63)))
    for v in (*range(-30, 31, 3), *range(-40000, 40001, 2357)):
        cases.append(carry("value of another project", f"multiplier {v}", Y("channels*[0].stretching.multiplier", "C0.Parameters", 104, 4), i32(v), i32(777)))
    for v in (*range(0, 97, 7), 767, 768, 769, 815, 816, 4000, 12345, 76799, 2000000):
        cases.append(carry("value of another project", f"time {v}", Y("channels*[0].stretching.time", "C0.Parameters", 96, 4), u32(v), u32(777)))

    X = lambda path, key, **kw: S(path, key, 0, 0, [], **kw)
    cases += [
        symbolic("multiplier", X("channels*[0].stretching.multiplier", "C0.Parameters"), [(rd("C0.Parameters", 104, 4, "s"), IntDom.rng(-100000, 100000))]),
        symbolic("fx.start", X("channels*[0].fx.start", "C0.Parameters"), []),
        symbolic("fx.length", X("channels*[0].fx.length", "C0.Parameters"), []),
        symbolic("reverb.mix", X("channels*[0].fx.reverb.mix", "C0.Reverb"), [(rd("C0.Reverb", 0, 4), IntDom.rng(0, 65792))]),
        symbolic("reverb.type", X("channels*[0].fx.reverb.type", "C0.Reverb"), [(rd("C0.Reverb", 0, 4), IntDom.rng(0, 65792))]),
        symbolic("tempo", X("tempo", "P.Tempo"), [(rd("P.Tempo", 0, 4), IntDom.rng(10000, 522000))]),
        symbolic("tempo coarse", X("tempo", "P._TempoCoarse", version="3.3.0", without=("P.Tempo",), extra=(("P._TempoCoarse", 66, None),)), [(rd("P._TempoCoarse", 0, 2), IntDom.rng(10, 999))]),
    ]
    for fine in (0, 1, 57, 333, 999):
        cases.append(symbolic(f"tempo coarse, fine {fine}", X("tempo", "P._TempoFine", version="9.0.0", without=("P.Tempo",), extra=(("P._TempoFine", 93, u16(fine)), ("P._TempoCoarse", 66, None))),
                              [(rd("P._TempoCoarse", 0, 2), IntDom.rng(10, 998))]))
    for coarse in (10, 120, 140, 521, 998):
        cases.append(symbolic(f"tempo fine, coarse {coarse}", X("tempo", "P._TempoFine", version="9.0.0", without=("P.Tempo",), extra=(("P._TempoFine", 93, None), ("P._TempoCoarse", 66, u16(coarse)))),
                              [(rd("P._TempoFine", 0, 2), IntDom.rng(0, 999))]))

    # ------------------------------------------------------------ every height
    def heights(lo, hi):
        def fn(ctx):
            b = Layout(lab, ctx)
            b.start()
            b.chan("C0", "sampler", 0, sparse=True)
            b.notes("T1", 1, 0, 0)
            b.arrangements()
            b.arr("A0", 0, tracks=hi - lo)
            b.ins("I0", sparse=True, named=False)
            assume_legal(b, ctx)
            assume_places(P, b, ctx)
            for k in range(lo, hi):
                put(b, f"A0.t{k - lo}.Data", 13, f32((k + 7) / 100))
            e = b.file()
            for k in range(lo, hi):
                put(b, f"A0.t{k - lo}.Data", 13, f32(k / 100))
            d = b.file()
            try:
                p = public(lambda: lab.parse(d), "parsing")
                other = public(lambda: lab.parse(e, "other.flp"), "parsing")
                for t, o in zip(lab.items(lab.walk(p, "arrangements*[0].tracks")), lab.items(lab.walk(other, "arrangements*[0].tracks"))):
                    public(lambda: it.setattr(o, "height", it.getattr(t, "height")), "height")
                f = public(lambda: lab.save(other), "saving")
                if same(f, d, ctx) != EQ:
                    return NE, "assigning the heights read to other tracks does not store them: " + delta(f, d, ctx)
                for k, t in zip(range(lo, hi), public(lambda: lab.items(lab.walk(p, "arrangements*[0].tracks")), "tracks")):
                    v = public(lambda: it.getattr(t, "height"), "height")
                    if v != f"{k}%":
                        return NE, f"a track of height {k / 100} reads {show(v)}"
                    public(lambda: it.setattr(t, "height", v), f"height = {v}")
                f = public(lambda: lab.save(p), "saving")
            except Lost as x:
                return NE, str(x)
            r = same(f, d, ctx)
            return r, "assigning the heights read changes the file: " + str([(show(x), show(y)) for x, y in diff_bytes(f, d)])[:300]

        return fn

    for lo in range(0, 1000, 50):
        cases.append(("track height", f"{lo}..{lo + 49} %", heights(lo, lo + 50)))

    # --------------------------------------------------------------- note names
    def note_names(ctx):
        row = S("patterns*[0].notes*[0].key", "T1.Notes#0", 12, 2, [])
        b = setup(lab, ctx, row, None, P)
        p = lab.parse(b.file())
        o = lab.walk(p, row.owner)
        for k in range(132):
            try:
                public(lambda: it.setattr(o, "key", k), f"key = {k}")
                v = public(lambda: it.getattr(o, "key"), "key")
                public(lambda: it.setattr(o, "key", v), f"key = {v!r}")
                w = public(lambda: it.getattr(o, "key"), "key")
            except Lost as x:
                return NE, str(x)
            if v != NOTE[k % 12] + str(k // 12) or w != v:
                return NE, f"key {k} reads {show(v)}, and {show(w)} after assigning that"
        return EQ, ""

    cases.append(("note names", "0..131", note_names))

    # ---------------------------------------------------------------- licensee
    def licensee(start, version):
        alnum = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

        def fn(ctx):
            row = S("licensee", "P.Licensee", 0, 0, [], version=version)
            b = setup(lab, ctx, row, None, P)
            p = lab.parse(b.file())
            for s in range(start, start + 8):
                name = "".join(alnum[(s + i) % 62] for i in range(48))
                try:
                    public(lambda: it.setattr(p, "licensee", name), f"licensee = {name!r}")
                    v = public(lambda: it.getattr(p, "licensee"), "licensee")
                except Lost as x:
                    return NE, str(x)
                if v != name:
                    return NE, f"licensee {name!r} reads back {show(v)}"
            return EQ, ""

        return fn

    for ver in ("20.8.4", "9.0.0"):
        for s in range(0, 62, 8):
            cases.append(("licensee", f"every character at every place from {s} ({ver})", licensee(s, ver)))

    # ------------------------------------------------------------ musical time
    def musical(ctx):
        row = S("channels*[0].stretching.time", "C0.Parameters", 96, 4, [])
        b = setup(lab, ctx, row, None, P)
        p = lab.parse(b.file())
        o = lab.walk(p, row.owner)
        T = lab.cls("pyflp.types.MusicalTime")
        bars = sym("bars", "int")
        ctx.doms[bars] = IntDom.rng(0, 5000000)
        for beats in range(16):
            for ticks in range(0, 240, 5):
                nv = it.call(T, [bars, beats, ticks])
                try:
                    public(lambda: it.setattr(o, row.attr, nv), f"setting {row.path}")
                    v = public(lambda: it.getattr(o, row.attr), "reading " + row.path)
                except Lost as x:
                    return NE, str(x)
                r = same_value(v, nv, ctx, lab)
                if r != EQ:
                    return r, f"stretching.time set to {beats} beats and {ticks} ticks reads back {show(v)[:200]}"
        return EQ, ""

    cases.append(("musical time", "every beat and tick, any bars", musical))

    def carried(bars, beats, ticks):
        """Beats and ticks beyond a bar or a beat are the same moment."""
        def fn(ctx):
            row = S("channels*[0].stretching.time", "C0.Parameters", 96, 4, [])
            b = setup(lab, ctx, row, i32(777777), P)
            T = lab.cls("pyflp.types.MusicalTime")
            try:
                p = lab.parse(b.file())
                public(lambda: it.setattr(lab.walk(p, row.owner), row.attr, it.call(T, [bars, beats, ticks])), f"setting {row.path}")
                f = public(lambda: lab.save(p), "saving")
            except Lost as x:
                return NE, str(x)
            w = setup(lab, ctx, row, i32(bars * 768 + beats * 48 + ticks // 5), P).file()
            r = same(f, w, ctx)
            return r, "" if r == EQ else f"stretching.time = ({bars}, {beats}, {ticks}) is stored wrongly: " + delta(f, w, ctx)

        return fn

    for bars in (0, 3):
        for beats, ticks in ((0, 235), (0, 240), (15, 245), (16, 0), (50, 5), (0, 5000), (47, 480)):
            cases.append(("musical time", f"beyond a bar or a beat ({bars}, {beats}, {ticks})", carried(bars, beats, ticks)))

    # ------------------------------------------------------------------- color
    def color(ctx):
        C = lab.cls("pyflp.types.RGBA")
        data = source("col", 4)
        try:
            v = public(lambda: it.call(it.getattr(C, "from_bytes"), [data]), "RGBA.from_bytes")
            f = public(lambda: it.call(Ext("builtins.bytes"), [v]), "bytes(RGBA)")
        except Lost as x:
            return NE, str(x)
        r = same(f, data, ctx)
        return r, f"bytes(RGBA.from_bytes(x)) is {show(f)[:200]}"

    cases.append(("color", "RGBA", color))
    spread(rep, cases, lab)
    collect(rep, jobs)
    rep.extra["properties"] = len(rows)


def converted(pl):
    return pl.fam() not in ("u", "s", "f", "text", "raw")


def own_job(lab, pl):
    it = lab.it
    k = base_key(pl)
    own, pth = local(pl.owner, k), local(pl.path, k)

    def run(st, ctx):
        where = pl.path
        try:
            o = public(lambda: lab.walk(st["p"], own) if own else st["p"], "reaching " + own)
            where = describe(lab, o, pl.attr)
            v = public(lambda: it.getattr(o, pl.attr), f"getting {pth}")
            if v is None:
                return [("own value", NE, f"{pth} reads as None although it is stored", where)], ctx.facts()
            public(lambda: it.setattr(o, pl.attr, v), f"setting {pth} = {show(v)[:80]}")
            f = public(lambda: lab.save(st["p"]), "saving")
        except Lost as e:
            return [("own value", NE, str(e), where)], ctx.facts()
        r = same(f, st["data"], ctx)
        d = st["data"]
        txt = "" if r == EQ else f"assigning the value read ({show(v)[:100]}) changes the file: " + (f"{len(f)} instead of {len(d)} bytes" if len(f) != len(d) else str(
            [(show(x), show(y)) for x, y in diff_bytes(f, d) if compare(x, y, ctx) != EQ])[:300])
        return [("own value", r, txt, where)], ctx.facts()

    return run
