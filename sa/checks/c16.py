"""The accepted values of tempo (per FL version), PPQ, channel count, version
and note key are partitioned into the legal ones and the rest; on every path
of the setter for a value of the first class nothing is raised and the file
changes as prescribed, on every path for the second class the documented
exception is raised and the saved file is the one read.  Every other writable
property is assigned values of wrong type and range: whenever that raises,
the saved file must be unchanged and the property must read as before."""
from ..prop import *
from ..special import *
from ..trip import case, spread

FLOOR = 600
INF = float("inf")


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    P = load()
    cases = []

    def accept(row, mk, want):
        """Setting succeeds; ``want(ctx, b)`` gives the expected file."""
        def fn(ctx):
            b = setup(lab, ctx, row, None, P)
            v = mk(ctx)
            try:
                p = public(lambda: lab.parse(b.file(**HD)), "parsing")
                o = public(lambda: lab.walk(p, row.owner) if row.owner else p, "reaching " + row.owner)
                public(lambda: it.setattr(o, row.attr, v), f"setting {row.path} = {show(v)[:60]}")
                f = public(lambda: lab.save(p), "saving")
            except Lost as x:
                return NE, str(x)
            if want is None:
                return EQ, ""
            w = want(ctx, b, v)
            r = same(f, w, ctx)
            return r, f"{row.path} = {show(v)[:60]}: the saved file is not the expected one: " + (
                f"{len(f)} bytes instead of {len(w)}" if len(f) != len(w) else str([(show(x), show(y)) for x, y in diff_bytes(f, w)])[:300])

        return fn

    def reject(row, mk, excs):
        def fn(ctx):
            b = setup(lab, ctx, row, None, P)
            v = mk(ctx)
            d = b.file(**HD)
            try:
                p = public(lambda: lab.parse(d), "parsing")
                o = public(lambda: lab.walk(p, row.owner) if row.owner else p, "reaching " + row.owner)
                try:
                    it.setattr(o, row.attr, v)
                    return NE, f"{row.path} = {show(v)[:60]} is accepted"
                except PyRaise as e:
                    if not any(is_exc(it, e, x) for x in excs):
                        return NE, f"{row.path} = {show(v)[:60]} raises {exc_name(e)} instead of {excs[0]}"
                f = public(lambda: lab.save(p), "saving")
            except Lost as x:
                return NE, str(x)
            r = same(f, d, ctx)
            return r, f"{row.path} = {show(v)[:60]} is rejected, but the saved file differs: " + (
                f"{len(f)} bytes instead of {len(d)}" if len(f) != len(d) else str([(show(x), show(y)) for x, y in diff_bytes(f, d)])[:300])

        return fn

    def integer(lo, hi):
        def mk(ctx):
            t = sym("v", "int")
            ctx.doms[t] = IntDom.rng(lo, hi)
            return t

        return mk

    const = lambda v: lambda ctx: value(lab, v)

    # -------------------------------------------------------------------- tempo
    def tempo_row(ver):
        if ver >= (11,):
            return S("tempo", "P.Tempo", 0, 4, [], version=".".join(map(str, ver)))
        extra = (("P._TempoFine", 93, None), ("P._TempoCoarse", 66, None)) if ver >= (3, 4, 0) else (("P._TempoCoarse", 66, None),)
        return S("tempo", "P._TempoCoarse", 0, 2, [], version=".".join(map(str, ver)), without=("P.Tempo",), extra=extra)

    def tempo_file(ctx, b, v):
        e = Layout.__new__(Layout)
        e.__dict__.update(b.__dict__)
        e.ev = []
        for k, i, p in b.ev:
            if isinstance(v, Term):
                q = {"P.Tempo": enc(4, mk_bin("mul", v, 1000)), "P._TempoFine": u16(0), "P._TempoCoarse": enc(2, v)}.get(k, p)
            else:
                m = round(v * 1000)
                q = {"P.Tempo": u32(m), "P._TempoFine": u16(m % 1000), "P._TempoCoarse": u16(m // 1000)}.get(k, p)
            e.ev.append((k, i, q))
        return e.file(**HD)

    for ver in ((1, 4, 2), (2, 0, 0), (3, 3, 9), (3, 4, 0), (4, 0, 0), (10, 0, 9), (10, 9, 9), (11, 0, 0), (11, 1, 1), (12, 0, 0), (20, 8, 4), (24, 1, 0)):
        top = 999 if ver < (11,) else 522
        row = tempo_row(ver)
        n = f"tempo in {row.version}"
        cases.append(("accepts", f"{n}: any integer 10..{top}", accept(row, integer(10, top), tempo_file)))
        cases.append(("rejects", f"{n}: any integer below 10", reject(row, integer(-INF, 9), ["ValueError"])))
        cases.append(("rejects", f"{n}: any integer above {top}", reject(row, integer(top + 1, INF), ["ValueError"])))
        for v in (10.0, 10.001, 99.5, 140.057, top - 0.001, float(top)):
            if ver >= (3, 4, 0):
                cases.append(("accepts", f"{n}: {v}", accept(row, const(v), tempo_file)))
            else:
                cases.append(("rejects", f"{n}: {v}", reject(row, const(v), ["TypeError"])))
        if ver >= (3, 4, 0):
            for v in (9.999, 0.0, -1.5, top + 0.001, 1e9, -1e9):
                cases.append(("rejects", f"{n}: {v}", reject(row, const(v), ["ValueError"])))
    old = tempo_row((1, 4, 1))
    cases.append(("rejects", "tempo in 1.4.1: any integer below 10", reject(old, integer(-INF, 9), ["ValueError"])))
    cases.append(("rejects", "tempo in 1.4.1: any integer above 999", reject(old, integer(1000, INF), ["ValueError"])))
    cases.append(("accepts", "tempo in 1.4.1: any integer 10..522", accept(old, integer(10, 522), tempo_file)))

    # ------------------------------------------------------------ header fields
    row = S("ppq", "", 0, 0, [])
    valid = [24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960]

    def head(**kw):
        return lambda ctx, b, v: b.file(**{**HD, **{k: (enc(2, v) if isinstance(v, Term) else v) for k in kw}})

    for v in valid:
        cases.append(("accepts", f"ppq {v}", accept(row, const(v), head(ppq=1))))
    edges = [-INF] + valid + [INF]
    for a, b_ in zip(edges, edges[1:]):
        lo, hi = a + 1 if a != -INF else a, b_ - 1 if b_ != INF else b_
        cases.append(("rejects", f"ppq: any integer {lo}..{hi}", reject(row, integer(lo, hi), ["ValueError"])))
    row = S("channel_count", "", 0, 0, [])
    cases.append(("accepts", "channel_count: any 0..65535", accept(row, integer(0, 65535), head(channels=1))))
    cases.append(("rejects", "channel_count: any negative", reject(row, integer(-INF, -1), ["ValueError"])))

    # ------------------------------------------------------------------ version
    row = S("version", "P.FLVersion", 0, 0, [])

    def version_file(parts):
        def want(ctx, b, v):
            e = Layout.__new__(Layout)
            e.__dict__.update(b.__dict__)
            txt = ".".join(map(str, parts)).encode() + b"\0"
            e.ev = [(k, i, txt if k == "P.FLVersion" else u32(parts[3]) if k == "P.FLBuild" and len(parts) == 4 else p) for k, i, p in b.ev]
            return e.file(**HD)

        return want

    flv = lambda *a: Val(lambda lab: lab.it.call(lab.cls("pyflp.types.FLVersion"), list(a)), f"FLVersion{a}")
    for parts in ((20, 8, 4), (20, 8, 4, 2576), (12, 0, 0), (21, 0, 3, 0), (11, 5, 0, 1), (24, 1, 2, 4321), (100, 20, 30, 40000)):
        for v in (flv(*parts), ".".join(map(str, parts)), parts):
            cases.append(("accepts", f"version {v!r}", accept(row, const(v), version_file(parts))))
    for v in ("", "20", "20.8", "1.2.3.4.5", "a.b.c", "20.8.x", "20..4", "20.8.4.", "20.8.4.1.", ".20.8.4", "twenty"):
        cases.append(("rejects", f"version {v!r}", reject(row, const(v), ["ValueError"])))
    for v in ((), (20,), (20, 8), (1, 2, 3, 4, 5)):
        cases.append(("rejects", f"version {v!r}", reject(row, const(v), ["ValueError"])))

    # ----------------------------------------------------------------- note key
    row = S("patterns*[0].notes*[1].key", "T1.Notes#1", 12, 2, [])

    def key_file(n):
        def want(ctx, b, v):
            e = Layout.__new__(Layout)
            e.__dict__.update(b.__dict__)
            e.ev = list(b.ev)
            put(e, "T1.Notes#1", 12, u16(n) if n is not None else enc(2, v))
            return e.file(**HD)

        return want

    cases.append(("accepts", "note key: any integer 0..131", accept(row, integer(0, 131), key_file(None))))
    cases.append(("rejects", "note key: any integer above 131", reject(row, integer(132, INF), ["ValueError"])))
    cases.append(("rejects", "note key: any negative integer", reject(row, integer(-INF, -1), ["ValueError"])))
    for k in range(132):
        v = NOTE[k % 12] + str(k // 12)
        cases.append(("accepts", f"note key {v}", accept(row, const(v), key_file(k))))
    for v in ("", "H5", "C", "5", "C-1", "C11", "c5", "Cb5", "C#", "#5", "C5 ", "C05", "B#4", "E#3", "5C", "CC5", "C5C", "C##5", "C100", "A 5", "Db3", "60"):
        cases.append(("rejects", f"note key {v!r}", reject(row, const(v), ["ValueError"])))

    spread(rep, cases, lab)

    # ------------------------------------------- any other property, bad values
    rows = [p for p in P if "ro" not in p.opts and "len" not in p.opts and "without" not in p.opts]
    seen, some = set(), []
    for pl in rows:  # one property of each kind and event class is enough for flags
        k = (key_class(pl.key), pl.off, pl.w, pl.kind, pl.attr)
        if k not in seen:
            seen.add(k)
            some.append(pl)
    B = bases(lab, some, P, with_donor=False)
    jobs = [(f"{pl.name} = {n}", B[base_key(pl)], bad_job(lab, pl, n, v)) for pl in some for n, v in BAD]
    for path in SPECIAL_BAD:
        pl = Place(path + " | - 0 0 any")
        k = base_key(pl)
        if k not in B:
            B[k] = Base(lab, setup_for(lab, k, P, with_donor=False))
        jobs += [(f"{path} = {n}", B[k], bad_job(lab, pl, n, v)) for n, v in BAD]
    collect(rep, jobs)
    rep.extra["properties assigned bad values"] = len(jobs)


SPECIAL_BAD = ["tempo", "licensee", "ppq", "channel_count", "version", "channels*[0].fx.start", "channels*[0].fx.length", "channels*[0].stretching.multiplier", "channels*[0].fx.reverb.type",
               "channels*[0].fx.reverb.mix", "arrangements*[0].tracks*[0].height", "patterns*[0].notes*[0].key"]
HD = {}


def enc(w, t, k="u"):
    return ABytes((("enc", w, k, t),))


def is_exc(it, e, name):
    from ..ext import isinstance_

    if name in ("PropertyCannotBeSet",):
        return exc_name(e) == name
    return it.truth(isinstance_(it, e.exc, Ext("builtins." + name)))


BAD = [("a large integer", 1 << 70), ("a large negative integer", -(1 << 70)), ("text", "bad value \u4e2d"), ("a float", 1e300), ("bytes", b"\1\2\3"), ("an empty tuple", ()), ("a long tuple", (1, 2, 3, 4, 5, 6)),
       ("a pair whose second part is bad", (1, "x")), ("None", None)]


def bad_job(lab, pl, name, v):
    it = lab.it
    k = base_key(pl)
    own, pth = local(pl.owner, k), local(pl.path, k)

    def run(st, ctx):
        try:
            o = public(lambda: lab.walk(st["p"], own) if own else st["p"], "reaching " + own)
            where = describe(lab, o, pl.attr)
        except Lost as e:
            return [("reach", NE, str(e), pl.path)], ctx.facts()
        d = st["data"]
        try:
            it.setattr(o, pl.attr, v)
            return [], ctx.facts()  # accepted: nothing is claimed
        except PyRaise as e:
            n = exc_name(e)
        except Unsupported:
            return [], ctx.facts()
        try:
            f = public(lambda: lab.save(st["p"]), f"{pth} = {name} raises {n}; saving")
        except Lost as e:
            return [("unchanged after rejection", NE, str(e), where)], ctx.facts()
        r = same(f, d, ctx)
        return [("unchanged after rejection", r, "" if r == EQ else f"{pth} = {name} raises {n}, but the saved file differs: " + (
            f"{len(f)} instead of {len(d)} bytes" if len(f) != len(d) else str([(show(x), show(y)) for x, y in diff_bytes(f, d)])[:300]), where)], ctx.facts()

    return run
