"""parse() followed by save() on abstract files with unknown payloads: the
written bytes are term for term the bytes read. Files: every event ID alone
(per text encoding and, for data events, per payload length), every
supported plugin's data at every length, every text terminator, all IDs in
both orders, whole projects of both encodings, and unknown header fields.
Payloads which parse() rejects are not claimed unless the format has them."""
from ..trip import *

FLOOR = 900
FORMATS = (-1, 0, 16, 24, 32, 48, 49, 50, 64, 80)
PPQS = (24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960)
PLUGINS = {**GEN, **FX}


def lengths(eid, thorough):
    if eid not in STRUCT_IDS:
        return [0, 1, 7, 127, 128, 129, 16383, 16384, 70000]
    top = max(STRUCT_IDS[eid])
    step = range(0, top + (12 if eid == 225 else 18)) if thorough or top <= 70 else sorted({*range(0, top + 18, 4), *range(top - 4, top + 6)})
    return list(step)


def part(name, n, ctx):
    """The first ``n`` bytes of a plugin's data; longer ones go on with unknown bytes."""
    d = to_abytes(plugin_data(name, "X", ctx))
    if n > len(d):
        return norm_bytes(ABytes([*d.segs, ("raw", "Z", 0, n - len(d))]))
    pos = 0
    for s in d.segs:
        if pos < n < pos + seg_len(s) and not isinstance(s, bytes) and s[0] == "enc":
            n = pos
        pos += seg_len(s)
    return norm_bytes(d.cut(0, n)) if n else b""


def run(rep, make):
    lab = make()
    prepare(lab)
    thorough = rep.tier == "thorough"
    cases = []

    def add(rule, key, mk, must=True):
        cases.append((rule, key, round_trip(lab, mk, must)))

    for eid in range(256):
        for enc, ver in VERSIONS.items():
            def one(ctx, eid=eid, enc=enc, ver=ver):
                p = payload(lab, ctx, eid, unicode=enc == "unicode")
                legal(ctx, eid, "X")
                return flp([ver_event(ver), (eid, p)])

            add("single event", f"event {eid} ({enc})", one)
        if eid < 192 or eid in TEXT_IDS or eid in (213,):
            continue
        for n in lengths(eid, thorough):
            def cut(ctx, eid=eid, n=n):
                return flp([ver_event("20.8.4"), (eid, payload(lab, ctx, eid, n)), (0, b"\1")])

            add("payload length", f"event {eid} with {n} bytes", cut, must=eid not in STRUCT_IDS)
    for eid in [i for i in range(256) if i not in TEXT_IDS]:
        def nover(ctx, eid=eid):
            p = payload(lab, ctx, eid)
            legal(ctx, eid, "X")
            return flp([(eid, p)])

        add("no version", f"event {eid}", nover)
    for eid in TEXT_IDS:
        if eid == 199:
            continue
        for enc, ver in VERSIONS.items():
            u = 2 if enc == "unicode" else 1
            for nul in (0, 1, 2, 3):
                def term(ctx, eid=eid, enc=enc, ver=ver, nul=nul, u=u):
                    t = Text(lab, ctx, enc == "unicode")("X")
                    return flp([ver_event(ver), (eid, ABytes((t.segs[0], b"\0" * u * nul)))])

                add("text terminator", f"event {eid} ({enc}) with {nul} NULs", term)

                def bare(ctx, eid=eid, ver=ver, nul=nul, u=u):
                    return flp([ver_event(ver), (eid, b"\0" * u * nul)])

                add("text terminator", f"empty event {eid} ({enc}) with {nul} NULs", bare)
    for nul in (b"", b"\0", b"\0\0", b"\0\0\0\0"):
        for v in ("3.0.0", "11.4.9", "11.5.0", "20.8.4.2576", "24.1.1.4234"):
            add("version text", f"{v!r} with {len(nul)} NULs", lambda ctx, v=v, nul=nul: flp([(199, v.encode() + nul), (3, source("X", 1))]))
    for name, full in PLUGINS.items():
        mx = full or (24 if name == "Fruity NoteBook 2" else 240)
        for n in list(range(0, mx + 10)) if thorough else sorted({*range(0, mx + 10, 4), *range(max(0, mx - 4), mx + 6)}):
            def plug(ctx, name=name, n=n):
                return flp([ver_event("20.8.4"), (201, (name + "\0").encode("utf-16-le")), (213, part(name, n, ctx))])

            add("plugin data", f"{name} data of {n} bytes", plug, must=False)
        for enc, ver in VERSIONS.items():
            def plugok(ctx, name=name, enc=enc, ver=ver):
                t = Text(lab, ctx, enc == "unicode")
                return flp([ver_event(ver), (201, t.const(name)), (212, source("W", 56)), (213, plugin_data(name, "X", ctx)), (213, plugin_data(name, "Y", ctx))])

            add("plugin data", f"{name} ({enc})", plugok)

    def everything(order, enc):
        def mk(ctx):
            evs = [ver_event(VERSIONS[enc])]
            for i, eid in enumerate(order):
                if eid in (199, 213):
                    continue
                evs.append((eid, payload(lab, ctx, eid, key=f"E{i}", unicode=enc == "unicode")))
                legal(ctx, eid, f"E{i}")
            return flp(evs)

        return mk

    asc = list(range(256))
    for enc in VERSIONS:
        add("event order", f"every ID ascending ({enc})", everything(asc, enc))
        add("event order", f"every ID descending ({enc})", everything(asc[::-1], enc))
        add("event order", f"every ID twice ({enc})", everything([i for x in asc for i in (x, x)], enc))

    def header(ctx):
        h = source("hdr", 6)
        ctx.doms[rd("hdr", 0, 2, "s")] = IntDom.of(FORMATS)
        ctx.doms[rd("hdr", 4, 2)] = IntDom.of(PPQS)
        return flp([ver_event("20.8.4"), (3, source("X", 1))], fmt=h.cut(0, 2), channels=h.cut(2, 4), ppq=h.cut(4, 6))

    add("header", "unknown format, channel count and PPQ", header)
    for fmt in FORMATS:
        add("header", f"format {fmt}", lambda ctx, fmt=fmt: flp([ver_event("20.8.4"), (3, source("X", 1))], fmt=fmt, channels=source("n", 2)))
    for ppq in PPQS:
        add("header", f"PPQ {ppq}", lambda ctx, ppq=ppq: flp([ver_event("20.8.4"), (3, source("X", 1))], ppq=ppq, channels=source("n", 2)))
    add("events", "version changes within the file", lambda ctx: flp(
        [ver_event("9.0.0"), (203, Text(lab, ctx, False)("X")), ver_event("20.8.4"), (203, Text(lab, ctx)("Y"))]))

    def whole(enc, chans):
        def mk(ctx):
            b = Build(lab, ctx, VERSIONS[enc], enc == "unicode")
            b.focus(chans) if chans is not None else b.wide()
            assume_legal(b, ctx)
            return b.file(channels=source("n", 2))

        return mk

    for enc in VERSIONS:
        for ch in range(9):
            add("whole project", f"channel {ch} ({enc})", whole(enc, [ch]))
        add("whole project", f"all channels ({enc})", whole(enc, None))
    spread(rep, cases, lab)
    rep.extra["files"] = len(cases)
