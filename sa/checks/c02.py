"""For every event ID: an abstract file with that event between two others
parses into exactly three events whose IDs and payload terms are those of the
file (so the parser consumed the right number of bytes); size equals the framed length
and bytes() the framed bytes; an event object of the ID's type built from a
payload of another length, and a file that ends inside the payload, raise
InvalidEventChunkSize; after a text or data value of another length is set
the size prefix counts the new payload."""
from ..trip import *

FLOOR = 1500
BAD = "InvalidEventChunkSize"


def event_bytes(eid, p):
    return norm_bytes(ABytes(frame(eid, p)))


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    cases = []

    def consumed(eid, mkp, enc="unicode"):
        def fn(ctx):
            ver = VERSIONS[enc]
            p = mkp(ctx)
            legal(ctx, eid, "X")
            d = flp([(0, source("A", 1)), ver_event(ver), (eid, p), (2, source("B", 1)), (66, source("C", 2))])
            try:
                pr = lab.parse(d)
                evs = lab.items(it.getattr(pr, "events"))
            except PyRaise as e:
                return NE, f"parse() raises {exc_name(e)}: {str(e)[:200]}"
            if len(evs) != 5:
                return NE, f"{len(evs)} events are parsed from a file of 5"
            want = [0, 199, eid, 2, 66]
            for e, i in zip(evs, want):
                got = it.intish(it.getattr(e, "id"))
                if same(got, i, ctx) != EQ:
                    return NE, f"event {i} is parsed with ID {show(got)}"
            for e, (i, q) in zip(evs, [(0, source("A", 1)), ver_event(ver), (eid, p), (2, source("B", 1)), (66, source("C", 2))]):
                w = event_bytes(i, q)
                try:
                    b = it.call(Ext("builtins.bytes"), [e])
                    n = it.getattr(e, "size")
                except PyRaise as x:
                    return NE, f"serialising event {i} raises {exc_name(x)}: {str(x)[:200]}"
                r = same(b, w, ctx)
                if r != EQ:
                    return r, f"event {i} serialises to {show(b)[:150]} instead of {show(w)[:150]}"
                r = same(n, len(w), ctx)
                if r != EQ:
                    return r, f"event {i} reports size {show(n)} but has {len(w)} bytes"
            return EQ, ""

        return fn

    def wrong(eid, n):
        """Constructing the event type of the ID with n bytes."""
        def fn(ctx):
            try:
                pr = lab.parse(flp([ver_event("20.8.4"), (eid, source("X", fixed(eid)))]))
            except PyRaise as e:
                return NE, f"parse() raises {exc_name(e)}: {str(e)[:200]}"
            e = lab.items(it.getattr(pr, "events"))[1]
            try:
                it.call(e.cls, [it.getattr(e, "id"), source("Y", n) if n else b""])
            except PyRaise as x:
                return (EQ if exc_name(x) == BAD else NE), f"a payload of {n} bytes raises {exc_name(x)} instead of {BAD}"
            return NE, f"{e.cls.name} accepts a payload of {n} bytes for ID {eid}"

        return fn

    def cut(segs, what):
        def fn(ctx):
            body = ABytes(frame(*ver_event("20.8.4")) + segs)
            d = norm_bytes(ABytes([HDR, b"\0\0\1\0\x60\0FLdt", u32(len(body)), *body.segs]))
            try:
                lab.parse(d)
            except PyRaise as x:
                return (EQ if exc_name(x) == BAD else NE), f"{what}: raises {exc_name(x)} instead of {BAD}"
            return NE, f"{what}: accepted"

        return fn

    for eid in range(256):
        if eid < 192:
            cases.append(("framing", f"event {eid}", consumed(eid, lambda ctx, eid=eid: source("X", fixed(eid)))))
            for n in [x for x in range(0, 9) if x != fixed(eid)]:
                cases.append(("wrong size", f"event {eid} of {n} bytes", wrong(eid, n)))
            for n in range(fixed(eid)):
                cases.append(("cut short", f"event {eid} with {n} bytes left", cut([bytes([eid])] + ([("raw", "X", 0, n)] if n else []), f"event {eid} with {n} bytes left")))
            continue
        if eid in TEXT_IDS:
            if eid != 199:
                for enc in VERSIONS:
                    for nul in (0, 1, 2):
                        def txt(ctx, enc=enc, nul=nul):
                            t = Text(lab, ctx, enc == "unicode")("X")
                            return ABytes((t.segs[0], b"\0" * nul * (2 if enc == "unicode" else 1)))

                        cases.append(("framing", f"event {eid} ({enc}, {nul} NULs)", consumed(eid, txt, enc)))
                    for n in (63, 64, 127, 128, 8192):
                        def long(ctx, enc=enc, n=n):
                            return ("a" * (n - 1) + "\0").encode("utf-16-le" if enc == "unicode" else "ascii")

                        cases.append(("framing", f"event {eid} ({enc}) with {n} characters", consumed(eid, long, enc)))
        elif eid in STRUCT_IDS:
            ns = STRUCT_IDS[eid] if eid not in (215, 234) else [None]
            for n in ns:
                cases.append(("framing", f"event {eid} with {n or 'its usual'} bytes", consumed(eid, lambda ctx, eid=eid, n=n: payload(lab, ctx, eid, n))))
        else:
            for n in (0, 1, 127, 128, 16383, 16384, 2097151, 2097152):
                cases.append(("framing", f"event {eid} with {n} bytes", consumed(eid, lambda ctx, n=n: source("X", n) if n else b"")))
        for have, say in ((0, 1), (3, 4), (3, 200), (126, 127), (127, 128), (128, 300), (5, 20000)):
            segs = [bytes([eid]) + varint(say)] + ([("raw", "X", 0, have)] if have else [])
            if eid in TEXT_IDS:
                segs = [bytes([eid]) + varint(say), b"1" + b".1" * (have // 2) if eid == 199 else b"a" * have]
                if eid == 199 and have == 0:
                    segs = [bytes([eid]) + varint(say)]
                elif eid == 199 and len(segs[1]) >= say:
                    continue
            cases.append(("cut short", f"event {eid} says {say} bytes, {have} left", cut(segs, f"event {eid} says {say} bytes, {have} are left")))

    def grown(eid, n, enc):
        """Setting a text of n characters."""
        def fn(ctx):
            ver = VERSIONS[enc]
            d = flp([ver_event(ver), (eid, Text(lab, ctx, enc == "unicode")("X")), (2, source("B", 1))])
            try:
                pr = lab.parse(d)
                e = lab.items(it.getattr(pr, "events"))[1]
                it.setattr(e, "value", "a" * n)
                f = lab.save(pr)
                sz = it.getattr(e, "size")
            except PyRaise as x:
                return NE, f"raises {exc_name(x)}: {str(x)[:200]}"
            w = flp([ver_event(ver), (eid, ("a" * n + "\0").encode("utf-16-le" if enc == "unicode" else "ascii")), (2, source("B", 1))])
            r = same(f, w, ctx)
            if r != EQ:
                return r, "the saved file is not framed as expected: " + delta(f, w, ctx)
            ln = len(frame(eid, ("a" * n + "\0").encode("utf-16-le" if enc == "unicode" else "ascii"))[1]) + 1 + len(varint((n + 1) * (2 if enc == "unicode" else 1)))
            r = same(sz, ln, ctx)
            return r, f"size is {show(sz)}, the event has {ln} bytes"

        return fn

    for eid in TEXT_IDS:
        if eid != 199:
            for enc in VERSIONS:
                for n in (0, 1, 62, 63, 64, 126, 127, 128, 8190, 8191, 8192, 16383):
                    cases.append(("size prefix after a change", f"event {eid} ({enc}) set to {n} characters", grown(eid, n, enc)))

    def resized(eid, old, new):
        def fn(ctx):
            d = flp([ver_event("20.8.4"), (eid, source("X", old)), (2, source("B", 1))])
            try:
                pr = lab.parse(d)
                e = lab.items(it.getattr(pr, "events"))[1]
                it.setattr(e, "value", source("N", new) if new else b"")
                f = lab.save(pr)
            except PyRaise as x:
                return NE, f"raises {exc_name(x)}: {str(x)[:200]}"
            w = flp([ver_event("20.8.4"), (eid, source("N", new) if new else b""), (2, source("B", 1))])
            r = same(f, w, ctx)
            return r, "the saved file is not framed as expected: " + delta(f, w, ctx) if r != EQ else ""

        return fn

    for eid in range(208, 256):
        if eid not in STRUCT_IDS and eid not in TEXT_IDS:
            for old, new in ((5, 0), (5, 127), (5, 128), (200, 127), (5, 16384)):
                cases.append(("size prefix after a change", f"event {eid} from {old} to {new} bytes", resized(eid, old, new)))
    spread(rep, cases, lab)
    rep.extra["event IDs"] = 256
    rep.extra["files"] = len(cases)
