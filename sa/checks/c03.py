"""parse() on abstract files whose header field is unknown but outside (or
inside) its valid set: magic byte by byte, header size, format, PPQ, data magic,
data size as whole-domain complements; every truncation of the header;
surplus and missing bytes. Every path must raise HeaderCorrupted for the first kind, and none for the
second."""
from ..trip import *

FLOOR = 150
BAD = "HeaderCorrupted"
FORMATS = (-1, 0, 16, 24, 32, 48, 49, 50, 64, 80)
PPQS = (24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960)
# (offset, width, kind, valid values)
FIELDS = {"header size": (4, 4, "u", (6,)), "format": (8, 2, "s", FORMATS), "PPQ": (12, 2, "u", PPQS)}
BODIES = {
    "one byte event": [(3, b"\1")],
    "version and text": [ver_event("20.8.4"), (203, b"a\0\0\0")],
    "unknown payloads": [ver_event("9.0.0"), (70, source("A", 2)), (150, source("B", 4)), (250, source("C", 200))],
    "text without version": [(203, b"a\0\0\0")],
}


def put(d, off, new):
    """Replace bytes of a constant-header file."""
    d, new = to_abytes(d), to_abytes(new)
    tail = to_abytes(d.cut(off + len(new), len(d)))
    head = to_abytes(d.cut(0, off)) if off else ABytes(())
    return norm_bytes(ABytes([*head.segs, *new.segs, *tail.segs]))


def run(rep, make):
    lab = make()
    prepare(lab)
    cases = []

    def rejected(mk, what):
        def fn(ctx):
            try:
                lab.parse(mk(ctx))
            except PyRaise as e:
                n = exc_name(e)
                return (EQ if n == BAD else NE), f"{what}: raises {n} instead of {BAD}: {str(e)[:150]}"
            return NE, f"{what}: a project is returned"

        return fn

    def accepted(mk, what):
        def fn(ctx):
            try:
                p = lab.parse(mk(ctx))
            except PyRaise as e:
                n = exc_name(e)
                return (NE if n == BAD or what.endswith("!") else EQ), f"{what}: a valid header is rejected with {n}: {str(e)[:150]}"
            return EQ, ""

        return fn

    for bn, body in BODIES.items():
        base = lambda body=body, **kw: flp(body, **kw)
        n = len(to_abytes(base())) - 22

        for magic, off in ((b"FLhd", 0), (b"FLdt", 14)):
            for i in range(4):
                def badmagic(ctx, off=off, i=i, magic=magic, base=base):
                    # byte i differs; the bytes before are right, the ones after are unknown
                    ctx.doms[rd("m", i, 1)] = IntDom.of([magic[i]]).compl().inter(IntDom.rng(0, 255))
                    return put(base(), off + i, ABytes([("raw", "m", i, 4 - i)]))

                cases.append(("corrupt header", f"{magic.decode()} byte {i}, {bn}", rejected(badmagic, f"byte {i} of the magic {magic} is wrong")))

                def onebyte(ctx, off=off, i=i, magic=magic, base=base):
                    ctx.doms[rd("m", i, 1)] = IntDom.of([magic[i]]).compl().inter(IntDom.rng(0, 255))
                    return put(base(), off + i, ABytes([("raw", "m", i, 1)]))

                cases.append(("corrupt header", f"only {magic.decode()} byte {i}, {bn}", rejected(onebyte, f"only byte {i} of the magic {magic} is wrong")))
            for other in (magic.lower(), magic.upper(), magic[::-1], b"RIFF", b"MThd", b"\0\0\0\0", b"FLdt" if off == 0 else b"FLhd"):
                if other != magic:
                    cases.append(("corrupt header", f"{magic.decode()} is {other!r}, {bn}", rejected(lambda ctx, off=off, other=other, base=base: put(base(), off, other), f"magic {other!r}")))
        for f, (off, w, k, valid) in {**FIELDS, "data size": (18, 4, "u", (n,))}.items():
            def bad(ctx, off=off, w=w, k=k, valid=valid, base=base):
                lo, hi = (-(1 << 8 * w - 1), (1 << 8 * w - 1) - 1) if k == "s" else (0, (1 << 8 * w) - 1)
                ctx.doms[rd("f", 0, w, k)] = IntDom.of(valid).compl().inter(IntDom.rng(lo, hi))
                return put(base(), off, source("f", w))

            cases.append(("corrupt header", f"every invalid {f}, {bn}", rejected(bad, f"invalid {f}")))
            near = sorted({v + d for v in valid for d in (-2, -1, 1, 2, 256, 65536, -256)} | {0, 1, 65535, 32768} if k == "u" else {v + d for v in valid for d in (-1, 1, 2)} | {-32768, 32767, -2})
            for v in near:
                if v in valid or not (-(1 << 8 * w - 1) <= v if k == "s" else 0 <= v) or v >= 1 << (8 * w - (k == "s")):
                    continue
                cases.append(("corrupt header", f"{f} {v}, {bn}", rejected(lambda ctx, v=v, off=off, w=w, k=k, base=base: put(base(), off, v.to_bytes(w, "little", signed=k == "s")), f"{f} {v}")))

            def good(ctx, off=off, w=w, k=k, valid=valid, base=base):
                ctx.doms[rd("f", 0, w, k)] = IntDom.of(valid)
                return put(base(), off, source("f", w))

            ok = "!" if bn != "text without version" else ""
            cases.append(("valid header", f"every valid {f}, {bn}", accepted(good, f"valid {f}{ok}")))
            for v in valid:
                cases.append(("valid header", f"{f} {v}, {bn}", accepted(lambda ctx, v=v, off=off, w=w, k=k, base=base: put(base(), off, v.to_bytes(w, "little", signed=k == "s")), f"{f} {v}{ok}")))
        cases.append(("valid header", f"every channel count, {bn}", accepted(lambda ctx, base=base: base(channels=source("n", 2)), "any channel count" + ok)))
        for cut in range(0, 22):
            cases.append(("short file", f"{cut} bytes of the header, {bn}", rejected(lambda ctx, cut=cut, base=base: norm_bytes(to_abytes(base()).cut(0, cut)) if cut else b"", f"only {cut} bytes")))
        for cut in range(22, min(22 + n, 40)):
            cases.append(("short file", f"{cut} of {22 + n} bytes, {bn}", rejected(lambda ctx, cut=cut, base=base: norm_bytes(to_abytes(base()).cut(0, cut)), f"{cut} of {22 + n} bytes")))
        for more in (1, 2, 5, 300):
            cases.append(("long file", f"{more} surplus bytes, {bn}", rejected(lambda ctx, more=more, base=base: norm_bytes(ABytes([*to_abytes(base()).segs, ("raw", "Z", 0, more)])), f"{more} surplus bytes")))
    cases.append(("short file", "no event data, size 0", rejected(lambda ctx: HDR + b"\0\0\1\0\x60\0FLdt\0\0\0\0", "no event data")))
    for n in range(0, 22):
        def raw(ctx, n=n):
            return source("W", n) if n else b""

        cases.append(("short file", f"{n} unknown bytes", rejected(raw, f"{n} unknown bytes")))
    spread(rep, cases, lab)
    rep.extra["files"] = len(cases)
