"""Text events under an unknown version text: on every path of the version
decision the decoding used agrees with (major, minor) >= (11, 5), and
constant version texts on both sides of the bound agree too. For every text
ID and both encodings the value is the stored text without trailing NULs; writing a text
gives its encoding and one NUL; the version itself stays ASCII; every text ID
before the version raises VersionNotDetected."""
from ..history import EARLIER, earlier
from ..idtab import *

FLOOR = 500
VERS = [f"{a}.{b}{c}" for a in (1, 3, 9, 10, 11, 12, 20, 21, 24, 100) for b in (0, 1, 4, 5, 6, 10, 50) for c in ("", ".0", ".5", ".0.1", ".9.99")]
BOTH = ["", "a", "ab\0c", "\0x", "trailing ", "  led\t", "one\r\ntwo\nthree\r", "".join(map(chr, range(1, 128))), "%s {0} $x \\n", "long " * 60]
SAMPLES = {"unicode": BOTH + ["\u00e4\u20ac", "\U0001d11e", "\ufeffmark", "a\ufffe\uffff", "e\u0301 \ufb01 \u0130 \u00df", "".join(chr(n) for n in range(128, 65536, 97) if not 0xd800 <= n < 0xe000)],
           "ascii": BOTH + ["~ {}"]}


def newer(v):
    return [int(x) for x in v.split(".")][:2] >= [11, 5]


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    cases = []
    ids = [i for i in TEXT_IDS if i != 199]

    def event(d, i=1):
        return lab.items(it.getattr(lab.parse(d), "events"))[i]

    def constant(v, eid):
        def fn(ctx):
            enc = "utf-16-le" if newer(v) else "ascii"
            d = flp([ver_event(v), (eid, ("ab" + "\0").encode(enc))])
            try:
                x = it.getattr(event(d), "value")
            except PyRaise as e:
                return NE, f"version {v}: raises {exc_name(e)}: {str(e)[:200]}"
            return same(x, "ab", ctx), f"text of version {v} is read as {show(x)[:100]} instead of 'ab' ({enc})"

        return fn

    for v in VERS:
        for eid in ((203,) if rep.tier == "quick" else ids):
            cases.append(("encoding by version", f"event {eid}, version {v}", constant(v, eid)))

    def symbolic(eid):
        def fn(ctx):
            d = flp([(199, Text(lab, ctx, False)("V")), (eid, source("X", 8))])
            try:
                x = it.getattr(event(d), "value")
            except PyRaise as e:
                return None  # not a version text
            parts = Term("m:split", (sym("text:V", "str"), "."), "list")
            num = lambda i: Term("int", (Term("item", (parts, i), "str"),), "int")
            doms = [ctx.dom(num(0)), ctx.dom(num(1))]
            f = ctx.facts()
            if any("ends after 1" in z for z in f):
                new = ctx.truth(mk_cmp("ge", num(0), 12))
            else:
                new = ctx.truth(mk_cmp("ge", num(0), 12)) or (ctx.truth(mk_cmp("eq", num(0), 11)) and ctx.truth(mk_cmp("ge", num(1), 5)))
            t = show(x)
            used = "utf-16-le" in t or "utf_16" in t
            if not used and "ascii" not in t:
                return ("unsupported", f"value {t[:100]}")
            if used == new:
                return EQ, ""
            return UNK, f"unknown version text {doms}: decoded as {t[:100]}"  # the constant versions decide

        return fn

    for eid in (192, 203, 241):
        cases.append(("encoding by version (all)", f"event {eid}, unknown version", symbolic(eid)))

    def read(eid, enc, nul):
        def fn(ctx):
            u = enc == "unicode"
            t = Text(lab, ctx, u)("X")
            try:
                x = it.getattr(event(flp([ver_event(VERSIONS[enc]), (eid, ABytes((t.segs[0], b"\0" * nul * (2 if u else 1))))])), "value")
            except PyRaise as e:
                return NE, f"raises {exc_name(e)}: {str(e)[:200]}"
            w = sym("text:X", "str")
            return same(x, w, ctx), f"text with {nul} NULs is read as {show(x)[:150]}"

        return fn

    def const(eid, enc, s, nul):
        def fn(ctx):
            codec = "utf-16-le" if enc == "unicode" else "ascii"
            try:
                x = it.getattr(event(flp([ver_event(VERSIONS[enc]), (eid, (s + "\0" * nul).encode(codec))])), "value")
            except PyRaise as e:
                return NE, f"raises {exc_name(e)}: {str(e)[:200]}"
            return same(x, s, ctx), f"text {s!r} is read as {show(x)[:150]}"

        return fn

    def write(eid, enc, s):
        def fn(ctx):
            codec = "utf-16-le" if enc == "unicode" else "ascii"
            t = Text(lab, ctx, enc == "unicode")
            p = lab.parse(flp([ver_event(VERSIONS[enc]), (eid, t("X"))]))
            try:
                it.setattr(lab.items(it.getattr(p, "events"))[1], "value", s)
                f = lab.save(p)
            except PyRaise as e:
                return NE, f"raises {exc_name(e)}: {str(e)[:200]}"
            w = flp([ver_event(VERSIONS[enc]), (eid, (s + "\0").encode(codec))])
            r = same(f, w, ctx)
            return r, "" if r == EQ else f"text {s!r} is not written as {codec} with one NUL: " + delta(f, w, ctx)

        return fn

    def carry(eid, enc):
        """A text read from another file of the same encoding."""
        def fn(ctx):
            t = Text(lab, ctx, enc == "unicode")
            p = lab.parse(flp([ver_event(VERSIONS[enc]), (eid, t("X"))]))
            q = lab.parse(flp([ver_event(VERSIONS[enc]), (eid, t("Y"))]), "q.flp")
            try:
                it.setattr(lab.items(it.getattr(p, "events"))[1], "value", it.getattr(lab.items(it.getattr(q, "events"))[1], "value"))
                f = lab.save(p)
            except PyRaise as e:
                return NE, f"raises {exc_name(e)}: {str(e)[:200]}"
            w = flp([ver_event(VERSIONS[enc]), (eid, t("Y"))])
            if same(sym("text:X", "str"), sym("text:Y", "str"), ctx) == EQ:
                return None
            r = same(f, w, ctx)
            return r, "" if r == EQ else "the text is not written with its encoding and one NUL: " + delta(f, w, ctx)

        return fn

    for eid in ids:
        for enc in VERSIONS:
            for nul in range(4):
                cases.append(("text read", f"event {eid} ({enc}, {nul} NULs)", read(eid, enc, nul)))
            for s in SAMPLES[enc]:
                for nul in (1, 2):
                    cases.append(("text read", f"event {eid} ({enc}) {s!r}, {nul} NULs", const(eid, enc, s, nul)))
                cases.append(("text written", f"event {eid} ({enc}) {s!r}", write(eid, enc, s)))
            cases.append(("text written", f"event {eid} ({enc})", carry(eid, enc)))

    def too_early(eid, before, after=()):
        def fn(ctx):
            for x in after:
                earlier(lab, ctx, x)
            evs = [(b, payload(lab, ctx, b, key=f"B{b}")) for b in before] + [(eid, b"ab"), ver_event("20.8.4")]
            try:
                lab.parse(flp(evs))
            except PyRaise as e:
                return (EQ if exc_name(e) == "VersionNotDetected" else NE), f"raises {exc_name(e)} instead of VersionNotDetected"
            return NE, "a text event before the version is accepted"

        return fn

    for eid in ids:
        for before in ((), (0, 64, 159)):
            cases.append(("version not detected", f"event {eid} after {before}", too_early(eid, before)))

    for x in EARLIER:
        for eid in (192, 194, 203, 231, 241):
            cases.append(("version not detected, other file before", f"event {eid} after a file {x}", too_early(eid, (), [x])))

    def after(eid, enc, x, vpos):
        def fn(ctx):
            earlier(lab, ctx, x)
            t = Text(lab, ctx, enc == "unicode")("X")
            evs = [(0, b"\1"), (64, b"\0\0")][:vpos] + [ver_event(VERSIONS[enc]), (eid, t)]
            try:
                p = lab.parse(flp(evs))
                v = it.getattr(lab.items(it.getattr(p, "events"))[-1], "value")
            except PyRaise as e:
                return NE, f"raises {exc_name(e)}: {str(e)[:200]}"
            return same(v, sym("text:X", "str"), ctx), f"text of {VERSIONS[enc]} is read as {show(v)[:150]} after a file {x}"

        return fn

    for x in EARLIER:
        for enc in VERSIONS:
            for eid in (192, 194, 203, 231, 241):
                for vpos in (0, 2):
                    cases.append(("text read, other file before", f"event {eid} ({enc}, version event {vpos}) after a file {x}", after(eid, enc, x, vpos)))

    def version_text(v, new):
        """The version event is ASCII whatever it says."""
        def fn(ctx):
            p = lab.parse(flp([ver_event(v), (159, source("B", 4))]))
            e = lab.items(it.getattr(p, "events"))[0]
            x = it.getattr(e, "value")
            if same(x, v, ctx) != EQ:
                return NE, f"version text {v!r} is read as {show(x)}"
            try:
                it.setattr(e, "value", new)
                f = lab.save(p)
            except PyRaise as x:
                return NE, f"raises {exc_name(x)}"
            w = flp([ver_event(new), (159, source("B", 4))])
            r = same(f, w, ctx)
            return r, "" if r == EQ else "the version is not written as ASCII with one NUL: " + delta(f, w, ctx)

        return fn

    for v, new in (("9.0.1", "10.0.0"), ("11.1.1", "12.5.0"), ("20.8.4", "21.0.3.3517"), ("24.1.2.9999", "8.0.0")):
        cases.append(("version text", f"{v} to {new}", version_text(v, new)))

    def vsym(ctx):
        t = Text(lab, ctx, False)("V")
        try:
            x = it.getattr(event(flp([(199, t)]), 0), "value")
        except PyRaise:
            return None
        return same(x, sym("text:V", "str"), ctx), f"version text is read as {show(x)[:100]}"

    cases.append(("version text", "unknown text", vsym))
    spread(rep, cases, lab)
