"""save() on abstract projects with an effect trace of every file operation.
A project with one event that cannot be serialised (first, middle or last; a
number out of range, text outside the encoding, a wrong structure) or a header
that cannot be packed raises with the destination - whose old content is an unknown
byte string - untouched. Otherwise the written bytes are the fixed magic,
size 6, the project's current format, channel count and PPQ as terms,
the data magic, the exact length and the events, after changes that grow,
shrink, add or remove events too."""
from ..idtab import *

FLOOR = 120
FORMATS = (-1, 0, 16, 24, 32, 48, 49, 50, 64, 80)
PPQS = (24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960)
OLD = "destination"


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    cases = []

    def body(ctx, enc="unicode"):
        t = Text(lab, ctx, enc == "unicode")
        return [ver_event(VERSIONS[enc]), (3, source("A", 1)), (194, t("T")), (70, source("B", 2)), (219, source("L", 24)), (22, source("R", 1)),
                (156, source("D", 4)), (250, source("U", 9)), (203, t("N"))]

    def fails(pos, value, dest, enc="unicode", field=None):
        """Event ``pos`` gets a value it cannot be serialised from."""
        def fn(ctx):
            evs = body(ctx, enc)
            legal(ctx, 219, "L")
            p = lab.parse(flp(evs), "in.flp")
            e = lab.items(it.getattr(p, "events"))[pos]
            try:
                if field:
                    it.setitem(it.getattr(e, "value"), field, value)
                else:
                    it.setattr(e, "value", value)
            except PyRaise:
                return None  # rejected at once: C16
            old = source(OLD, 40)
            if dest != "in.flp":
                ctx.files[dest] = old
            else:
                old = ctx.files[dest]
            n0 = len(ctx.effects)
            try:
                it.call(lab.m.ns["save"], [p, dest])
            except PyRaise:
                ops = [x for x in ctx.effects[n0:] if x[0] in ("open", "write", "replace", "rename", "remove", "unlink", "truncate", "write_bytes", "write_text")]
                f = ctx.files.get(dest)
                if f is None or same(f, old, ctx) != EQ:
                    return NE, f"event {pos} cannot be serialised, but {dest} was changed first: {[o[:1] + o[3:] for o in ops][:4]}"
                bad = [o for o in ops if o[0] == "open" and o[1] == dest and not o[2].startswith("r")]
                return (NE if bad else EQ), f"{dest} is opened for writing before every event is serialised: {bad[:2]}"
            return None  # it could be serialised after all

        return fn

    BADS = {0: ["20.ä", None, 5], 1: [300, -1, None, "x", 2.5], 2: [None, 7], 3: [70000, -1, None, "x"], 5: [128, 255, -129, None, "x"],
            6: [1 << 32, -1, None, "x", 1.5], 7: [None, 3, "x"], 8: [None, 7]}
    for pos, vals in BADS.items():
        for v in vals:
            for dest in ("out.flp", "in.flp"):
                cases.append(("destination untouched", f"event {pos} = {v!r}, to {dest}", fails(pos, v, dest)))
    for v in ("ä", "\u20ac", "a\u0301"):
        for pos in (2, 8):
            cases.append(("destination untouched", f"text event {pos} = {v!r} (ascii)", fails(pos, v, "out.flp", "ascii")))
    for v in (1 << 33, -1, "x", None):
        cases.append(("destination untouched", f"levels pan = {v!r}", fails(4, v, "out.flp", field="pan")))

    def badheader(attr, v):
        def fn(ctx):
            p = lab.parse(flp(body(ctx)), "in.flp")
            legal(ctx, 219, "L")
            try:
                it.setattr(p, attr, v)
            except PyRaise:
                return None
            old = ctx.files["out.flp"] = source(OLD, 40)
            try:
                it.call(lab.m.ns["save"], [p, "out.flp"])
            except PyRaise:
                return same(ctx.files["out.flp"], old, ctx), "the header cannot be written, but the destination was changed first"
            return None

        return fn

    for attr, v in (("channel_count", 65536), ("channel_count", 1 << 40), ("format", 1 << 20), ("ppq", 70000)):
        cases.append(("destination untouched", f"{attr} = {v}", badheader(attr, v)))

    def written(change, want, what, dest="out.flp", pre=True):
        def fn(ctx):
            evs = body(ctx)
            legal(ctx, 219, "L")
            h = source("hdr", 6)
            ctx.doms[rd("hdr", 0, 2, "s")] = IntDom.of(FORMATS)
            ctx.doms[rd("hdr", 4, 2)] = IntDom.of(PPQS)
            hd = {"fmt": h.cut(0, 2), "channels": h.cut(2, 4), "ppq": h.cut(4, 6)}
            p = lab.parse(flp(evs, **hd), "in.flp")
            if pre:
                ctx.files["out.flp"] = source(OLD, 4000)
            try:
                change(p, ctx)
                d = it.call(Ext("pathlib.Path"), [dest]) if what.endswith("(Path)") else dest
                it.call(lab.m.ns["save"], [p, d])
            except PyRaise as e:
                return NE, f"{what}: raises {exc_name(e)}: {str(e)[:200]}"
            if dest not in ctx.files:
                raise Unsupported("no file is left")
            want(evs, hd, ctx)
            w = flp(evs, **hd)
            r = same(ctx.files[dest], w, ctx)
            return r, "" if r == EQ else f"{what}: the written file differs: " + delta(ctx.files[dest], w, ctx)

        return fn

    nop = lambda p, ctx: None
    non = lambda evs, hd, ctx: None
    W = lambda key, ch, w, **kw: cases.append(("written bytes", key, written(ch, w, key, **kw)))
    W("unknown header", nop, non)
    W("unknown header, new file", nop, non, pre=False)
    W("unknown header, onto the source", nop, non, dest="in.flp")
    W("unknown header (Path)", nop, non)
    enum = lambda name, v: it.call(lab.cls("pyflp.project." + name), [v])

    def put(attr, mk):
        return lambda p, ctx: it.setattr(p, attr, mk(ctx) if callable(mk) else mk)

    def hdr(k, seg):
        return lambda evs, hd, ctx: hd.__setitem__(k, seg)

    for q in PPQS:
        W(f"ppq = {q}", put("ppq", q), hdr("ppq", q))
    for f in FORMATS:
        W(f"format = {f}", put("format", lambda ctx, f=f: enum("FileFormat", f)), hdr("fmt", f))
    for n in (0, 1, 127, 256, 65535):
        W(f"channel_count = {n}", put("channel_count", n), hdr("channels", n))

    def anycount(ctx):
        t = sym("count", "int")
        ctx.doms[t] = IntDom.rng(0, 65535)
        return t

    W("channel_count = any", put("channel_count", anycount), hdr("channels", ABytes((("enc", 2, "u", sym("count", "int")),))))

    def settext(s):
        return (lambda p, ctx: it.setattr(p, "title", s)), (lambda evs, hd, ctx: evs.__setitem__(2, (194, (s + "\0").encode("utf-16-le"))))

    for n in (0, 1, 20, 63, 64, 500, 40000):
        W(f"title of {n} characters", *settext("b" * n))

    def bigger(n):
        return (lambda p, ctx: it.setattr(lab.items(it.getattr(p, "events"))[7], "value", source("NEW", n))), (lambda evs, hd, ctx: evs.__setitem__(7, (250, source("NEW", n))))

    for n in (1, 300, 65536, 1 << 24, (1 << 24) + 77):
        W(f"data of {n} bytes", *bigger(n))

    def removed(i):
        def ch(p, ctx):
            ev = it.getattr(p, "events")
            it.call(it.getattr(ev, "remove"), [it.getattr(lab.items(ev)[i], "id")])

        return ch, lambda evs, hd, ctx: evs.pop(i)

    for i in (1, 4, 8):
        W(f"event {i} removed", *removed(i))

    def added(pos):
        def ch(p, ctx):
            ev = it.getattr(p, "events")
            e = it.call(lab.cls("pyflp._events.U16Event"), [it.call(lab.cls("pyflp._events.EventEnum"), [97]), source("NEW", 2)])
            it.call(it.getattr(ev, "insert"), [pos, e]) if pos < 9 else it.call(it.getattr(ev, "append"), [e])

        return ch, lambda evs, hd, ctx: evs.insert(pos, (97, source("NEW", 2)))

    for pos in (1, 5, 9):
        W(f"event added at {pos}", *added(pos))

    def whole(ctx):
        b = Build(lab, ctx)
        b.wide()
        assume_legal(b, ctx)
        d = b.file(channels=source("n", 2))
        p = lab.parse(d, "in.flp")
        f = lab.save(p)
        try:
            _, evs = unframe(f)
        except BadFraming as e:
            return NE, str(e)
        return (EQ if len(evs) == len(b.ev) else NE), f"{len(evs)} of {len(b.ev)} events are written"

    cases.append(("written bytes", "whole project", whole))
    spread(rep, cases, lab)
