"""The ID enumerations, evaluated from their class bodies: no ID is a member
of two of them, every member has the ID the format gives it. For every ID
the event parsed from an unknown payload has the value kind of the format (term
for term: width, sign, pair, color, text, structure). Every event class
with a range accepts exactly the IDs of its range and rejects others with EventIDOutOfRange."""
from ..idtab import *

FLOOR = 1200
RANGES = {
    "BoolEvent": range(0, 64), "I8Event": range(0, 64), "U8Event": range(0, 64),
    "I16Event": range(64, 128), "U16Event": range(64, 128),
    "F32Event": range(128, 192), "I32Event": range(128, 192), "U32Event": range(128, 192), "U16TupleEvent": range(128, 192), "ColorEvent": range(128, 192),
    "AsciiEvent": TEXT_IDS, "UnicodeEvent": TEXT_IDS,
}
MODULES = ("pyflp.project", "pyflp.channel", "pyflp.arrangement", "pyflp.mixer", "pyflp.pattern", "pyflp.plugin", "pyflp.timemarker", "pyflp.controller")


def enums(lab):
    base = lab.cls("pyflp._events.EventEnum")
    out = {}
    for m in MODULES:
        try:
            ns = lab.module(m).ns
        except Exception:  # noqa: BLE001 - a module that is gone has no IDs
            continue
        for n, c in list(ns.items()):
            if isinstance(c, ClassVal) and c is not base and base in lab.it.mro(c):
                out.setdefault(id(c), c)
    return {f"{c.name}/{n}": c for n, c in enumerate(out.values())}


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    cases = []

    def disjoint(ctx):
        owner = {}
        for n, c in enums(lab).items():
            for m in c.members:
                owner.setdefault(int(m.value), {}).setdefault(n, m.name)
        bad = {i: o for i, o in owner.items() if len(o) > 1}
        if not owner:
            return ("unsupported", "no ID enumerations found")
        return (NE, f"IDs claimed twice: {bad}") if bad else (EQ, "")

    cases.append(("one owner per ID", "all enumerations", disjoint))

    def member(eid):
        c, n, _ = TABLE[eid]

        def fn(ctx):
            try:
                cls = lab.cls(c)
            except Exception:  # noqa: BLE001 - renamed: other checks decide what it does
                return None
            m = next((m for m in cls.members if m.name == n), None)
            if m is None:
                # the name is gone: is the ID still in the same part?
                return (EQ if any(int(x.value) == eid for x in cls.members) else NE), f"{c} does not have ID {eid} ({n})"
            return (EQ if int(m.value) == eid else NE), f"{c}.{n} is {int(m.value)}; the format has {eid}"

        return fn

    for eid in TABLE:
        cases.append(("ID of each member", f"{TABLE[eid][0]}.{TABLE[eid][1]}", member(eid)))

    def kind(eid, enc):
        def fn(ctx):
            p = payload(lab, ctx, eid, unicode=enc == "unicode")
            if eid == 199:
                p = Text(lab, ctx, False)("X")
            legal(ctx, eid, "X")
            evs = [ver_event(VERSIONS[enc]), (eid, p)]
            try:
                pr = lab.parse(flp(evs))
            except PyRaise as x:
                if eid == 199 and exc_name(x) == "ValueError":
                    return None
                return NE, f"an event with ID {eid} cannot be parsed: {exc_name(x)}: {str(x)[:200]}"
            e = lab.items(it.getattr(pr, "events"))[1]
            r, t = value_check(lab, ctx, e, value_kind(eid), eid, n=len(to_abytes(p)))
            return r, f"ID {eid} is parsed as {e.cls.name}: " + t

        return fn

    for eid in range(256):
        if eid in OPTIONAL:
            continue
        for enc in VERSIONS:
            cases.append(("value kind", f"event {eid} ({enc})", kind(eid, enc)))

    def accepts(name, eid):
        def fn(ctx):
            try:
                cls = lab.cls("pyflp._events." + name)
            except Exception:  # noqa: BLE001 - no such class any more
                return None
            ok = eid in RANGES[name]
            i = it.call(lab.cls("pyflp._events.EventEnum"), [eid])
            data = source("X", fixed(eid)) if eid < 192 else b"a\0"
            try:
                it.call(cls, [i, data])
            except PyRaise as x:
                n = exc_name(x)
                if ok:
                    return NE, f"{name} rejects ID {eid} with {n}"
                return (EQ if n == "EventIDOutOfRange" else NE), f"{name} with ID {eid} raises {n} instead of EventIDOutOfRange"
            return (EQ if ok else NE), f"{name} accepts ID {eid}"

        return fn

    for name in RANGES:
        for eid in range(256):
            cases.append(("accepted IDs", f"{name} with ID {eid}", accepts(name, eid)))
    spread(rep, cases, lab)
    rep.extra["IDs"] = 256
