"""Every event ID the library does not name is parsed from an unknown
payload into an unsigned integer, a text or raw bytes, by range. Plugin data is
analysed under an unknown internal name (all paths): on the path where the
name equals a supported plugin's name the data has that plugin's structure,
otherwise it is the raw payload; sequences of names and data check that only the most
recent name counts, whatever lies between. Without a name it is raw."""
from ..history import EARLIER, earlier
from ..idtab import *

FLOOR = 600
STRUCTS = {  # supported plugins: first bytes of the structure the data is decoded with
    "BooBass": "bass", "Fruity Balance": "pan", "Fruity Blood Overdrive": "pre_band", "Fruity Center": "enabled",
    "Fruity Fast Dist": "pre", "Fruity NoteBook 2": "active_page", "Fruity Send": "pan", "Fruity Soft Clipper": "threshold",
    "Fruity Stereo Enhancer": "pan", "Fruit Kick": "max_freq", "Plucked!": "decay", "Soundgoodizer": "mode", "Fruity Wrapper": "type",
}


def decoded(lab, e):
    """Keys of the structure a data event was decoded into, None if raw."""
    v = lab.it.getattr(e, "value")
    if isinstance(v, (bytes, ABytes)) or isinstance(v, Term):
        return None
    if isinstance(v, VDict):
        return [k for k, _ in v.pairs]
    raise Unsupported(f"plugin data value {show(v)[:100]}")


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    cases = []

    def unknown(eid, enc, n=None, name=None, after=()):
        def fn(ctx):
            u = enc == "unicode"
            p = payload(lab, ctx, eid, n, unicode=u)
            for x in after:  # files parsed before
                earlier(lab, ctx, x)
            pre = ([ver_event(VERSIONS[enc])] if enc else []) + ([(201, Text(lab, ctx, u).const(name))] if name else [])
            evs = pre + [(eid, p), (0, b"\1")]
            try:
                pr = lab.parse(flp(evs))
                es = lab.items(it.getattr(pr, "events"))
            except PyRaise as x:
                return NE, f"ID {eid} is not accepted: {exc_name(x)}: {str(x)[:200]}"
            if len(es) != len(evs):
                return NE, f"{len(es)} events instead of {len(evs)}"
            e = es[len(pre)]
            r, t = value_check(lab, ctx, e, default_kind(eid), eid, n=len(to_abytes(p)))
            return r, f"ID {eid}: {t}"

        return fn

    for eid in range(256):
        if eid in TABLE:
            continue
        for enc in (*VERSIONS, None):
            if enc is None and eid in TEXT_IDS:
                continue
            if eid < 208:
                cases.append(("unknown ID", f"event {eid} ({enc})", unknown(eid, enc)))
            else:
                for n in (0, 1, 9, 128, 300):
                    cases.append(("unknown ID", f"event {eid} ({enc}) of {n} bytes", unknown(eid, enc, n)))

    for eid in range(208, 256):
        if eid not in TABLE and eid not in TEXT_IDS:
            for enc in VERSIONS:
                for name in STRUCTS:
                    cases.append(("unknown ID after a plugin name", f"event {eid} ({enc}) after {name}", unknown(eid, enc, 40, name)))
    for eid in (5, 90, 170, 210, 250):
        if eid not in TABLE:
            for x in EARLIER:
                cases.append(("unknown ID, other file before", f"event {eid} after a file {x}", unknown(eid, "unicode", 40 if eid > 207 else None, None, [x])))

    def check(es, want, ctx):
        """want: [(event index, supported name or None, payload)]"""
        for i, name, p in want:
            keys = decoded(lab, es[i])
            if name is None:
                if keys is not None:
                    return NE, f"plugin data without a supported name is decoded as {keys[:4]}"
                r = same(it.getattr(es[i], "value"), p, ctx)
                if r != EQ:
                    return r, "plugin data is not kept as it is"
            elif keys is None:
                return NE, f"data of {name} is not decoded"
            elif STRUCTS[name] not in keys and not set(keys) & ALT.get(name, set()):
                return NE, f"data of {name} is decoded as {keys[:6]}"
        return EQ, ""

    def sequence(names, between=(), enc="unicode", after=()):
        """name, [between], data, name, data ...; None: no name event."""
        def fn(ctx):
            for x in after:
                earlier(lab, ctx, x)
            t = Text(lab, ctx, enc == "unicode")
            evs, want = [ver_event(VERSIONS[enc])], []
            cur = None
            for k, n in enumerate(names):
                if n is not None:
                    evs.append((201, t.const(n)))
                    cur = n if n in STRUCTS else None
                for b in between:
                    evs.append((b, payload(lab, ctx, b, key=f"B{k}.{b}", unicode=enc == "unicode")))
                    legal(ctx, b, f"B{k}.{b}")
                d = plugin_data(cur, f"D{k}", ctx) if cur else source(f"D{k}", 30 + k)
                want.append((len(evs), cur, d))
                evs.append((213, d))
            try:
                es = lab.items(it.getattr(lab.parse(flp(evs)), "events"))
            except PyRaise as x:
                return NE, f"parse() raises {exc_name(x)}: {str(x)[:200]}"
            return check(es, want, ctx)

        return fn

    S = list(STRUCTS)
    other = [i for i in (64, 21, 203, 212, 155, 128, 98, 236, 204, 192, 193, 231, 239, 241, 205, 99, 65, 147, 219)]
    for enc in VERSIONS:
        cases.append(("plugin data", f"no name ({enc})", sequence([None, None], enc=enc)))
        for i, a in enumerate(S):
            cases.append(("plugin data", f"{a} ({enc})", sequence([a], enc=enc)))
            cases.append(("plugin data", f"{a}, other events ({enc})", sequence([a, None], other, enc=enc)))
            b = S[(i + 1) % len(S)]
            cases.append(("plugin data", f"{a} then {b} ({enc})", sequence([a, b, a], enc=enc)))
            cases.append(("plugin data", f"{a} then an empty name ({enc})", sequence([a, "", b, "Sytrus", None], enc=enc)))
            for odd in (a.lower() if a.lower() != a else a.upper(), a + " ", " " + a, a[:-1]):
                if odd not in STRUCTS:
                    cases.append(("plugin data", f"name {odd!r} ({enc})", sequence([odd], enc=enc)))

        for x in EARLIER:
            cases.append(("plugin data, other file before", f"no name after a file {x} ({enc})", sequence([None, None], enc=enc, after=[x])))
            cases.append(("plugin data, other file before", f"Sytrus, Plucked! after a file {x} ({enc})", sequence(["Sytrus", "Plucked!"], enc=enc, after=[x])))

    def symbolic(ctx):
        evs = [ver_event("20.8.4"), (201, Text(lab, ctx)("N")), (213, source("D", 3))]
        try:
            es = lab.items(it.getattr(lab.parse(flp(evs)), "events"))
        except PyRaise as x:
            known = ctx.resolve(sym("text:N", "str"))
            return None if isinstance(known, str) else (NE, f"parse() raises {exc_name(x)}: {str(x)[:200]}")
        name = ctx.resolve(sym("text:N", "str"))
        if isinstance(name, Term):
            return check(es, [(2, None, source("D", 3))], ctx)
        if name not in STRUCTS:
            return check(es, [(2, None, source("D", 3))], ctx)
        keys = decoded(lab, es[2])
        return (EQ if keys is not None else NE), f"data of {name} is not decoded"

    cases.append(("plugin data", "unknown name", symbolic))
    spread(rep, cases, lab)


ALT = {}
