"""Values combined in, or derived from, one stored number: note key, marker
type and position, reverb type and mix, tempo, dates, version and build.  The
stored number is unknown over its whole domain where the rule is arithmetic;
reading each part must give the format's part, setting one part must store the
recombined number and keep the other.  Versions are compared for all pairs of
a grid and for pairs of unknown numbers."""
from itertools import product

from ..enumtab import enum_cases
from ..special import *
from ..trip import spread
from .c16 import enc

FLOOR = 400
SIG = 134217728
OPS = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    P = load()
    X = lambda path, key="", **kw: S(path, key, 0, 0, [], **kw)
    rows = [r for r in ROWS if re.search(r"reverb|\.key$|timemarkers|tempo|created_on|time_spent", r.path)]
    more = [
        S("created_on", "P.Timestamp", 0, 8, [(f64(d), Val(lambda lab, d=d: _days(d), f"{d} days after 1899-12-30")) for d in (-1.0, -0.25, 2.75, 25569.0, 44927.999, 73050.125)], ro=True),
        S("time_spent", "P.Timestamp", 8, 8, [(f64(d), Val(lambda lab, d=d: __import__("datetime").timedelta(days=d), f"{d} days")) for d in (1e-3, 2.75, 365.5, 1000.125)], ro=True),
        *(S(f"patterns*[1].notes*[{i}].key", f"T2.Notes#{i}", 12, 2, [(u16(k), NOTE[k % 12] + str(k // 12)) for k in range(7 * i, 132, 11)]) for i in (0, 1)),
    ]
    cases = get_cases(lab, P, rows + more) + set_cases(lab, P, rows + more) + self_cases(lab, P, rows) + key_cases(lab, P) + enum_cases(lab, ("pyflp.channel.ReverbType", "pyflp.timemarker.TimeMarkerType"))

    def part(name, row, doms, expect):
        """Read every attribute of ``expect`` = {attr: ctx -> value}."""
        def fn(ctx):
            b = setup(lab, ctx, row, None, P)
            for t, d in doms:
                ctx.doms[t] = d
            try:
                p = public(lambda: lab.parse(b.file()), "parsing")
                o = public(lambda: lab.walk(p, row.owner) if row.owner else p, "reaching " + row.owner)
                for a, w in expect.items():
                    v = public(lambda: it.getattr(o, a), "reading " + a)
                    w = w()
                    r = same_value(v, w, ctx, lab)
                    if r != EQ:
                        return r, f"{row.owner}.{a} reads {show(v)[:80]}, the stored number means {show(w)[:80]}"
            except Lost as x:
                return NE, str(x)
            return EQ, ""

        return ("parts of an unknown number", name, fn)

    def change(name, row, doms, attr, new, stored, keep=(), back=True):
        """Set ``attr`` to ``new(ctx)``: ``stored(v)`` = {key: payload of that source}; ``keep`` attributes read as before."""
        def fn(ctx):
            b = setup(lab, ctx, row, None, P)
            for t, d in doms:
                ctx.doms[t] = d
            v = new(ctx)
            try:
                p = public(lambda: lab.parse(b.file()), "parsing")
                o = public(lambda: lab.walk(p, row.owner) if row.owner else p, "reaching " + row.owner)
                old = {a: public(lambda: it.getattr(o, a), "reading " + a) for a in keep}
                public(lambda: it.setattr(o, attr, v), f"setting {attr}")
                for a, w in [(attr, v)] * back + list(old.items()):
                    g = public(lambda: it.getattr(o, a), "reading " + a)
                    r = same_value(g, w, ctx, lab)
                    if r != EQ:
                        return r, f"{attr} = {show(v)[:60]}: {a} reads {show(g)[:60]} instead of {show(w)[:60]}"
                f = public(lambda: lab.save(p), "saving")
            except Lost as x:
                return NE, str(x)
            e = Layout.__new__(Layout)
            e.__dict__.update(b.__dict__)
            s = stored(v)
            e.ev = [(k, i, s.get(k, q)) for k, i, q in b.ev]
            w = e.file()
            r = same(f, w, ctx)
            return r, f"{row.owner}.{attr} = {show(v)[:60]}: the saved file is not the expected one: " + (
                f"{len(f)} bytes instead of {len(w)}" if len(f) != len(w) else str([(show(x), show(y)) for x, y in diff_bytes(f, w)])[:300])

        return ("one part set", name, fn)

    def anint(lo, hi):
        def mk(ctx):
            t = sym("v", "int")
            ctx.doms[t] = IntDom.rng(lo, hi)
            return t

        return mk

    # ------------------------------------------------------------------- reverb
    rv = rd("C0.Reverb", 0, 4)
    RT = lambda n: enum_values(lab, "pyflp.channel.ReverbType")[n]
    for n, base in (("A", 0), ("B", 65536)):
        row, dom = X("channels*[0].fx.reverb.mix", "C0.Reverb"), [(rv, IntDom.rng(base, base + 256))]
        cases.append(part(f"reverb, type {n}", row, dom, {"mix": lambda base=base: mk_bin("sub", rv, base), "type": lambda base=base: RT(base)}))
        cases.append(change(f"reverb mix, type {n}", row, dom, "mix", anint(0, 256), lambda v, base=base: {"C0.Reverb": enc(4, mk_bin("add", v, base))}, ("type",)))
        for m, to in (("A", 0), ("B", 65536)):
            cases.append(change(f"reverb type {n} -> {m}", row, dom, "type", lambda ctx, to=to: RT(to), lambda v, base=base, to=to: {"C0.Reverb": enc(4, mk_bin("add", rv, to - base))}, ("mix",)))

    # ------------------------------------------------------------------ markers
    TM = lambda n: enum_values(lab, "pyflp.timemarker.TimeMarkerType")[n]
    for own, key in (("patterns*[0].timemarkers*[0]", "T1.m0"), ("patterns*[0].timemarkers*[1]", "T1.m1"), ("patterns*[1].timemarkers*[0]", "T2.m0"), ("arrangements*[0].timemarkers*[0]", "A0.m0"),
                     ("arrangements*[0].timemarkers*[1]", "A0.m1")):
        t = rd(f"{key}.Position", 0, 4)
        row = X(own + ".position", key + ".Position")
        cases.append(part(f"{own}: marker", row, [(t, IntDom.rng(0, SIG - 1))], {"position": lambda t=t: t, "type": lambda: TM(0)}))
        cases.append(part(f"{own}: time signature", row, [(t, IntDom.rng(SIG, 2**32 - 1))], {"position": lambda t=t: mk_bin("sub", t, SIG), "type": lambda: TM(SIG)}))

    # -------------------------------------------------------------------- tempo
    T, C, F = rd("P.Tempo", 0, 4), rd("P._TempoCoarse", 0, 2), rd("P._TempoFine", 0, 2)
    cf = (("P._TempoFine", 93, None), ("P._TempoCoarse", 66, None))
    cases.append(part("tempo", X("tempo"), [(T, IntDom.rng(10000, 522000))], {"tempo": lambda: mk_bin("div", T, 1000)}))
    cases.append(part("coarse tempo", X("tempo", version="3.3.0", without=("P.Tempo",), extra=cf[1:]), [(C, IntDom.rng(10, 999))], {"tempo": lambda: C}))
    cases.append(part("tempo and old events", X("tempo", extra=cf), [(T, IntDom.rng(10000, 522000))], {"tempo": lambda: mk_bin("div", T, 1000)}))
    cases.append(part("coarse and fine tempo", X("tempo", version="9.0.0", without=("P.Tempo",), extra=cf), [(C, IntDom.rng(10, 998)), (F, IntDom.rng(0, 999))],
                      {"tempo": lambda: mk_bin("add", C, mk_bin("div", F, 1000))}))
    for ver, top, miss in (("20.8.4", 522, ()), ("11.0.0", 522, ()), ("10.0.0", 999, ()), ("9.0.0", 999, ("P.Tempo",)), ("3.4.0", 999, ("P.Tempo",)), ("1.4.2", 999, ("P.Tempo",))):
        row = X("tempo", version=ver, without=miss, extra=cf)
        st = lambda v: {"P.Tempo": enc(4, mk_bin("mul", v, 1000)), "P._TempoFine": u16(0), "P._TempoCoarse": enc(2, v)}
        cases.append(change(f"tempo in {ver}, any integer, all events", row, [], "tempo", anint(10, top), st))
        if ver == "1.4.2":
            continue
        for v in (10.001, 99.999, 140.057, 128.333, top - 0.999, 63.997):
            m = round(v * 1000)
            cases.append(change(f"tempo in {ver} = {v}, all events", row, [], "tempo", lambda ctx, v=v: v,
                                lambda v, m=m: {"P.Tempo": u32(m), "P._TempoFine": u16(m % 1000), "P._TempoCoarse": u16(m // 1000)}, back=False))

    # ------------------------------------------------------------------ version
    FV = lab.cls("pyflp.types.FLVersion")
    mkv = lambda t: it.call(FV, list(t))
    attrs = ("major", "minor", "patch", "build")

    def version_read(parts):
        def fn(ctx):
            txt = ".".join(map(str, parts))
            b = Layout(lab, ctx, txt, unicode=parts[:2] >= (11, 5))
            b.add("P.FLBuild", 159)
            b.chan("C0", "sampler", 0, sparse=True)
            d = b.file()
            try:
                p = public(lambda: lab.parse(d), "parsing")
                v = public(lambda: it.getattr(p, "version"), "version")
                got = tuple(public(lambda a=a: it.getattr(v, a), a) for a in attrs[:len(parts)])
                s = public(lambda: it.call(Ext("builtins.str"), [v]), "str(version)")
                extra = [public(lambda a=a: it.getattr(v, a), a) for a in attrs[len(parts):]]
            except Lost as x:
                return NE, str(x)
            if got != parts or any(x is not None for x in extra[-1:]):
                return NE, f"version text {txt!r} reads as {got}"
            if len(parts) > 2 and s != txt:
                return NE, f"version text {txt!r} prints as {show(s)}"
            return EQ, ""

        return ("version read", str(parts), fn)

    for parts in ((20, 8, 4), (20, 8, 4, 2576), (12, 0, 0), (21, 0, 3, 0), (11, 5, 0, 1), (24, 1, 2, 4321), (1, 0, 1), (3, 4, 0), (9, 0, 0), (100, 20, 30, 40000), (11, 1, 1), (10, 0, 9, 7)):
        cases.append(version_read(parts))

    def version_set(old, new, form, with_build):
        def fn(ctx):
            b = Layout(lab, ctx, ".".join(map(str, old)))
            if with_build:
                b.add("P.FLBuild", 159)
            b.chan("C0", "sampler", 0, sparse=True)
            v = {"text": lambda: ".".join(map(str, new)), "tuple": lambda: tuple(new), "FLVersion": lambda: mkv(new)}[form]()
            try:
                p = public(lambda: lab.parse(b.file()), "parsing")
                public(lambda: it.setattr(p, "version", v), f"version = {show(v)}")
                g = public(lambda: it.getattr(p, "version"), "version")
                got = tuple(public(lambda a=a: it.getattr(g, a), a) for a in attrs)
                f = public(lambda: lab.save(p), "saving")
            except Lost as x:
                return NE, str(x)
            if got != tuple(new) + (None,) * (4 - len(new)):
                return NE, f"version {new} reads back as {got}"
            b.ev = [(k, i, ".".join(map(str, new)).encode() + b"\0" if k == "P.FLVersion" else u32(new[3]) if k == "P.FLBuild" and len(new) == 4 else q) for k, i, q in b.ev]
            return same(f, b.file(), ctx), f"version {old} set to {new}: version text and build number are not stored together, or something else changed"

        return ("version set", f"{old} to {new} as {form}{'' if with_build else ', no build event'}", fn)

    vs = [(20, 8, 4), (20, 8, 4, 2576), (12, 9, 1, 0), (21, 0, 0, 70000), (11, 5, 3)]
    for n, (a, b_) in enumerate(product(vs, vs)):
        for form in ("text", "tuple", "FLVersion"):
            cases.append(version_set(a, b_, form, True))
        cases.append(version_set(a, b_, ("text", "tuple", "FLVersion")[n % 3], False))

    # ----------------------------------------------------------------- ordering
    key = lambda t: tuple(t) + ((-1,) if len(t) == 3 else ())

    def truth(op, a, b_):
        return public(lambda: it.truth(it.compare(op, a, b_)), f"{OPS[op]}")

    def against(a, others):
        def fn(ctx):
            for o in others:
                x, y = key(a), key(o)
                for op, want in (("lt", x < y), ("le", x <= y), ("gt", x > y), ("ge", x >= y), ("eq", x == y), ("ne", x != y)):
                    try:
                        g = truth(op, mkv(a), mkv(o))
                    except Lost as e:
                        return NE, f"version {a} {OPS[op]} {o}: {e}"
                    if g is not want:
                        return NE, f"version {a} {OPS[op]} {o} is {g}"
            return EQ, ""

        return ("ordering", str(a), fn)

    grid = [t + e for t in product((9, 10, 12), (0, 2), (0, 11)) for e in ((), (0,), (5,), (100,))] + [(20, 8, 4), (20, 8, 4, 2576), (12, 9, 1), (12, 9, 0, 9999), (1, 4, 2), (11, 0, 0), (3, 4, 0)]
    for a in grid:
        cases.append(against(a, grid))

    def short(a):
        """Parts left out are zero."""
        def fn(ctx):
            V = lab.cls("pyflp.types.FLVersion")
            full = (*a, 0, 0)[:3]
            try:
                v = public(lambda: it.call(V, list(a)), f"FLVersion{a}")
                got = [public(lambda: it.getattr(v, x), x) for x in ("major", "minor", "patch", "build")]
                t = public(lambda: it.call(Ext("builtins.str"), [v]), "str")
                w = public(lambda: it.call(V, list(full)), "FLVersion")
                e, l = truth("eq", v, w), truth("lt", v, w)
            except Lost as x:
                return NE, str(x)
            if got != [*full, None] or t != ".".join(map(str, full)) or e is not True or l is not False:
                return NE, f"FLVersion{a} is {got}, {t!r}, {'equal' if e else 'not equal'} to {full}"
            return EQ, ""

        return ("parts left out", str(a), fn)

    cases += [short(a) for a in ((9,), (12,), (20, 8), (11, 5), (24, 1, 1))]

    def unknown(op, na, nb):
        """Every component unknown; ``n``: 3 or 4 components."""
        def fn(ctx):
            x = [sym(f"a{i}", "int") for i in range(na)]
            y = [sym(f"b{i}", "int") for i in range(nb)]
            for t in x + y:
                ctx.doms[t] = IntDom.rng(0, 100000)
            try:
                g = truth(op, mkv(x), mkv(y))
            except Lost as e:
                return NE, f"comparing versions of {na} and {nb} parts with {OPS[op]}: {e}"
            c = 0
            for p, q in zip(x + [-1] * (4 - na), y + [-1] * (4 - nb)):
                if it.truth(it.compare("lt", p, q)):
                    c = -1
                elif it.truth(it.compare("gt", p, q)):
                    c = 1
                if c:
                    break
            want = {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0, "ne": c != 0}[op]
            return EQ if g is want else NE, f"comparing versions of {na} and {nb} parts with {OPS[op]} gives {g}"

        return ("ordering", f"unknown versions, {na} {OPS[op]} {nb}", fn)

    for op in OPS:
        for na, nb in product((3, 4), (3, 4)):
            cases.append(unknown(op, na, nb))

    def foreign(op, other):
        def fn(ctx):
            try:
                it.truth(it.compare(op, mkv((20, 8, 4)), other))
            except PyRaise as e:
                return (EQ, "") if exc_name(e) == "TypeError" else (NE, f"comparing a version with {other!r} raises {exc_name(e)}")
            return NE, f"a version {OPS[op]} {other!r} is allowed"

        return ("ordering", f"{OPS[op]} {other!r}", fn)

    for op in ("lt", "le", "gt", "ge"):
        for other in (5, "20.8.4", None):
            cases.append(foreign(op, other))
    spread(rep, cases, lab)


def _days(d):
    from datetime import datetime, timedelta

    return datetime(1899, 12, 30) + timedelta(days=d)
