"""Abstract mixers with parameter records in many arrangements (complete, in
file, reverse and interleaved order, with records missing, for inserts that
do not exist, with unknown parameter numbers and unused address bits): every
insert, effect slot and EQ band must read the value of the record whose
address names it, None without such a record; setting must change that
record's value and nothing else, and be refused without one.  Routing yields
the level records of exactly the routed inserts."""
from ..layouts import *
from ..trip import case, spread

FLOOR = 600
OWN = {192: "volume", 193: "pan", 194: "stereo_separation", 208: "eq.low.gain", 209: "eq.mid.gain", 210: "eq.high.gain", 216: "eq.low.freq", 217: "eq.mid.freq", 218: "eq.high.freq",
       224: "eq.low.reso", 225: "eq.mid.reso", 226: "eq.high.reso"}
SLOT = {0: "enabled", 1: "mix"}
KEY = "M.Params"


def mixer_file(b, inserts, recs, routing=None, params=True, top=0):
    """``inserts``: number of slots of each; ``recs``: [(param, insert, slot)]."""
    b.start(("G0",))
    b.chan("C0", "sampler", 0, sparse=True)
    b.notes("T1", 1, 0, 0)
    b.arr("A0", 0, tracks=1)
    for n, slots in enumerate(inserts):
        k = f"I{n}"
        b.add(f"{k}.Flags", 236, n=12)
        for s in range(slots):
            b.add(f"{k}.s{s}.Index", 98, u16(s))
        if routing is not None and n in routing:
            b.add(f"{k}.Routing", 235, routing[n])
        b.add(f"{k}.Output", 147)
    if params:
        segs = []
        for i, (pid, ins, slot) in enumerate(recs):
            segs += record(KEY, i, 12, {4: bytes([pid]), 6: u16(top << 13 | ins << 6 | slot)})
        b.add(KEY, 225, norm_bytes(ABytes(segs)))
    assume_legal(b, b.ctx)


def expectation(inserts, recs):
    """path -> record number or None."""
    at = {}
    for i, (pid, ins, slot) in enumerate(recs):
        at[(pid, ins, slot if pid in SLOT else 0)] = i
    out = {}
    for n, slots in enumerate(inserts):
        for pid, a in OWN.items():
            out[f"mixer*[{n}].{a}"] = at.get((pid, n, 0))
        for s in range(slots):
            for pid, a in SLOT.items():
                out[f"mixer*[{n}]*[{s}].{a}"] = at.get((pid, n, s))
    return out


def complete(inserts):
    out = []
    for n, slots in enumerate(inserts):
        for s in range(slots):
            out += [(0, n, s), (1, n, s)]
        out += [(p, n, 0) for p in OWN]
    return out


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    cases = []

    def walk_all(p, exp):
        """Read every parameter with one object per insert."""
        ins = public(lambda: lab.items(it.getattr(p, "mixer")), "iterating the mixer")
        slots = {}
        out = {}
        for path in exp:
            m = re.match(r"mixer\*\[(\d+)\](?:\*\[(\d+)\])?\.(.*)", path)
            n, s, a = int(m.group(1)), m.group(2), m.group(3)
            if n >= len(ins):
                raise Lost(f"{len(ins)} inserts are yielded, insert {n} is missing")
            o = ins[n]
            if s is not None:
                if n not in slots:
                    slots[n] = public(lambda: lab.items(o), f"iterating insert {n}")
                if int(s) >= len(slots[n]):
                    raise Lost(f"{len(slots[n])} slots are yielded by insert {n}, slot {s} is missing")
                o = slots[n][int(s)]
            out[path] = public(lambda: lab.walk(o, a), "getting " + path)
        return out

    def reads(inserts, recs, exp=None, **kw):
        def fn(ctx):
            b = Layout(lab, ctx)
            mixer_file(b, inserts, recs, **kw)
            d = b.file()
            e = exp or expectation(inserts, recs if kw.get("params", True) else [])
            try:
                p = public(lambda: lab.parse(d), "parsing")
                got = walk_all(p, e)
                for path, i in e.items():
                    want = None if i is None else rd(f"{KEY}#{i}", 8, 4, "s")
                    v = got[path]
                    r = same(v, want, ctx) if want is not None and v is not None else EQ if v is want else NE
                    if r != EQ:
                        who = "no record" if i is None else f"record {i} {recs[i]}"
                        return r, f"{path} reads {show(v)[:80]}; {who} holds it"
                f = public(lambda: lab.save(p), "saving")
            except Lost as x:
                return NE, str(x)
            return same(f, d, ctx), "the saved file differs after reading"

        return fn

    def chunk(inserts, recs, n, **kw):
        """The same obligations in parts, to use all cores."""
        e = expectation(inserts, recs)
        keys = list(e)
        return [reads(inserts, recs, {k: e[k] for k in keys[i::n]}, **kw) for i in range(n)]

    def writes(inserts, recs, path, **kw):
        def fn(ctx):
            b = Layout(lab, ctx)
            mixer_file(b, inserts, recs, **kw)
            d = b.file()
            i = expectation(inserts, recs if kw.get("params", True) else [])[path]
            v = sym("new", "int")
            ctx.doms[v] = IntDom.rng(-2**31, 2**31 - 1)
            try:
                p = public(lambda: lab.parse(d), "parsing")
                own, _, a = path.rpartition(".")
                o = public(lambda: lab.walk(p, own), "reaching " + own)
                if i is None:
                    try:
                        it.setattr(o, a, v)
                        return NE, f"{path} has no record, but can be set"
                    except PyRaise as e:
                        if exc_name(e) != "PropertyCannotBeSet":
                            return NE, f"{path} has no record; setting it raises {exc_name(e)}"
                    want = d
                else:
                    public(lambda: it.setattr(o, a, v), f"setting {path}")
                    for what, g in (("the same object", lambda: it.getattr(o, a)), ("the project", lambda: lab.walk(p, path))):
                        w = public(g, "reading back " + path)
                        if same(w, v, ctx) != EQ:
                            return NE, f"{path} set to an unknown value reads {show(w)[:80]} through {what}"
                    want, hit = subst(d, f"{KEY}#{i}", 8, 4, ABytes((("enc", 4, "s", v),)))
                    if not hit:
                        raise Unsupported("record not found")
                f = public(lambda: lab.save(p), "saving")
            except Lost as x:
                return NE, str(x)
            r = same(f, want, ctx)
            return r, f"{path} set: the saved file is not the expected one: " + (
                f"{len(f)} bytes instead of {len(want)}" if len(f) != len(want) else str([(show(x), show(y)) for x, y in diff_bytes(f, want)])[:300])

        return fn

    small = [2, 3, 0, 10, 1]
    full = complete(small)
    inter = full[::2] + full[1::2][::-1]
    strange = []
    for n, r in enumerate(full):
        strange += [r, ((5, 7, 63, 100, 200, 255)[n % 6], r[1], r[2])]
    strange += [(192, 90, 0), (0, 126, 3), (193, 5, 0), (1, 0, 9), (0, 2, 0), (0, 1, 3)]
    for name, recs in (("file order", full), ("reverse order", full[::-1]), ("interleaved", inter), ("among strange records", strange)):
        for k, fn in enumerate(chunk(small, recs, 3)):
            cases.append(("read", f"{name} {k}", fn))
    for top in range(1, 8):
        cases.append(("read", f"unused address bits {top}", reads(small[:3], complete(small[:3]), top=top)))
    cases.append(("read", "no parameter event", reads(small, full, params=False)))
    cases.append(("read", "no records", reads(small, [])))
    cases.append(("read", "only one insert has records", reads(small, [r for r in full if r[1] == 3])))
    cases.append(("read", "only slot records", reads(small, [r for r in full if r[0] in SLOT])))
    cases.append(("read", "only own records", reads(small, [r for r in full if r[0] not in SLOT])))
    two = complete([2, 2])
    for r in two:
        cases.append(("one record missing", str(r), reads([2, 2], [x for x in two if x != r])))
        cases.append(("one record only", str(r), reads([2, 2], [r])))
    for s in range(64):
        cases.append(("slot number", str(s), reads([1, 10], [(1, 1, s), (0, 1, s)])))
    for n in range(0, 128):
        recs = [(192, n, 0), (1, n, 1), (209, n, 0)]
        e = {f"mixer*[{n}].volume": 0, f"mixer*[{n}]*[1].mix": 1, f"mixer*[{n}].eq.mid.gain": 2, f"mixer*[{n}]*[0].mix": None}
        o = n - 1 if n else 1
        e[f"mixer*[{o}].volume"] = None
        cases.append(("insert number", str(n), reads([2] * 127, recs, {k: v for k, v in e.items() if int(re.search(r"\d+", k).group()) < 127})))
    recs = []
    for n in range(127):
        recs += [(192, n, 0), (193, n, 0)] + ([(1, n, 0), (0, n, 0)] if n % 5 == 0 else [])
    for k, fn in enumerate(chunk([1 if n % 5 == 0 else 0 for n in range(127)], recs, 4)):
        cases.append(("read", f"127 inserts {k}", fn))

    exp = expectation(small, full)
    for k, path in enumerate(exp):
        cases.append(("write", path, writes(small, (full, full[::-1], inter, strange)[k % 4], path)))
    e2 = expectation([2, 2], two)
    for path in e2:
        less = [x for i, x in enumerate(two) if i != e2[path]]
        cases.append(("write without record", path, writes([2, 2], less, path)))
    for path in ("mixer*[0].volume", "mixer*[1].pan", "mixer*[1]*[0].mix", "mixer*[1]*[1].enabled", "mixer*[0].eq.low.gain"):
        cases.append(("write without record", path + ", no parameter event", writes([2, 2], two, path, params=False)))

    # ------------------------------------------------------------------ routing
    def routed(n, flags, recs, insert=1):
        """``flags``: bytes of the routing event, or None for unknown ones."""
        def fn(ctx):
            b = Layout(lab, ctx)
            r = source("I1.Routing", n) if flags is None else bytes(flags)
            mixer_file(b, [0] * 5, recs, routing={insert: r})
            d = b.file()
            try:
                p = public(lambda: lab.parse(d), "parsing")
                got = public(lambda: lab.items(lab.walk(p, f"mixer*[{insert}].routes")), "routes")
            except Lost as x:
                return NE, str(x)
            at = {r[0] - 64: i for i, r in enumerate(recs) if r[1] == insert}
            want = []
            for k in range(n):
                f = flags[k] if flags is not None else rd("I1.Routing", k, 1)
                on = bool(f) if isinstance(f, int) else it.truth(it.compare("ne", f, 0))
                if on and k in at:
                    want.append(rd(f"{KEY}#{at[k]}", 8, 4, "s"))
            if len(got) != len(want):
                return NE, f"routes yields {len(got)} values, {len(want)} routed inserts have a level record"
            rs = [same(x, y, ctx) for x, y in zip(got, want)]
            return (NE if NE in rs else UNK if UNK in rs else EQ), f"routes yields {show(got)[:100]}, the level records hold {show(want)[:100]}"

        return fn

    lv = [(64 + k, 1, 0) for k in range(5)]
    noise = [(64, 0, 0), (65, 2, 0), (192, 1, 0), (66, 2, 0)]
    for n in (1, 2, 3, 4):
        cases.append(("routes", f"{n} unknown flags", routed(n, None, lv + noise)))
        cases.append(("routes", f"{n} unknown flags, levels missing", routed(n, None, [x for k, x in enumerate(lv) if k % 2] + noise)))
    for fl in ([0] * 5, [1] * 5, [1, 0, 1, 0, 1], [0, 0, 0, 0, 1], [2, 255, 0, 1, 0]):
        cases.append(("routes", f"flags {fl}", routed(5, fl, noise + lv[::-1])))
    big = [(64 + k, 1, 0) for k in range(0, 127, 3)]
    cases.append(("routes", "127 flags", routed(127, [k % 2 for k in range(127)], big)))

    def noroutes(ctx):
        b = Layout(lab, ctx)
        mixer_file(b, [0, 0], [(64, 1, 0), (65, 1, 0)])
        got = lab.items(lab.walk(lab.parse(b.file()), "mixer*[1].routes"))
        return (NE if got else EQ), "routes yields something without a routing event"

    cases.append(("routes", "no routing event", noroutes))
    spread(rep, cases, lab)
