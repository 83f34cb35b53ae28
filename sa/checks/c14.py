"""In the abstract projects of C13 and in projects with many, few, equal,
absent or unknown names: every collection yields the entities of the file in
order; indexing by every number, by name and by slice returns the elements
that iteration yields there (channels by internal ID, inserts from -1); len()
is their number; a key that matches nothing raises the documented exception;
the filtered views (samplers, layers, groups ...) are the elements of that
kind.  Unknown names are compared with a fixed key: on every path the element
returned has that name and none before it has."""
from ..ext import isinstance_
from ..layouts import *
from ..layouts import sparse
from ..special import shown_cases
from ..trip import case, spread

FLOOR = 1500
SLICES = [(None, None, None), (0, 2, None), (1, 3, None), (1, None, None), (-2, None, None), (None, -1, None), (None, None, -1), (None, None, 2),
          (5, 1, None), (0, 100, None), (-100, 1, None), (2, 0, -1), (100, None, None), (-1, None, -2)]


def twin(a, b, depth=4):
    """Two objects made from the same parts (an item of a list, obtained twice)."""
    if a is b:
        return True
    if not depth or not isinstance(a, Instance) or not isinstance(b, Instance) or a.cls is not b.cls or set(a.attrs) != set(b.attrs):
        return False
    return all(_part(a.attrs[k], b.attrs[k], depth) for k in a.attrs)


def _part(x, y, depth):
    if x is y:
        return True
    if isinstance(x, VDict) and isinstance(y, VDict):
        return len(x.pairs) == len(y.pairs) and all(_part(p, q, depth) for p, q in zip(sum(x.pairs, []), sum(y.pairs, [])))
    if isinstance(x, Instance):
        return twin(x, y, depth - 1)
    return isinstance(x, (int, str, Term)) and type(x) is type(y) and x == y


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    P = load()
    jobs = []

    def raises(fn, *names):
        try:
            v = fn()
        except PyRaise as e:
            n = exc_name(e)
            ok = any(isinstance_(it, e.exc, lab.cls("pyflp.exceptions." + x) if x != "ChannelNotFound" else lab.cls("pyflp.channel.ChannelNotFound")) for x in names)
            return (EQ, "") if ok else (NE, f"raises {n} instead of {names[0]}")
        return NE, f"gives {show(v)[:80]} instead of raising {names[0]}"

    def ident(o):
        """The events an entity consists of."""
        if not isinstance(o, Instance):
            return show(o)[:60], []
        return o.cls.name, [id(e) for e in lab.items(it.getattr(o, "events"))]

    def eq(a, b, kind="model"):
        if kind == "item":
            return twin(a, b)
        return ident(a) == ident(b)

    def eqs(xs, ys, kind="model"):
        return len(xs) == len(ys) and all(eq(a, b, kind) for a, b in zip(xs, ys))

    def examine(out, obj, path, n, number, lo=0, missing="ModelNotFound", kind="model", haslen=True, ints=True, empty="NoModelsFound"):
        """``number(k)``: the index that must give the k-th element."""
        els = public(lambda: lab.items(obj), "iterating " + path)
        out.append(("yields", EQ if len(els) == n else NE, f"yields {len(els)} elements instead of {n}", path))
        again = public(lambda: lab.items(obj), "iterating " + path)
        out.append(("yields", EQ if eqs(els, again, kind) else NE, "a second iteration yields other elements", path))
        if haslen:
            if n or empty is None:
                m = public(lambda: it.call(Ext("builtins.len"), [obj]), f"len({path})")
                out.append(("len", same(m, n, it.ctx), f"len() is {show(m)}, {n} elements are yielded", path))
            else:
                v, t = raises(lambda: it.call(Ext("builtins.len"), [obj]), empty)
                out.append(("len", v, "len() of an empty collection " + t, path))
        for sl in SLICES:
            got = public(lambda: it.getitem(obj, VSlice(*sl)), f"{path}[{sl}]")
            got = lab.items(got)
            out.append(("slice", EQ if eqs(got, els[slice(*sl)], kind) else NE, f"slice {sl} gives {len(got)} elements, not the ones a list slice gives", path))
        if ints:
            used = set()
            for k, e in enumerate(els):
                i = number(k)
                if i is None or i in used:
                    continue
                used.add(i)
                try:
                    got = public(lambda: it.getitem(obj, i), f"{path}[{i}]")
                    out.append(("index", EQ if eq(got, e, kind) else NE, f"index {i} does not give element {k} of the iteration", path))
                except Lost as x:
                    out.append(("index", NE, str(x), path))
            for i in (n + lo, n + lo + 1, lo - 1, lo - 2, 65535, 70000):
                if i not in used and (lo == 0 or i < -1 or i >= 0):
                    v, t = raises(lambda: it.getitem(obj, i), missing)
                    out.append(("no such index", v, f"index {i} {t}", path))
        return els

    def order(st, out, els, ents, path):
        """The k-th element is the entity that is the k-th in the file."""
        evs = lab.items(it.getattr(st["p"], "events"))
        keys = {id(e): k for (k, _, _), e in zip(st["b"].ev, evs)}
        for o, (kind, _, key) in zip(els, ents):
            ks = {keys.get(id(e), "?") for e in lab.items(it.getattr(o, "events"))}
            ok = any(k.startswith(key + ".") for k in ks)
            out.append(("order", EQ if ok else NE, f"the entity yielded where {key} is in the file has the events {sorted(ks)[:4]}", path))

    def names(out, obj, els, path, attr="name", missing="ModelNotFound", extra=()):
        """Lookups by the names the elements have; and by one nobody has."""
        ns = [public(lambda: it.getattr(e, attr), f"{path} {attr}") for e in els]
        for key in [*dict.fromkeys(x for x in ns if isinstance(x, str)), "no such name", *extra]:
            want = next((e for e, x in zip(els, ns) if isinstance(x, str) and x == key), None)
            if want is None:
                v, t = raises(lambda: it.getitem(obj, key), missing)
                out.append(("no such name", v, f"name {key!r} {t}", path))
            else:
                try:
                    got = public(lambda: it.getitem(obj, key), f"{path}[{key!r}]")
                    out.append(("name", EQ if eq(got, want) else NE, f"name {key!r} does not give the first element of that name", path))
                except Lost as x:
                    out.append(("name", NE, str(x), path))

    def guard(f):
        def job(st, ctx):
            out = []
            try:
                f(st, out)
            except Lost as e:
                out.append(("operation", NE, str(e), "collection"))
            return out, ctx.facts()

        return job

    def value_of(b, key):
        return next(p for k, _, p in b.ev if k == key)

    def rack(st, out):
        b, obj = st["b"], it.getattr(st["p"], "channels")
        ents = [e for e in b.ents if e[0] in TYPES]
        iids = [int.from_bytes(value_of(b, k + ".New"), "little") for _, _, k in ents]
        els = examine(out, obj, "channels", len(ents), lambda k: iids[k], missing="ChannelNotFound")
        order(st, out, els, ents, "channels")
        if st.get("names"):
            names(out, obj, els, "channels", "display_name", "ChannelNotFound")
        for view, kinds in (("samplers", ("sampler",)), ("instruments", ("instrument", "vst")), ("layers", ("layer",)), ("automations", ("automation",))):
            got = public(lambda: lab.items(it.getattr(obj, view)), "channels." + view)
            want = [o for o, (k, _, _) in zip(els, ents) if k in kinds]
            out.append(("filter", EQ if eqs(got, want) else NE, f"yields {len(got)} channels, {len(want)} of that kind are in the rack, or not the same", "channels." + view))
        for o, (kind, _, key) in zip(els, ents):
            if kind == "layer":
                kids = [int.from_bytes(p, "little") for k, _, p in b.ev if k.startswith(key + ".Children")]
                want = [els[iids.index(i)] for i in kids]
                ch = examine(out, o, f"channel {key}", len(want), lambda k: kids[k], missing="ChannelNotFound", empty=None)
                out.append(("children", EQ if eqs(ch, want) else NE, "the children of the layer are not the channels it names", f"channel {key}"))
            if kind == "automation":
                n = sum(isinstance(s, tuple) and s[0] == "raw" and s[1].startswith(f"{key}.Automation#") for s in to_abytes(value_of(b, key + ".Automation")).segs)
                examine(out, o, f"channel {key}", n, lambda k: k, kind="item", haslen=False)
            g = public(lambda: it.getattr(o, "group"), "channel group")
            gn = int.from_bytes(value_of(b, key + ".GroupNum"), "little")
            gs = public(lambda: lab.items(it.getattr(obj, "groups")), "channels.groups")
            out.append(("group", EQ if gn < len(gs) and eq(g, gs[gn]) else NE, "is not in the display group it names", f"channel {key}"))
        n = sum(k.endswith(".Name") and k[0] == "G" for k, _, _ in b.ev)
        out.append(("filter", EQ if len(gs) == n else NE, f"{len(gs)} groups instead of {n}", "channels.groups"))

    def pats(st, out):
        b, obj = st["b"], it.getattr(st["p"], "patterns")
        ents = [e for e in b.ents if e[0] == "pattern"]
        els = examine(out, obj, "patterns", len(ents), lambda k: k)
        order(st, out, els, ents, "patterns")
        if st.get("names"):
            names(out, obj, els, "patterns")
        cur = next((int.from_bytes(p, "little") for k, _, p in b.ev if k == "P.CurrentlySelected"), None)
        got = public(lambda: it.getattr(obj, "current"), "patterns.current")
        iids = [int.from_bytes(next(p for k, _, p in b.ev if k in (key + ".New", key + ".New2")), "little") for _, _, key in ents]
        want = els[iids.index(cur)] if cur in iids else None
        out.append(("current", EQ if (got is None if want is None else got is not None and eq(got, want)) else NE, f"is not the pattern number {cur} the file has selected", "patterns.current"))

    def arrs(st, out):
        b, obj = st["b"], it.getattr(st["p"], "arrangements")
        ents = [e for e in b.ents if e[0] == "arrangement"]
        els = examine(out, obj, "arrangements", len(ents), lambda k: k)
        order(st, out, els, ents, "arrangements")
        if st.get("names"):
            names(out, obj, els, "arrangements")
        cur = next((int.from_bytes(p, "little") for k, _, p in b.ev if k == "A.Current"), None)
        if cur is not None and cur >= len(els):
            v, t = raises(lambda: it.getattr(obj, "current"), "ModelNotFound")
            out.append(("current", v, t, "arrangements.current"))
        else:
            got = public(lambda: it.getattr(obj, "current"), "arrangements.current")
            out.append(("current", EQ if (got is None if cur is None else got is not None and eq(got, els[cur])) else NE, f"is not arrangement {cur}", "arrangements.current"))
        for o, (_, path, key) in zip(els, ents):
            tr = public(lambda: lab.items(it.getattr(o, "tracks")), path + ".tracks")
            te = [e for e in b.ents if e[0] == "track" and e[2].startswith(key + ".")]
            out.append(("yields", EQ if len(tr) == len(te) else NE, f"{len(tr)} tracks instead of {len(te)}", path))
            order(st, out, tr, te, path + ".tracks")
            for t, e in zip(tr, te):
                items = public(lambda: lab.items(t), "iterating " + e[1])
                m = public(lambda: it.call(Ext("builtins.len"), [t]), f"len({e[1]})")
                out.append(("len", same(m, len(items), it.ctx), f"len() is {show(m)}, {len(items)} items are yielded", e[1]))
                for k, x in enumerate(items):
                    got = public(lambda: it.getitem(t, k), f"{e[1]}[{k}]")
                    out.append(("index", EQ if eq(got, x, "item") else NE, f"index {k} does not give item {k}", e[1]))
                for sl in SLICES:
                    got = lab.items(public(lambda: it.getitem(t, VSlice(*sl)), f"{e[1]}[{sl}]"))
                    out.append(("slice", EQ if eqs(got, items[slice(*sl)], "item") else NE, f"slice {sl} gives other items than a list slice", e[1]))

    def mix(st, out):
        b, obj = st["b"], it.getattr(st["p"], "mixer")
        ents = [e for e in b.ents if e[0] == "insert"]
        els = examine(out, obj, "mixer", len(ents), lambda k: k - 1, lo=-1)
        order(st, out, els, ents, "mixer")
        if st.get("names"):
            names(out, obj, els, "mixer")
        for k, (o, (_, path, key)) in enumerate(zip(els, ents)):
            i = public(lambda: it.getattr(o, "iid"), path + ".iid")
            out.append(("index", same(i, k - 1, it.ctx), f"iid is {show(i)}", path))
            se = [e for e in b.ents if e[0] == "slot" and e[2].startswith(key + ".")]
            sl = examine(out, o, path, len(se), lambda k: k, empty=None)
            order(st, out, sl, se, path)
            if st.get("names"):
                names(out, o, sl, path)

    parts = (("channels", rack), ("patterns", pats), ("arrangements", arrs), ("mixer", mix))
    for name in LAYOUTS:
        for ver, uni in VERS.get(name, [("20.8.4", True)]):
            base = Base(lab, layout_setup(lab, name, P, ver, uni))
            for part, f in parts:
                jobs.append((f"{name} ({ver}): {part}", base, guard(f)))
    for name, fn in NAMED.items():
        for ver, uni in (("20.8.4", True), ("11.1.1", False)):
            def setup(ctx, fn=fn, ver=ver, uni=uni):
                b = Layout(lab, ctx, ver, uni)
                fn(b)
                data = b.file()
                return {"b": b, "p": lab.parse(data), "names": True}

            base = Base(lab, setup)
            for part, f in parts:
                if (name, part) in SKIP:
                    continue
                jobs.append((f"{name} ({ver}): {part}", base, guard(f)))

    # ------------------------------------------------ unknown names, fixed key
    def lookup(coll, key, attr="name", missing="ModelNotFound"):
        def find(st, ctx):
            obj = public(lambda: lab.walk(st["p"], coll), coll)
            els = lab.items(obj)
            ns = [it.getattr(e, attr) for e in els]
            try:
                got = it.getitem(obj, key)
            except PyRaise as e:
                bad = [n for n in ns if n is not None and same(n, key, ctx) == EQ]
                if bad:
                    return NE, f"raises {exc_name(e)} although one element has that name"
                return raises(lambda: it.getitem(obj, key), missing)
            k = next((k for k, e in enumerate(els) if eq(got, e)), None)
            if k is None:
                return NE, "is none of the elements"
            r = same(ns[k], key, ctx) if ns[k] is not None else NE
            if r != EQ:
                return r, f"is an element whose name is {show(ns[k])[:100]}"
            for j in range(k):
                if ns[j] is not None and same(ns[j], key, ctx) != NE:
                    return NE, f"is element {k}, but element {j} may have that name as well"
            return EQ, ""

        def job(st, ctx):
            try:
                v, t = find(st, ctx)
            except Lost as e:
                v, t = NE, str(e)
            return [("unknown names", v, t, f"{coll}[{key!r}]")], ctx.facts()

        return job

    for ver, uni in (("20.8.4", True), ("11.1.1", False)):
        def usetup(ctx, ver=ver, uni=uni):
            b = Layout(lab, ctx, ver, uni)
            unknown(b)
            assume_legal(b, ctx)
            assume_places(P, b, ctx)
            return {"b": b, "p": lab.parse(b.file())}

        base = Base(lab, usetup)
        for key in ("Abc", "", "abcdef"):
            for coll, attr, miss in (("channels", "display_name", "ChannelNotFound"), ("patterns", "name", "ModelNotFound"), ("arrangements", "name", "ModelNotFound"),
                                     ("mixer", "name", "ModelNotFound"), ("mixer*[1]", "name", "ModelNotFound")):
                jobs.append((f"unknown names ({ver}): {coll}[{key!r}]", base, lookup(coll, key, attr, miss)))
    cases = []

    # ------------------------------------------------------ nothing in the file
    def nothing(coll):
        def fn(ctx):
            b = Layout(lab, ctx)
            b.project()
            p = lab.parse(b.file())
            obj = it.getattr(p, coll)
            v, t = raises(lambda: it.call(Ext("builtins.len"), [obj]), "NoModelsFound")
            if v != EQ:
                return v, f"len({coll}) of a project without any {t}"
            for k in (0, "x"):
                if coll == "arrangements":
                    v, t = raises(lambda: it.getitem(obj, k), "ModelNotFound", "NoModelsFound")
                else:
                    v, t = raises(lambda: it.getitem(obj, k), "ChannelNotFound" if coll == "channels" else "ModelNotFound")
                if v != EQ:
                    return v, f"{coll}[{k!r}] of a project without any {t}"
            return EQ, ""

        return fn

    for coll in ("channels", "patterns", "arrangements", "mixer"):
        cases.append(("empty", coll, nothing(coll)))
    for coll in ("patterns", "arrangements"):
        def none_current(ctx, coll=coll):
            b = Layout(lab, ctx)
            b.start()
            b.chan("C0", "sampler", 0, sparse=True)
            b.notes("T1", 1, 0, 0)
            b.arr("A0", 0, tracks=1)
            b.ins("I0", sparse=True, named=False)
            b.ev = [e for e in b.ev if e[1] not in (67, 100)]
            v = public(lambda: lab.walk(lab.parse(b.file()), coll + ".current"), coll + ".current")
            return (EQ, "") if v is None else (NE, f"{coll}.current is {show(v)} although the file selects none")

        cases.append(("current", coll, none_current))
    # ------------------------------------- as many inserts as a version can have
    def inserts(ver, n):
        def fn(ctx):
            b = Layout(lab, ctx, ver, tuple(map(int, ver.split(".")))[:2] >= (11, 5))
            b.start(("G0",))
            b.chan("C0", "sampler", 0, sparse=True)
            b.notes("T1", 1, 0, 0)
            b.arr("A0", 0, tracks=1)
            for k in range(n):
                b.ins(f"I{k}", sparse=True, named=False)
            obj = it.getattr(lab.parse(b.file()), "mixer")
            try:
                els = public(lambda: lab.items(obj), "iterating the mixer")
                m = public(lambda: it.call(Ext("builtins.len"), [obj]), "len(mixer)")
                last = public(lambda: it.getitem(obj, n - 2), f"mixer[{n - 2}]")
            except Lost as x:
                return NE, str(x)
            if len(els) != n or same(m, n, ctx) != EQ:
                return NE, f"{len(els)} inserts are yielded and len() is {show(m)}, the file has {n}"
            return (EQ if eq(last, els[-1]) else NE), f"mixer[{n - 2}] is not the last insert"

        return fn

    for ver, n in (("1.6.5", 5), ("2.0.1", 8), ("3.0.0", 18), ("3.3.0", 20), ("3.5.6", 20), ("4.0.0", 64), ("8.0.2", 64), ("9.0.0", 105), ("11.1.1", 105), ("12.4.0", 105), ("12.9.0", 127), ("20.8.4", 127), ("21.2.3", 127), ("24.1.1", 127), ("100.0.0", 127)):
        cases.append(("all inserts", f"{n} inserts ({ver})", inserts(ver, n)))
    cases += shown_cases(lab)
    spread(rep, cases, lab)
    collect(rep, jobs)


# --------------------------------------------------------------- named layouts
def _name(b, key, eid, s):
    if s is not None:
        b.add(key, eid, b.text.const(s))


def base_parts(b, chans=(), pats=(), arrs=(), inserts=()):
    """Entities with the given constant names (None: no name event)."""
    b.start(("G0", "G1", "G2"))
    for n, (kind, iid, name, plug) in enumerate(chans):
        b.chan(f"C{n}", kind, iid, sparse=True, group=n % 3)
        at = next(i for i, e in enumerate(b.ev) if e[0] == f"C{n}.GroupNum")
        tail, b.ev = b.ev[at:], b.ev[:at]
        if plug is not None:
            b.add(f"C{n}.InternalName", 201, b.text.const(plug))
        _name(b, f"C{n}.Name", 203, name)
        b.ev += tail
    for n, (iid, name) in enumerate(pats):
        b._pat(f"T{n}")
        b.add(f"T{n}.New", 65, u16(iid))
        _name(b, f"T{n}.Name", 193, name)
    b.arrangements()
    for n, name in enumerate(arrs):
        b.narr += 1
        b.ent("arrangement", f"arrangements*[{n}]", f"A{n}")
        b.add(f"A{n}.New", 99, u16(n))
        _name(b, f"A{n}.Name", 241, name)
        b.ent("track", f"arrangements*[{n}].tracks*[0]", f"A{n}.t0")
        b.add(f"A{n}.t0.Data", 238, norm_bytes(ABytes(consts_in(f"A{n}.t0.Data", FULL["Track"], {13: b"\0\0\x80?"}))))
    b.add("A.Current", 100, u16(1))
    for n, (name, slots) in enumerate(inserts):
        b.nins += 1
        b.ent("insert", f"mixer*[{n}]", f"I{n}")
        _name(b, f"I{n}.Name", 204, name)
        b.add(f"I{n}.Flags", 236, n=12)
        for s, sn in enumerate(slots):
            b.ent("slot", f"mixer*[{n}]*[{s}]", f"I{n}.s{s}")
            if sn is not None:
                b.add(f"I{n}.s{s}.InternalName", 201, b.text.const("Fruity Limiter"))
                b.add(f"I{n}.s{s}.Name", 203, b.text.const(sn))
            b.add(f"I{n}.s{s}.Index", 98, u16(s))
        b.add(f"I{n}.Output", 147)


def named(b):
    base_parts(b, [("sampler", 0, "Kick", ""), ("instrument", 1, "Lead", "Sytrus"), ("sampler", 2, None, None), ("instrument", 3, None, "3x Osc"), ("sampler", 4, "Kick", ""),
                   ("layer", 5, "4", None), ("automation", 6, "", "Sytrus") if False else ("sampler", 6, "", "Plucked!"), ("sampler", 7, "lead", None)],
               [(1, "A"), (2, None), (3, "B"), (4, "A"), (5, ""), (6, "0")], ["Arr", None, "Arr", "X", "1"],
               [("Master", [None, "EQ", "Comp", "EQ"]), (None, []), ("Bus", [None]), ("Bus", ["1", None, "0"]), ("0", []), ("Master ", [])])


def scrambled(b):
    base_parts(b, [("sampler", 9, "Q", None), ("sampler", 2, "R", None), ("sampler", 0, "Q", None), ("sampler", 1, "2", None)],
               [(7, "P7"), (3, "P3"), (5, "P7")], ["B", "A"], [("x", []), ("y", ["y", "x"]), ("x", [])])
    b.ev = [("P.CurrentlySelected", 67, u16(3)) if e[0] == "P.CurrentlySelected" else e for e in b.ev]
    b.ev = [("A.Current", 100, u16(5)) if e[0] == "A.Current" else e for e in b.ev]


def many(b):
    base_parts(b, [("sampler", n, f"ch{n % 7}", None) for n in range(24)], [(n + 1, f"p{n % 5}" if n % 3 else None) for n in range(20)], [f"arr{n % 4}" for n in range(12)],
               [(f"ins{n % 30}" if n % 4 else None, [f"fx{k % 4}" if k % 3 else None for k in range(10)] if n in (1, 40) else []) for n in range(127 if b.text.unit == 2 else 105)])


def unknown(b):
    """Every name unknown."""
    b.start(("G0", "G1"))
    for n, k in enumerate(("sampler", "instrument", "sampler")):
        b.chan(f"C{n}", k, n, drop=() if n else ("_Name",))
    for n in (1, 2, 3):
        b.info(f"T{n}", n, markers=0, sparse=n == 2)
    b.arrangements()
    for n in range(3):
        b.arr(f"A{n}", n, tracks=1, named=n != 1)
    b.ins("I0")
    b.ins("I1", ["Fruity Balance", None, "Fruity Limiter"])
    b.ins("I2", named=False)
    b.ins("I3")


NAMED = {"equal and absent names": named, "numbers out of order": scrambled, "many names": many}
SKIP = set()
