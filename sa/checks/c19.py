"""Names of the supported plugins are read off the class table and must be
distinct and the format's.  In abstract projects holding every supported and
several unsupported plugins, on channels and on mixer slots, next to each
other and in every version's text encoding, the plugin of each entity must be
an object of the class of that name, made of that entity's own wrapper and
data events; an unsupported name gives the generic class.  Assigning a plugin
(every supported one, onto every kind of present plugin, within and across
projects) must change exactly the name, wrapper and data events of the target
and read back, also after saving and parsing again; onto a target or from a
source that lacks one of them it must raise and change nothing."""
from ..layouts import *
from ..trip import case, spread

FLOOR = 250
CLASSES = {
    "BooBass": "BooBass", "Fruit Kick": "FruitKick", "Plucked!": "Plucked", "Fruity Wrapper": "VSTPlugin",
    "Fruity Balance": "FruityBalance", "Fruity Blood Overdrive": "FruityBloodOverdrive", "Fruity Center": "FruityCenter", "Fruity Fast Dist": "FruityFastDist",
    "Fruity NoteBook 2": "FruityNotebook2", "Fruity Send": "FruitySend", "Fruity Soft Clipper": "FruitySoftClipper", "Fruity Stereo Enhancer": "FruityStereoEnhancer", "Soundgoodizer": "Soundgoodizer",
}
GENS = ["BooBass", "Fruit Kick", "Plucked!", "Fruity Wrapper"]
EFFECTS = ["Fruity Balance", "Fruity Blood Overdrive", "Fruity Center", "Fruity Fast Dist", "Fruity NoteBook 2", "Fruity Send", "Fruity Soft Clipper", "Fruity Stereo Enhancer", "Soundgoodizer", "Fruity Wrapper"]
NONE = ["Sytrus", "Fruity Limiter", "boobass", "BooBass ", "BooBas", "Fruity", "Fruity  Balance", "Plucked", "x", "Wrapper", "fruity wrapper"]


def data_for(name, key, ctx):
    return plugin_data(name, key, ctx) if name in CLASSES else source(key, 23)


def chan(b, key, iid, name, wrapper=True, data=True):
    b.add(f"{key}.New", 64, u16(iid))
    b.add(f"{key}.Type", 21, bytes([4 if name == "Fruity Wrapper" else 2]))
    plug(b, key, name, wrapper, data)
    b.add(f"{key}.GroupNum", 145, i32(0))


def plug(b, key, name, wrapper=True, data=True):
    if name is not None:
        b.add(f"{key}.InternalName", 201, b.text.const(name))
    if wrapper:
        b.add(f"{key}.Wrapper", 212, n=FULL["Wrapper"])
    b.add(f"{key}.Name", 203)
    if data:
        b.add(f"{key}.Data", 213, data_for(name, f"{key}.Data", b.ctx))


def studio(b, gens, effects, slots_per=4, **kw):
    """Channels with ``gens``, inserts whose slots hold ``effects`` (None: empty)."""
    b.start(("G0",))
    where = {}
    for n, name in enumerate(gens):
        chan(b, f"C{n}", n, name, **kw.get(f"C{n}", {}))
        where[f"C{n}"] = (f"channels*[{n}]", name)
    b.notes("T1", 1, 0, 0)
    b.arr("A0", 0, tracks=1)
    b.add("M.APDC", 29)
    for i in range(0, max(1, len(effects)), slots_per):
        k = f"I{i // slots_per}"
        b.add(f"{k}.Flags", 236, n=12)
        for s, name in enumerate(effects[i:i + slots_per]):
            if name is not None:
                plug(b, f"{k}.s{s}", name, **kw.get(f"{k}.s{s}", {}))
                where[f"{k}.s{s}"] = (f"mixer*[{i // slots_per}]*[{s}]", name)
            b.add(f"{k}.s{s}.Index", 98, u16(s))
        b.add(f"{k}.Output", 147)
    assume_legal(b, b.ctx)
    return where


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    cases = []
    names(rep, lab)

    def class_of(v):
        return v.cls.name if isinstance(v, Instance) else show(v)[:60]

    def entity(p, path, key, name, evs):
        """The plugin of one entity: class and events."""
        o = public(lambda: lab.walk(p, path), "reaching " + path)
        v = public(lambda: it.getattr(o, "plugin"), f"getting {path}.plugin")
        if name in CLASSES:
            if not (isinstance(v, Instance) and v.cls is lab.cls("pyflp.plugin." + CLASSES[name])):
                return f"{path}.plugin is {class_of(v)} although the plugin there is {name}", None
        else:
            bad = [c for c in CLASSES.values() if isinstance(v, Instance) and it.is_subclass(v.cls, lab.cls("pyflp.plugin." + c))]
            if not isinstance(v, Instance) or bad:
                return f"{path}.plugin is {class_of(v)} although {name} is not supported", None
        got = lab.items(it.getattr(v, "events"))
        want = [evs[key + ".Wrapper"], evs[key + ".Data"]]
        if len(got) != 2 or not any(got[0] is e for e in want) or not any(got[1] is e for e in want) or got[0] is got[1]:
            return f"{path}.plugin does not consist of the wrapper and data events of {key}", None
        return "", v

    def index(p, b):
        return {k: e for (k, _, _), e in zip(b.ev, lab.items(it.getattr(p, "events")))}

    def exposed(gens, effects, ver, uni, noise=False, **kw):
        def fn(ctx):
            b = Layout(lab, ctx, ver, uni)
            where = studio(b, gens, effects)
            if noise:
                b.noise()
            try:
                p = public(lambda: lab.parse(b.file()), "parsing")
                evs = index(p, b)
                for key, (path, name) in where.items():
                    t, v = entity(p, path, key, name, evs)
                    if t:
                        return NE, t
                    w = public(lambda: it.getattr(v, "width"), f"{path}.plugin.width")
                    r = same(w, rd(key + ".Wrapper", 44, 4), ctx)
                    if r != EQ:
                        return r, f"{path}.plugin.width reads {show(w)}"
                    n = public(lambda: lab.walk(p, path + ".internal_name"), path + ".internal_name")
                    if n != name:
                        return NE, f"{path}.internal_name reads {show(n)} instead of {name!r}"
            except Lost as e:
                return NE, str(e)
            return EQ, ""

        return fn

    VER = [("20.8.4", True), ("12.0.0", True), ("11.1.1", False), ("9.0.0", False)]
    for ver, uni in VER:
        for n in GENS + NONE:
            cases.append(("exposed", f"channel with {n} ({ver})", exposed([n], [None], ver, uni)))
        for n in EFFECTS + NONE:
            cases.append(("exposed", f"slot with {n} ({ver})", exposed([], [n, None], ver, uni)))
    for a in GENS + NONE[:2]:
        for b_ in GENS + NONE[:2]:
            cases.append(("exposed", f"channels with {a}, {b_}", exposed([a, b_], [], "20.8.4", True)))
    for i, a in enumerate(EFFECTS + NONE[:2]):
        L = EFFECTS + NONE[:2]
        for s in range(1, len(L)):
            cases.append(("exposed", f"slots with {a}, {L[(i + s) % len(L)]}", exposed([GENS[s % 4]], [a, L[(i + s) % len(L)]], "20.8.4", True)))
    cases.append(("exposed", "all at once", exposed(GENS + NONE[:1], EFFECTS[:5] + [None] + EFFECTS[5:] + [None, "Fruity Limiter"], "20.8.4", True)))
    cases.append(("exposed", "all at once among unknown events", exposed(GENS, EFFECTS, "20.8.4", True, noise=True)))

    # ---------------------------------------------------------------- assigning
    def assign(gens, effects, dst, src, cross=False, ver="20.8.4", uni=True):
        def fn(ctx):
            b = Layout(lab, ctx, ver, uni)
            where = studio(b, gens, effects)
            q, donor = None, b
            data = b.file()
            if cross:
                donor = Layout(lab, ctx, ver, uni)
                studio(donor, gens, effects)
                donor = Other(donor)
                for t, dm in list(ctx.doms.items()):  # the same legal values there
                    if isinstance(t, Term) and t.op == "rd" and isinstance(t.args[0], str):
                        ctx.doms.setdefault(Term("rd", ("Q" + t.args[0], *t.args[1:]), t.ty), dm)
            try:
                p = public(lambda: lab.parse(data), "parsing")
                q = public(lambda: lab.parse(donor.file(), "donor.flp"), "parsing") if cross else p
                s = public(lambda: lab.walk(q, where[src][0] + ".plugin"), "getting the source plugin")
                o = public(lambda: lab.walk(p, where[dst][0]), "reaching the target")
                public(lambda: it.setattr(o, "plugin", s), f"{where[dst][0]}.plugin = {where[src][1]}")
                f = public(lambda: lab.save(p), "saving")
                e = Layout.__new__(Layout)
                e.__dict__.update(b.__dict__)
                pay = {k: x for k, _, x in donor.ev}
                e.ev = [(k, i, pay[src + k[len(dst):]] if k in (dst + ".InternalName", dst + ".Wrapper", dst + ".Data") else x) for k, i, x in b.ev]
                want = e.file()
                r = same(f, want, ctx)
                if r != EQ:
                    return r, f"{where[dst][0]}.plugin = {where[src][1]}: the saved file is not the expected one: " + (
                        f"{len(f)} bytes instead of {len(want)}" if len(f) != len(want) else str([(show(x), show(y)) for x, y in diff_bytes(f, want)])[:300])
                for what, pr in (("the same project", p), ("the file parsed again", public(lambda: lab.parse(f, "again.flp"), "parsing the saved file"))):
                    v = public(lambda: lab.walk(pr, where[dst][0] + ".plugin"), "reading back")
                    n = public(lambda: lab.walk(pr, where[dst][0] + ".internal_name"), "reading back")
                    if n != where[src][1]:
                        return NE, f"after assigning {where[src][1]}, internal_name reads {show(n)} in {what}"
                    if not (isinstance(v, Instance) and v.cls is lab.cls("pyflp.plugin." + CLASSES[where[src][1]])):
                        return NE, f"after assigning {where[src][1]}, plugin is {class_of(v)} in {what}"
            except Lost as x:
                return NE, str(x)
            return EQ, ""

        return fn

    L = EFFECTS + ["Fruity Limiter"]
    for i, src in enumerate(EFFECTS):
        for s in (1, 4, 7):
            dst = L[(i + s) % len(L)]
            cases.append(("assigned", f"{src} to a slot with {dst}", assign([], [dst, None, src, dst], "I0.s0", "I0.s2")))
        cases.append(("assigned", f"{src} to a slot with {L[i - 1]}, another project", assign([], [L[i - 1], src], "I0.s0", "I0.s1", cross=True)))
        cases.append(("assigned", f"{src} to a later slot (11.1.1)", assign([], [src, None, None, None, L[i - 1]], "I1.s0", "I0.s0", ver="11.1.1", uni=False)))
        cases.append(("assigned", f"{src} to its own slot", assign([], [None, src], "I0.s1", "I0.s1")))
    G = GENS + ["Sytrus"]
    for src in GENS:
        for dst in G:
            cases.append(("assigned", f"{src} to a channel with {dst}", assign([dst, src, dst], [], "C0", "C1")))
            cases.append(("assigned", f"{src} to a later channel with {dst}, another project", assign([src, dst], [], "C1", "C0", cross=True)))

    # -------------------------------------------------- wrapper or data missing
    def refused(dst, src, **kw):
        def fn(ctx):
            b = Layout(lab, ctx)
            where = studio(b, ["BooBass", "Fruit Kick"], ["Fruity Balance", "Fruity Center"], **kw)
            d = b.file()
            try:
                p = public(lambda: lab.parse(d), "parsing")
                s = public(lambda: lab.walk(p, where[src][0] + ".plugin"), "getting the source plugin")
                o = public(lambda: lab.walk(p, where[dst][0]), "reaching the target")
                try:
                    it.setattr(o, "plugin", s)
                    return NE, f"{where[dst][0]}.plugin = {where[src][1]} is accepted although it cannot be stored entirely"
                except PyRaise as e:
                    if exc_name(e) != "PropertyCannotBeSet":
                        return NE, f"{where[dst][0]}.plugin = {where[src][1]} raises {exc_name(e)}"
                f = public(lambda: lab.save(p), "saving")
            except Lost as x:
                return NE, str(x)
            return same(f, d, ctx), f"{where[dst][0]}.plugin = {where[src][1]} raises, but the project was changed"

        return fn

    for dst, src in (("I0.s0", "I0.s1"), ("I0.s1", "I0.s0"), ("C0", "C1"), ("C1", "C0")):
        cases.append(("refused", f"{dst} without data", refused(dst, src, **{dst: {"data": False}})))
        cases.append(("refused", f"{dst} without wrapper", refused(dst, src, **{dst: {"wrapper": False}})))
        cases.append(("refused", f"source {src} without wrapper", refused(dst, src, **{src: {"wrapper": False}})))

    def nameless(ctx):
        b = Layout(lab, ctx)
        studio(b, [], ["Fruity Balance", "Fruity Center"])
        b.ev = [e for e in b.ev if e[0] != "I0.s0.InternalName"]
        d = b.file()
        p = lab.parse(d)
        s = lab.walk(p, "mixer*[0]*[1].plugin")
        o = lab.walk(p, "mixer*[0]*[0]")
        try:
            it.setattr(o, "plugin", s)
            return NE, "a plugin is accepted by a slot that cannot store its name"
        except PyRaise as e:
            if exc_name(e) != "PropertyCannotBeSet":
                return NE, f"raises {exc_name(e)}"
        return same(lab.save(p), d, ctx), "refused, but the project was changed"

    cases.append(("refused", "slot without a name event", nameless))
    spread(rep, cases, lab)


class Other:
    """The same project with all unknown bytes of another origin."""

    def __init__(self, b):
        self.b = b
        self.ev = [(k, i, rename(p)) for k, i, p in b.ev]

    def file(self):
        e = Layout.__new__(Layout)
        e.__dict__.update(self.b.__dict__)
        e.ev = self.ev
        return e.file()


def rename(p):
    if not isinstance(p, ABytes):
        return p
    return ABytes([s if isinstance(s, bytes) else (s[0], "Q" + s[1], *s[2:]) if s[0] == "raw" else s for s in p.segs])


def names(rep, lab):
    it = lab.it
    m = lab.module("pyflp.plugin")
    found = {}
    for n, c in m.ns.items():
        if not isinstance(c, ClassVal) or n.startswith("_"):
            continue
        v = next((k.ns["INTERNAL_NAME"] for k in it.mro(c) if isinstance(k, ClassVal) and isinstance(k.ns.get("INTERNAL_NAME"), str)), None)
        if v is None:
            continue
        if v in found and found[v] is not c:
            rep.ob("internal names", n, NE, f"pyflp.plugin.{n} and {found[v].name} have the same internal name {v!r}")
        found[v] = c
    for name, cls in CLASSES.items():
        c = m.ns.get(cls)
        ok = isinstance(c, ClassVal) and found.get(name) is c
        rep.ob("internal names", cls, EQ if ok else NE, f"pyflp.plugin.{cls} does not have the internal name {name!r}")
    rep.extra["supported plugins"] = {k: c.name for k, c in found.items()}
