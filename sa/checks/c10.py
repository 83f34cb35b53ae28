"""For every property of the place table: the event that holds it (and its
alternatives) is left out of the abstract project, or its payload ends
before the field; the property must read as None or its documented
default, setting it must raise PropertyCannotBeSet, fields still present must
keep reading their own bytes, and the project must be saved unchanged.  With
the event present, the property reads what is stored, whatever it is (a zero is
not taken for missing)."""
from ..missing import *

FLOOR = 1500
DEFAULTS = {"root_note": 60, "zipped": False}
STRUCTURAL = re.compile(r"#|\.Data(\.|$)|^M\.Params|^G\d|\.(EnvelopeLFO|Tracking)\d$|\.t\d+\.|\.m\d+\.Position|\.Output$")


def default(pl):
    if pl.path == "patterns*[0].looped" or pl.path == "patterns*[1].looped":
        return False
    return DEFAULTS.get(pl.attr)


def alternatives(e):
    c = e.partition(".")[0]
    return {"Levels": [f"{c}._{n}{t}" for n in ("Pan", "Vol") for t in ("Word", "Byte")], "Name": [f"{c}._Name"] if c[0] == "C" else [],
            "Comments": ["P._RTFComments"], "PLSelection": ["A._LoopPos"]}.get(e.partition(".")[2], [])


# path, events left out, value read, value to set (None: read-only here)
SPECIAL = [
    ("tempo", ("P.Tempo",), None, 120),
    ("created_on", ("P.Timestamp",), None, None),
    ("time_spent", ("P.Timestamp",), None, None),
    ("licensee", ("P.Licensee",), None, "x"),
    ("channels*[0].fx.reverb.mix", ("C0.Reverb",), None, 3),
    ("channels*[0].fx.reverb.type", ("C0.Reverb",), None, "pyflp.channel.ReverbType"),
    ("channels*[0].fx.start", ("C0.Parameters",), None, 0.5),
    ("channels*[0].fx.length", ("C0.Parameters",), None, 0.5),
    ("channels*[0].stretching.multiplier", ("C0.Parameters",), None, 1.0),
    ("channels*[0].envelopes", tuple(f"C0.EnvelopeLFO{i}" for i in range(5)), None, None),
    ("channels*[0].lfos", tuple(f"C0.EnvelopeLFO{i}" for i in range(5)), None, None),
    ("channels*[0].tracking", ("C0.Tracking0", "C0.Tracking1"), None, None),
    ("channels*[1].tracking", ("C1.Tracking0", "C1.Tracking1"), None, None),
    ("channels*[1].plugin", ("C1.Data",), None, None),
    ("channels*[2].plugin", ("C2.Data",), None, None),
    ("channels*[0].internal_name", ("C0.InternalName",), None, "x"),
    ("mixer*[1].dock", ("I1.Flags",), None, None),
    ("mixer*[1].volume", ("M.Params",), None, 5),
    ("mixer*[1].pan", ("M.Params",), None, 5),
    ("mixer*[1].stereo_separation", ("M.Params",), None, 5),
    ("mixer*[1]*[0].mix", ("M.Params",), None, 5),
    ("mixer*[1]*[0].enabled", ("M.Params",), None, True),
    ("mixer*[1]*[0].plugin", ("I1.s0.Data",), None, None),
    ("mixer*[1]*[0].internal_name", ("I1.s0.InternalName",), None, "x"),
    ("arrangements.current", ("A.Current",), None, None),
    ("patterns*[0].timemarkers*[0].name", ("T1.m0.Name",), None, "x"),
    ("arrangements*[0].tracks*[0].name", (), None, "x"),
]


def run(rep, make):
    lab = make()
    prepare(lab)
    P = load()
    plain = [p for p in P if "len" not in p.opts and "without" not in p.opts]
    ev = {}
    for pl in plain:
        if not STRUCTURAL.search(pl.event) and not STRUCTURAL.search(pl.key):
            ev.setdefault((base_key(pl), pl.event), []).append(pl)
    empty = Base(lab, lambda ctx: None)
    jobs = []
    for (k, e), rows in ev.items():
        jobs.append((f"without {e}", empty, absent_job(lab, k, rows, default, drop=(e, *alternatives(e)), places=P)))
    cuts = 0
    full = {}
    for pl in plain:
        if pl.key == pl.event and ".Data" not in pl.event and "#" not in pl.key and pl.fam() not in ("text", "path"):
            full.setdefault((base_key(pl), pl.event), []).append(pl)
        elif ".t" in pl.key and pl.key.endswith(".Data"):
            full.setdefault((base_key(pl), pl.event), []).append(pl)
    for (k, e), rows in full.items():
        name = e.rpartition(".")[2].rstrip("0123456789")
        if name not in STRUCTS and not e.endswith(".Data"):
            continue
        ends = {r.off for r in rows}  # payloads that end inside a field are malformed
        for n in sorted(ends):
            gone = [r for r in rows if r.off + r.w > n]
            kept = [r for r in rows if r.off + r.w <= n]
            if gone and n:
                cuts += 1
                jobs.append((f"{e} cut to {n} bytes", empty, absent_job(lab, k, gone, lambda pl: None, present=kept, cut=(e, n), places=P)))
    for path, drop, want, val in SPECIAL:
        jobs.append((f"{path} without {','.join(drop)}", empty, special_job(lab, path, drop, want, val, P)))
    jobs += [(f"{a} = {v!r} of a project with {what}", empty, bare_job(lab, evs, a, v))
             for what, evs in (("one unknown event", [(5, b"\1")]), ("no version", [(64, b"\0\0"), (9, b"\1")]))
             for a, v in (("version", "20.8.4"), ("version", (12, 9, 1)), ("tempo", 120.0), ("tempo", 140), ("title", "x"), ("artists", "x"), ("comments", "x"), ("genre", "x"), ("url", "x"),
                          ("main_pitch", 0), ("main_volume", 1), ("licensed", True), ("show_info", True), ("data_path", "x"))]
    B = bases(lab, plain, P, with_donor=False)  # what is there is not taken for missing
    jobs += [(pl.name, B[base_key(pl)], get_job(lab, pl)) for pl in plain]
    collect(rep, jobs)
    rep.extra["events left out"] = len(ev)
    rep.extra["payload lengths"] = cuts


STRUCTS = {"Parameters", "EnvelopeLFO", "Levels", "Delay", "Tracking", "Polyphony", "LevelAdjusts", "Flags", "Wrapper", "Timestamp"}


def bare_job(lab, evs, attr, val):
    it = lab.it

    def run(st, ctx):
        d = flp(evs)
        p = lab.parse(d)
        nv = it.call(Ext("pathlib.Path"), [val]) if attr == "data_path" else val
        out = []
        if attr != "version":  # documented never to be missing
            try:
                v = public(lambda: it.getattr(p, attr), "getting " + attr)
                out.append(("absent reads as default", EQ if v is None else NE, f"reads {show(v)[:100]}", attr))
            except Lost as e:
                out.append(("absent reads as default", NE, str(e), attr))
        try:
            it.setattr(p, attr, nv)
            out.append(("absent cannot be set", NE, "setting it raises nothing", attr))
        except PyRaise as e:
            n = exc_name(e)
            out.append(("absent cannot be set", EQ if n == CANNOT else NE, f"raises {n} instead of {CANNOT}: {e}"[:200], attr))
        r = same(lab.save(p), d, ctx)
        out.append(("saved unchanged", r, "the saved file differs", attr))
        return out, ctx.facts()

    return run


def special_job(lab, path, drop, want, val, P):
    it = lab.it
    pl = Place(path + " | - 0 0 any")
    k = base_key(pl)
    mk = setup_for(lab, k, P, drop=drop, with_donor=False)

    def run(st, ctx):
        out = []
        st = mk(ctx)
        own = local(pl.owner, k)
        where = path
        try:
            o = public(lambda: lab.walk(st["p"], own) if own else st["p"], "reaching " + own)
            where = describe(lab, o, pl.attr)
            v = public(lambda: it.getattr(o, pl.attr), "getting " + path)
            out.append(("absent reads as default", EQ if v is want else NE, f"reads {show(v)[:150]} instead of {want!r}", where))
        except Lost as e:
            return [("absent reads as default", NE, str(e), where)], ctx.facts()
        if val is not None:
            nv = list(enum_values(lab, val).values())[0] if isinstance(val, str) and val.startswith("pyflp.") else val
            try:
                it.setattr(o, pl.attr, nv)
                out.append(("absent cannot be set", NE, "setting it raises nothing", where))
            except PyRaise as e:
                n = exc_name(e)
                out.append(("absent cannot be set", EQ if n == CANNOT else NE, f"raises {n} instead of {CANNOT}: {e}"[:200], where))
        try:
            f = public(lambda: lab.save(st["p"]), "saving")
            out.append(("saved unchanged", same(f, st["data"], ctx), "the saved file differs", "pyflp.save"))
        except Lost as e:
            out.append(("saved unchanged", NE, str(e), "pyflp.save"))
        return out, ctx.facts()

    return run
