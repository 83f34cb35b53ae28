"""Abstract projects that differ in which entities and events they have and in
their order, with the entities each of them must show (C13, C14)."""
from __future__ import annotations

from .prop import *

ONLY = {  # events an entity cannot do without
    "channel": ("New", "Type", "GroupNum"), "insert": ("Flags", "Output"), "slot": ("Index",), "pattern": ("New", "New2"),
    "arrangement": ("New",), "track": ("Data",), "marker": ("Position",),
}
TEMPLATES = {  # kind: path and key prefix of the entity in the place table
    "sampler": ("channels*[0]", "C0"), "instrument": ("channels*[2]", "C2"), "vst": ("channels*[1]", "C1"), "layer": ("channels*[5]", "C5"),
    "automation": ("channels*[6]", "C6"), "pattern": ("patterns*[0]", "T1"), "arrangement": ("arrangements*[0]", "A0"),
    "track": ("arrangements*[0].tracks*[1]", "A0.t1"), "insert": ("mixer*[1]", "I1"), "slot": ("mixer*[1]*[0]", "I1.s0"),
    "marker": ("patterns*[0].timemarkers*[0]", "T1.m0"),
}
TYPES = {"sampler": (0, None), "instrument": (2, "BooBass"), "vst": (4, "Fruity Wrapper"), "layer": (3, None), "automation": (5, None)}


def template_rows(places):
    """kind -> rows, one per event, of properties stored in the entity's own events."""
    out = {}
    for kind, (path, key) in TEMPLATES.items():
        seen, rows = set(), []
        for pl in places:
            if not (pl.path.startswith(path + ".") and pl.key.startswith(key + ".")) or "len" in pl.opts or "without" in pl.opts:
                continue
            rest = pl.path[len(path):]
            if kind in ("pattern", "arrangement") and (".timemarkers" in rest or ".tracks" in rest):
                continue
            if kind == "insert" and "*" in rest:
                continue
            if ".Data." in pl.key or pl.key.split("#")[0].endswith(".Data") and kind != "track":
                continue
            k = pl.key
            if k in seen or "#" in k and not k.endswith("#0"):
                continue
            seen.add(k)
            rows.append((rest, pl))
        out[kind] = rows
    return out


class Layout(Build):
    """Records the entities it adds: [(kind, path, key prefix)]."""

    def __init__(self, lab, ctx, version="20.8.4", unicode=True):
        super().__init__(lab, ctx, version, unicode)
        self.ents = []
        self.nchan = self.npat = self.narr = self.nins = 0
        self.pats = {}
        self.arrived = False

    def ent(self, kind, path, key):
        self.ents.append((kind, path, key))

    def only(self, key, keep, names):
        """Drop the events of ``key`` that are not in ``names``."""
        self.ev = [e for e in self.ev if not e[0].startswith(key + ".") or e[0][len(key) + 1:] in names]

    def chan(self, key, kind, iid, sparse=False, drop=(), group=0, children=()):
        typ, plug = TYPES[kind]
        self.channel(key, iid, typ, plug, group=group, children=children, auto=kind == "automation")
        if sparse:
            self.only(key, None, ONLY["channel"] + (("Automation",) if kind == "automation" else ()))
        if drop:
            self.ev = [e for e in self.ev if e[0] not in [f"{key}.{d}" for d in drop]]
        self.ent(kind, f"channels*[{self.nchan}]", key)
        self.nchan += 1

    def _pat(self, key):
        if key not in self.pats:
            self.pats[key] = self.npat
            self.npat += 1
            self.ent("pattern", f"patterns*[{self.pats[key]}]", key)

    def notes(self, key, iid, notes=2, ctrls=2):
        self._pat(key)
        self.pattern_notes(key, iid, notes, ctrls)

    def info(self, key, iid, markers=1, sparse=False, sub=""):
        self._pat(key)
        n = len(self.ev)
        self.pattern_info(key, iid, markers)
        if sparse:
            new = [e for e in self.ev[n:] if e[0].endswith(".New2") or ".m" in e[0]]
            self.ev[n:] = new
        for m in range(markers):
            self.ent("marker", f"patterns*[{self.pats[key]}].timemarkers*[{m}]", f"{key}.m{m}")

    def arr(self, key, iid, items=(), tracks=2, names=(), markers=0, named=True, playlist=True):
        n = len(self.ev)
        self.arrangement(key, iid, items, tracks, names, markers)
        gone = ([] if named else [f"{key}.Name"]) + ([] if playlist else [f"{key}.Playlist"])
        self.ev[n:] = [e for e in self.ev[n:] if e[0] not in gone]
        i = self.narr
        self.narr += 1
        self.ent("arrangement", f"arrangements*[{i}]", key)
        for t in range(tracks):
            self.ent("track", f"arrangements*[{i}].tracks*[{t}]", f"{key}.t{t}")
        for m in range(markers):
            self.ent("marker", f"arrangements*[{i}].timemarkers*[{m}]", f"{key}.m{m}")

    def ins(self, key, slots=(), named=True, sparse=False, bare=()):
        n = len(self.ev)
        self.insert(key, slots, named)
        i = self.nins
        self.nins += 1
        if sparse:
            self.ev[n:] = [e for e in self.ev[n:] if ".s" in e[0] or e[0].rpartition(".")[2] in ONLY["insert"]]
        for s in bare:  # slots with a plugin but without its name, color and icon
            self.ev[n:] = [e for e in self.ev[n:] if e[0] not in [f"{key}.s{s}.{x}" for x in ("Name", "Color", "Icon")]]
        self.ent("insert", f"mixer*[{i}]", key)
        for s in range(len(slots)):
            self.ent("slot", f"mixer*[{i}]*[{s}]", f"{key}.s{s}")

    def start(self, groups=("G0", "G1")):
        self.project()
        self.rack(groups)

    def noise(self):
        """An unknown event after every event."""
        out = []
        for n, e in enumerate(self.ev):
            i = (1, 90, 170, 250)[n % 4]
            out += [e, (f"Z{n}", i, source(f"Z{n}", 5 if i == 250 else 1 if i < 64 else 2 if i < 128 else 4))]
        self.ev = out


# ------------------------------------------------------------------ the layouts
def sparse(b, flip):
    b.start()
    kinds = ["sampler", "sampler", "instrument", "vst", "layer", "automation", "instrument", "sampler"]
    for n, k in enumerate(kinds):
        b.chan(f"C{n}", k, n, sparse=(n % 2 == 0) != flip, group=n % 2, children=(0,) if k == "layer" and (n % 2 == 1) != flip else ())
    for n in (1, 2, 3, 4):
        b.notes(f"T{n}", n, 2 if (n % 2 == 0) != flip else 0, 2 if (n % 2 == 1) != flip else 0)
    for n in (1, 2, 3, 4):
        b.info(f"T{n}", n, markers=(n + flip) % 3, sparse=(n % 2 == 0) != flip)
    b.arrangements()
    for n in range(3):
        b.arr(f"A{n}", n, [(499, 0)] if (n % 2 == 0) != flip else [], tracks=2 + n % 2, names=(0,) if (n % 2 == 1) != flip else (1,), markers=(n + flip) % 3,
              named=(n % 2 == 0) != flip)
    b.add("A.Current", 100, u16(1))
    b.add("M.APDC", 29)
    for n in range(5):
        b.ins(f"I{n}", [["Fruity Balance", None], [None, "Fruity Send", None], [], ["Fruity Center"], [None]][n], named=(n % 2 == 0) != flip, sparse=(n % 2 == 0) != flip,
              bare=(0, 1) if (n % 2 == 1) != flip else ())


def patterns(b):
    b.start()
    b.notes("T3", 3, 1, 1)
    b.notes("T1", 1, 0, 2)
    b.chan("C0", "sampler", 0)
    b.info("T2", 2, markers=2)
    b.info("T3", 3, markers=0, sparse=True)
    b.info("T1", 1, markers=1)
    b.chan("C1", "sampler", 5, sparse=True)
    b.info("T9", 900, markers=2, sparse=True)
    b.arrangements()
    b.arr("A0", 0, markers=2)
    b.ins("I0")
    b.ins("I1")


def late(b):
    """Patterns after the arrangements, rack events last, channel IDs not in order."""
    b.project()
    for g in ("G0", "G1"):
        b.add(g + ".Name", 231)
    b.chan("C0", "layer", 7, children=(3,))
    b.chan("C1", "sampler", 3, group=1)
    b.chan("C2", "instrument", 0, drop=("Color", "Icon", "Name", "Wrapper", "Data"))
    b.arrangements()
    b.arr("A0", 4, tracks=3, names=(0, 2), markers=1)
    b.arr("A1", 2, tracks=1, markers=2)
    b.notes("T1", 12, 1, 0)
    b.info("T1", 12, markers=0)
    b.notes("T2", 1, 1, 1)
    b.add("M.APDC", 29)
    b.ins("I0", ["Fruity Balance"], named=False)
    b.ins("I1", [None, None, "Fruity Soft Clipper"], bare=(2,))
    b.add("R.Swing", 11)
    b.add("R._FitToSteps", 13)
    b.add("R.WindowHeight", 133)
    b.add("P.CurrentlySelected", 67, u16(12))


def mixer(b):
    b.start()
    b.chan("C0", "instrument", 0, drop=("Color", "Icon", "Name"))
    b.notes("T1", 1)
    b.arrangements()
    b.arr("A0", 0)
    names = [n for n in FX if FX[n]]
    for n in range(8):
        b.ins(f"I{n}", [names[(n + s) % len(names)] if (n + s) % 3 else None for s in range(n % 4)], named=n % 2 == 0, sparse=n in (3, 4), bare=range(n % 3))


def minimal(b):
    b.start(("G0",))
    b.chan("C0", "sampler", 0, sparse=True)
    b.notes("T1", 1, 0, 0)
    b.arr("A0", 0, tracks=1, playlist=False, named=False)
    b.ins("I0", sparse=True, named=False)


def many(b):
    """Numbers that are zero, need two bytes or are the largest possible; many entities of one kind."""
    groups = [f"G{n}" for n in range(20)]
    b.project()
    b.rack(groups)
    for n, iid in enumerate((0, 1, 255, 256, 300, 4095, 32767, 32768, 65535, 19, 20, 21)):
        b.chan(f"C{n}", ("sampler", "instrument", "layer", "automation", "vst")[n % 5], iid, sparse=True, group=(n * 7 + 3) % 20)
    pats = (1, 0, 255, 256, 999, 32768, 65535)
    for n in pats:
        b.notes(f"T{n}", n, 1, n % 2)
    for n in pats[::-1]:
        b.info(f"T{n}", n, markers=9 if n == 0 else n % 2, sparse=n % 3 == 0)
    b.arrangements()
    for n, iid in enumerate((3, 0, 65535, 256, 1)):
        b.arr(f"A{n}", iid, tracks=12 if n == 1 else 1, names=(0, 10) if n == 1 else (), markers=9 if n == 0 else 0)
    b.add("A.Current", 100, u16(65535))
    for n in range(20):
        b.ins(f"I{n}", ["Fruity Balance" if s in (0, 9) else None for s in range(10)] if n in (2, 18) else [], named=n % 3 == 0, sparse=True)


GLOBAL = [("A._LoopPos", 152), ("A.TimeSigNum", 17), ("A.TimeSigBeat", 18), ("M.APDC", 29), ("R.Swing", 11), ("R._FitToSteps", 13),
          ("R.WindowHeight", 133), ("P.PlayTruncatedNotes", 30), ("P.CurrentlySelected", 67), ("P.Tempo", 156), ("P.CurGroupId", 146), ("P.Title", 194)]


def scattered(b, start):
    """Events of the project, the rack and the collections between those of the entities, all of them before the first insert."""
    for g in ("G0", "G1"):
        b.add(g + ".Name", 231)
    for n, k in enumerate(("sampler", "instrument", "layer", "automation")):
        b.chan(f"C{n}", k, n, group=n % 2, children=(0,) if k == "layer" else (), sparse=True)
    for n in (1, 2):
        b.notes(f"T{n}", n, 1, 1)
    for n in (1, 2):
        b.info(f"T{n}", n, markers=2)
    for n in (0, 1):
        b.arr(f"A{n}", n, tracks=2, names=(0,), markers=1)
    ev, out, left = b.ev, [], GLOBAL[start:] + GLOBAL[:start]
    step = len(ev) // len(left)
    b.ev = []
    for n, e in enumerate(ev):
        b.ev.append(e)
        if n % step == 0 and left:
            k, i = left.pop(0)
            b.add(k, i, u16(1) if k == "P.CurrentlySelected" else None)
    for k, i in left:
        b.add(k, i, u16(1) if k == "P.CurrentlySelected" else None)
    b.add("A.Current", 100, u16(1))
    b.ins("I0", ["Fruity Balance", None])
    b.ins("I1", [None, "Fruity Send"], named=False)


LAYOUTS = {
    "many": many, "scattered": lambda b: scattered(b, 0), "scattered, from 4": lambda b: scattered(b, 4), "scattered, from 8": lambda b: scattered(b, 8),
    "sparse": lambda b: sparse(b, False), "sparse, the other way": lambda b: sparse(b, True), "patterns": patterns, "late": late, "mixer": mixer,
    "minimal": minimal, "sparse among unknown events": lambda b: (sparse(b, False), b.noise()), "late among unknown events": lambda b: (late(b), b.noise()),
}
VERS = {"sparse": [("20.8.4", True), ("12.4.0", True), ("11.1.1", False)]}


def layout_setup(lab, name, places, version="20.8.4", unicode=True):
    def setup(ctx):
        b = Layout(lab, ctx, version, unicode)
        LAYOUTS[name](b)
        assume_legal(b, ctx)
        assume_places(places, b, ctx)
        data = b.file()
        return {"b": b, "data": data, "p": lab.parse(data)}

    return setup


def row_for(rest, pl, kind, path, key):
    q = Place.__new__(Place)
    q.path, q.key = path + rest, key + pl.key[len(TEMPLATES[kind][1]):]
    q.off, q.w, q.kind, q.opts = pl.off, pl.w, pl.kind, pl.opts
    return q
