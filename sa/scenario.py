"""Abstract project files.

``wide()`` is one file that contains every kind of entity (at least two of the
ones that can be confused with each other).  All payload bytes the format does
not need for the structure of the file are unknown, each event having its own
named source, so provenance terms tell entity, event and byte apart.
"""
from __future__ import annotations

from .harness import *

FX = {  # effects a mixer slot can expose: name, payload length
    "Fruity Balance": 8, "Fruity Blood Overdrive": 36, "Fruity Center": 8, "Fruity Fast Dist": 20,
    "Fruity NoteBook 2": None, "Fruity Send": 16, "Fruity Soft Clipper": 8, "Fruity Stereo Enhancer": 24,
    "Soundgoodizer": 12, "Fruity Wrapper": None, "Fruity Limiter": 40,
}
GEN = {"BooBass": 16, "Fruit Kick": 32, "Plucked!": 20, "Fruity Wrapper": None, "Sytrus": 24}

FULL = {  # current payload sizes
    "Delay": 20, "Parameters": 168, "EnvelopeLFO": 68, "Levels": 24, "Polyphony": 9, "Tracking": 16,
    "LevelAdjusts": 20, "Wrapper": 56, "Flags": 12, "Routing": 4, "Track": 66, "Timestamp": 16,
    "PLSelection": 8, "Remote": 20,
}


class Text:
    """Unknown text without trailing NULs."""

    def __init__(self, lab, ctx, unicode=True):
        self.lab, self.ctx = lab, ctx
        self.enc = "utf-16-le" if unicode else "ascii"
        self.unit = 2 if unicode else 1
        ctx.__dict__.setdefault("clean_text", set())

    def __call__(self, name):
        t = sym("text:" + name, "str")
        self.ctx.clean_text.add(t)
        n = 6 * self.unit
        return ABytes((("enc", n, "text:" + self.enc, t), b"\0" * self.unit))

    def const(self, s):
        return (s + "\0").encode(self.enc)


def notebook(key):
    raw = lambda a, n: ("raw", key, a, n)
    return ABytes([raw(0, 4), raw(4, 4), i32(0), varint(2), "ab".encode("utf-16-le"), i32(1), varint(1), "c".encode("utf-16-le"),
                   i32(-1), raw(8, 1)])


VST_SUB = [(1, 16), (2, 24), (30, 8), (31, 4), (32, 4), (50, 4), (51, None), (52, 16), (53, 9), (54, None), (55, None), (56, None), (57, 3)]


def vst(key, ctx, subs=VST_SUB, lens={}):
    """Sub-events: ID, 8-byte length, data."""
    segs = [u32(10)]
    ctx.__dict__.setdefault("clean_text", set())
    for sid, n in subs:
        n = lens.get(sid, n)
        if n is None:
            t = sym(f"text:{key}.{sid}", "str")
            ctx.clean_text.add(t)
            d = [("enc", 6, "text:utf-8", t)]
            n = 6
        else:
            d = [("raw", f"{key}.{sid}", 0, n)] if n else []
        segs += [u32(sid), n.to_bytes(8, "little")] + d
    return ABytes(segs)


def consts_in(key, size, consts):
    """``size`` bytes of source ``key`` with constant bytes put in."""
    out, pos = [], 0
    for off in sorted(consts):
        b = consts[off]
        if off + len(b) > size:
            break
        if off > pos:
            out.append(("raw", key, pos, off - pos))
        out.append(b)
        pos = off + len(b)
    if pos < size:
        out.append(("raw", key, pos, size - pos))
    return out


def record(key, i, size, consts):
    return consts_in(f"{key}#{i}", size, consts)


def plugin_data(name, key, ctx):
    if name == "Fruity Wrapper":
        return vst(key, ctx)
    if name == "Fruity NoteBook 2":
        return notebook(key)
    return source(key, {**GEN, **FX}[name])


def params_event(key, n=168):
    """Sampler parameters; the constant upper half of both logarithmic levels is 63."""
    return norm_bytes(ABytes(consts_in(key, n, {135: b"?\0", 143: b"?\0"})))


def mparam(key, i, pid, insert, slot):
    return record(key, i, 12, {4: bytes([pid]), 6: u16(insert << 6 | slot)})


def plitem(key, i, track_rvidx, index, base=20480, size=32):
    return record(key, i, size, {4: u16(base), 6: u16(index), 12: u16(track_rvidx)})


OWN_PARAMS = [192, 193, 194, 208, 209, 210, 216, 217, 218, 224, 225, 226]


class Build:
    def __init__(self, lab, ctx, version="20.8.4", unicode=True):
        self.lab, self.ctx = lab, ctx
        self.text = Text(lab, ctx, unicode)
        self.ev = []  # (key, id, payload)
        self.add("P.FLVersion", 199, version.encode() + b"\0")

    def add(self, key, eid, payload=None, n=None):
        if payload is None:
            if eid < 192:
                payload = source(key, 1 if eid < 64 else 2 if eid < 128 else 4)
            elif n is not None:
                payload = source(key, n)
            else:
                payload = self.text(key)
        self.ev.append((key, eid, payload))

    def events(self):
        return [(i, p) for _, i, p in self.ev]

    def file(self, **kw):
        return flp(self.events(), **kw)

    # ---------------------------------------------------------------- entities
    def project(self):
        a = self.add
        a("P.FLBuild", 159)
        for k, i in (("LoopActive", 9), ("ShowInfo", 10), ("_Volume", 12), ("PanLaw", 23), ("Licensed", 28), ("Pitch", 80),
                     ("CurGroupId", 146), ("Tempo", 156), ("Title", 194), ("Comments", 195), ("Url", 197),
                     ("_RTFComments", 198), ("Licensee", 200), ("DataPath", 202), ("Genre", 206), ("Artists", 207)):
            a("P." + k, i)
        a("P.Timestamp", 237, n=16)

    def rack(self, groups=("G0", "G1")):
        a = self.add
        a("R.Swing", 11)
        a("R._FitToSteps", 13)
        a("P.PlayTruncatedNotes", 30)
        a("P.CurrentlySelected", 67, u16(2))
        for g in groups:
            a(g + ".Name", 231)

    def pattern_notes(self, k, iid, notes=2, ctrls=2):
        self.add(f"{k}.New", 65, u16(iid))
        if ctrls:
            self.add(f"{k}.Controllers", 223, ABytes([("raw", f"{k}.Controllers#{i}", 0, 12) for i in range(ctrls)]))
        if notes:
            self.add(f"{k}.Notes", 224, ABytes([("raw", f"{k}.Notes#{i}", 0, 24) for i in range(notes)]))

    def pattern_info(self, k, iid, markers=1):
        a = self.add
        a(f"{k}.New2", 65, u16(iid))
        a(f"{k}.Name", 193)
        a(f"{k}.Color", 150)
        a(f"{k}.Looped", 26)
        a(f"{k}.ChannelIID", 160)
        a(f"{k}._161", 161)
        a(f"{k}._162", 162)
        a(f"{k}.Length", 164)
        for m in range(markers):
            self.marker(f"{k}.m{m}")

    def marker(self, k):
        self.add(f"{k}.Position", 148)
        self.add(f"{k}.Numerator", 33)
        self.add(f"{k}.Denominator", 34)
        self.add(f"{k}.Name", 205)

    def channel(self, k, iid, typ, plugin=None, group=0, children=(), auto=False, name=True, sample=True):
        a = self.add
        a(f"{k}.New", 64, u16(iid))
        a(f"{k}.Type", 21, bytes([typ]))
        a(f"{k}.InternalName", 201, self.text.const(plugin or ""))
        if plugin:
            a(f"{k}.Wrapper", 212, n=FULL["Wrapper"])
        if name:
            a(f"{k}.Name", 203)
        a(f"{k}._Name", 192)
        a(f"{k}.Icon", 155)
        a(f"{k}.Color", 128)
        if plugin:
            a(f"{k}.Data", 213, plugin_data(plugin, f"{k}.Data", self.ctx))
        for n, i in (("IsEnabled", 0), ("Delay", 209), ("DelayModXY", 138), ("Reverb", 139), ("TimeShift", 89), ("Swing", 97),
                     ("FreqTilt", 69), ("Pogo", 86), ("Cutoff", 71), ("Resonance", 83), ("Preamp", 74), ("FadeOut", 75),
                     ("FadeIn", 76), ("StereoDelay", 85), ("RingMod", 131), ("FXFlags", 70), ("RoutedTo", 22), ("Levels", 219)):
            a(f"{k}.{n}", i, n=FULL.get(n))
        a(f"{k}.GroupNum", 145, i32(group))
        a(f"{k}.CutGroup", 132)
        a(f"{k}.LayerFlags", 144)
        for c in children:
            a(f"{k}.Children{c}", 94, u16(c))
        a(f"{k}._VolWord", 72)
        a(f"{k}._VolByte", 2)
        a(f"{k}._PanWord", 73)
        a(f"{k}._PanByte", 3)
        for n, i in (("IsLocked", 32), ("Zipped", 15), ("FineTune", 142), ("RootNote", 135), ("_StretchTime", 140),
                     ("SamplerFlags", 143), ("AUSampleRate", 153), ("PingPongLoop", 20), ("Polyphony", 221), ("Parameters", 215),
                     ("LevelAdjusts", 229)):
            a(f"{k}.{n}", i, params_event(f"{k}.{n}") if n == "Parameters" else None, n=FULL.get(n))
        if auto:
            self.automation(k)
        for t in range(2):
            a(f"{k}.Tracking{t}", 228, n=16)
        for t in range(5):
            a(f"{k}.EnvelopeLFO{t}", 218, n=68)
        if sample:
            a(f"{k}.SamplePath", 196)

    def automation(self, k, points=2):
        key = f"{k}.Automation"
        segs = [("raw", key, 0, 17), u32(points)]
        for i in range(points):
            segs.append(("raw", f"{key}#{i}", 0, 24))
        segs.append(("raw", key, 17, 7))
        self.add(key, 234, ABytes(segs))

    def arrangements(self, current=0):
        a = self.add
        a("A.TimeSigNum", 17)
        a("A.TimeSigBeat", 18)
        a("A._LoopPos", 152)
        a("A.PLSelection", 217, n=8)

    def arrangement(self, k, iid, items=(), tracks=3, names=(1,), markers=1, size=32):
        a = self.add
        a(f"{k}.New", 99, u16(iid))
        a(f"{k}.Name", 241)
        segs = []
        for n, (rv, idx) in enumerate(items):
            segs += plitem(f"{k}.Playlist", n, rv, idx, size=size)
        a(f"{k}.Playlist", 233, norm_bytes(ABytes(segs)))
        for m in range(markers):
            self.marker(f"{k}.m{m}")
        for t in range(tracks):
            a(f"{k}.t{t}.Data", 238, norm_bytes(ABytes(consts_in(f"{k}.t{t}.Data", FULL["Track"], {13: b"\0\0\x80?"}))))
            if t in names:
                a(f"{k}.t{t}.Name", 239)

    def slot(self, k, index, plugin=None):
        a = self.add
        if plugin:
            a(f"{k}.InternalName", 201, self.text.const(plugin))
            a(f"{k}.Wrapper", 212, n=FULL["Wrapper"])
            a(f"{k}.Name", 203)
            a(f"{k}.Icon", 155)
            a(f"{k}.Color", 128)
            a(f"{k}.Data", 213, plugin_data(plugin, f"{k}.Data", self.ctx))
        a(f"{k}.Index", 98, u16(index))

    def insert(self, k, slots=(), named=True):
        a = self.add
        if named:
            a(f"{k}.Color", 149)
            a(f"{k}.Icon", 95)
            a(f"{k}.Name", 204)
        a(f"{k}.Flags", 236, n=12)
        for n, p in enumerate(slots):
            self.slot(f"{k}.s{n}", n, p)
        a(f"{k}.Routing", 235, n=4)
        a(f"{k}.Input", 154)
        a(f"{k}.Output", 147)

    def params(self, recs, key="M.Params"):
        segs = []
        for n, (pid, ins, slot) in enumerate(recs):
            segs += mparam(key, n, pid, ins, slot)
        self.add(key, 225, norm_bytes(ABytes(segs)))

    def focus(self, chans, rest=True):
        """A smaller project: the given channels of ``CHANNELS`` and, unless
        ``rest`` is off, everything ``wide`` has besides channels."""
        if rest:
            return self.wide(chans)
        self.project()
        self.rack()
        for n in chans:
            self._chan(n)
        self.pattern_notes("T1", 1, 0, 0)
        self.arrangements()
        self.arrangement("A0", 0, [])
        self.add("M.APDC", 29)
        self.insert("I0")
        self.params([(0, 0, 0)])

    def _chan(self, n):
        typ, plug = CHANNELS[n]
        self.channel(f"C{n}", n, typ, plug, group=n % 2, children=(0, 7) if typ == 3 else (), auto=typ == 5)

    def wide(self, chans=None):
        self.project()
        self.rack()
        self.add("X.Remote", 227, n=20)
        self.pattern_notes("T1", 1)
        self.pattern_notes("T2", 2)
        for n in range(len(CHANNELS)) if chans is None else chans:
            self._chan(n)
        self.pattern_info("T1", 1)
        self.pattern_info("T2", 2)
        self.arrangements()
        self.arrangement("A0", 0, PL_ITEMS)
        self.arrangement("A1", 1, [(499, 20480 + 2)])
        self.add("A.Current", 100, u16(1))
        self.add("M.APDC", 29)
        fx = list(FX)
        for n in range(4):
            self.insert(f"I{n}", fx[6 * n - 6:6 * n] + [None] if n in (1, 2) else (None, None))
        recs = []
        for n in range(4):
            for s in range(7 if n in (1, 2) else 2):
                recs += [(0, n, s), (1, n, s)]
            recs += [(p, n, 0) for p in OWN_PARAMS] + [(64 + r, n, 0) for r in range(4)]
        self.params(recs)
        self.recs = recs
        self.add("R.WindowHeight", 133)


CHANNELS = [(0, None), (4, "Fruity Wrapper"), (2, "BooBass"), (2, "Fruit Kick"), (2, "Plucked!"), (3, None), (5, None),
            (0, None), (2, "Sytrus")]
PL_ITEMS = [(499, 0), (499, 20480 + 1), (498, 20480 + 2), (498, 3), (499, 7)]

# Legal values of stored enumerations: event key suffix -> (offset, width, kind, values)
ENUMS = {
    "Parameters": [(40, 4, "u", range(0, 6)), (83, 1, "u", range(0, 6)), (108, 4, "s", range(-1, 10))],
    "EnvelopeLFO": [(52, 4, "s", range(0, 3))],
    "Levels": [(20, 4, "u", range(0, 8))],
    "Wrapper": [(20, 1, "u", (0, 1, 3, 4, 5))],
    ".Data:238": [(22, 4, "u", range(0, 7)), (26, 4, "u", range(0, 4)), (30, 4, "u", range(0, 7)), (42, 4, "u", range(0, 7))],
}
LOGS = {"Parameters": [133, 141]}


def assume_legal(b, ctx):
    """Restrict stored enumerations and levels to the values the format has."""
    for key, eid, p in b.ev:
        for suf, fs in ENUMS.items():
            s, _, i = suf.partition(":")
            base = key.rstrip("0123456789") if not i else key
            if not base.endswith(s) or (i and int(i) != eid):
                continue
            for off, w, k, vals in fs:
                if len(p) >= off + w:
                    ctx.doms[rd(key, off, w, k)] = IntDom.of(vals)
        if key.endswith(".Parameters"):
            for off in LOGS["Parameters"]:
                if len(p) >= off + 4:
                    ctx.doms[rd(key, off, 2)] = IntDom.rng(1, 61440)
