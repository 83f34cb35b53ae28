"""Abstract arrangements with playlist items: every item must appear on exactly
the track its (reversed) track number names, in file order, and show the
channel or pattern its index names; assigning another clip must store that
clip's number in the item and nothing else."""
from ..layouts import *
from ..trip import case, spread

FLOOR = 500
CH = {0: "C0", 3: "C1", 7: "C2", 20479: "C3"}  # internal ID -> key
PT = {1: "T1", 4: "T2", 9: "T3", 4096: "T4", 45055: "T5"}
CKIND = ("sampler", "automation", "instrument", "layer")
BASE = 20480
VERS = [("9.0.0", 198, 32), ("11.1.1", 198, 32), ("12.5.1", 198, 32), ("12.9.0", 198, 32), ("12.9.0.9999", 198, 32), ("12.9.1", 499, 32), ("12.9.1.1000", 499, 32),
        ("20.0.0", 499, 32), ("20.8.4.2576", 499, 32), ("21.0.0.3", 499, 60), ("21.2.3.4004", 499, 60), ("24.1.1.4285", 499, 60)]


def start(b, chans=CH, pats=PT, ckinds=CKIND):
    b.start(("G0",))
    for n, (iid, key) in enumerate(pats.items()):
        b.notes(key, iid, 0, 0)
    for n, (iid, key) in enumerate(chans.items()):
        b.chan(key, ckinds[n % len(ckinds)], iid, sparse=True, children=())
        b.add(f"{key}.Name", 203)
    for iid, key in pats.items():
        b.info(key, iid, 0)


def arrangement(b, key, iid, recs, tracks, max_idx, size, base=BASE, playlist=True):
    """``recs``: [(rvidx or track, clip index)]; an unknown number stays symbolic."""
    b.add(f"{key}.New", 99, u16(iid))
    b.add(f"{key}.Name", 241)
    if playlist:
        segs = []
        for i, (rv, idx) in enumerate(recs):
            c = {4: u16(base), 6: u16(idx), 20: bytes([64, 100, 128, 128])}
            if rv is not None:
                c[12] = u16(rv)
            segs += record(f"{key}.Playlist", i, size, c)
        b.add(f"{key}.Playlist", 233, norm_bytes(ABytes(segs)))
    for t in range(tracks):
        b.add(f"{key}.t{t}.Data", 238, norm_bytes(ABytes(consts_in(f"{key}.t{t}.Data", FULL["Track"], {13: b"\0\0\x80?"}))))


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    cases = []

    def finish(b):
        b.add("A.Current", 100, u16(0))
        b.add("I0.Flags", 236, n=12)
        b.add("I0.Output", 147)
        assume_legal(b, b.ctx)
        return b.file()

    def names(p, what):
        """iid -> entity, as the project shows it."""
        if what in p.__dict__.setdefault("_c21", {}):
            return p._c21[what]
        out = p._c21[what] = {}
        for o in public(lambda: lab.items(it.getattr(p, what)), what):
            i = it.getattr(o, "iid")
            if isinstance(i, int):
                out[i] = o
        return out

    def clip_ok(p, item, idx, ctx):
        """None, or what is wrong with the clip ``item`` shows."""
        attr, other, iid = ("channel", "pattern", idx) if idx < BASE else ("pattern", "channel", idx - BASE)
        clip = public(lambda: it.getattr(item, attr), f"getting {attr} of an item with index {idx}")
        got = public(lambda: it.getattr(clip, "iid"), f"{attr}.iid")
        if same(got, iid, ctx) != EQ:
            return f"an item with index {idx} shows the {attr} with iid {show(got)}"
        twin = names(p, attr + "s").get(iid)
        if twin is None:
            return f"{attr} {iid} is missing from the project"
        a, c = (public(lambda o=o: it.getattr(o, "name"), "name") for o in (clip, twin))
        if same(a, c, ctx) != EQ:
            return f"an item with index {idx} shows a {attr} named {show(a)[:60]}"
        if clip.cls is not twin.cls:
            return f"an item with index {idx} shows a {clip.cls.name}, the project a {twin.cls.name}"
        return None

    def place_ok(item, key, i, ctx):
        for a, off, w in (("position", 0, 4), ("length", 8, 4), ("group", 14, 2)):
            v = public(lambda: it.getattr(item, a), a)
            if same(v, rd(f"{key}.Playlist#{i}", off, w), ctx) != EQ:
                return f"{a} of item {i} reads {show(v)[:80]}"
        return None

    def tracks_of(p, n=0):
        arr = public(lambda: lab.items(it.getattr(p, "arrangements")), "arrangements")
        return public(lambda: lab.items(it.getattr(arr[n], "tracks")), "tracks")

    def check(p, key, n, recs, tracks, max_idx, ctx, clips=True):
        trs = tracks_of(p, n)
        if len(trs) != tracks:
            return NE, f"{len(trs)} tracks are yielded instead of {tracks}"
        for t, tr in enumerate(trs):
            want = []
            for i, (rv, idx) in enumerate(recs):
                r = rv if rv is not None else rd(f"{key}.Playlist#{i}", 12, 2)
                if isinstance(r, int):
                    on = max_idx - r == t
                else:
                    on = it.truth(it.compare("eq", r, max_idx - t))
                if on:
                    want.append((i, idx))
            items = public(lambda: lab.items(tr), f"items of track {t}")
            if len(items) != len(want):
                return NE, f"track {t} of {key} shows {len(items)} items; items {[i for i, _ in want]} have its number"
            ln = public(lambda: it.call(Ext("builtins.len"), [tr]), "len(track)")
            if same(ln, len(want), ctx) != EQ:
                return NE, f"len() of track {t} is {show(ln)}, {len(want)} items are on it"
            for item, (i, idx) in zip(items, want):
                e = place_ok(item, key, i, ctx) or (clips and clip_ok(p, item, idx, ctx))
                if e:
                    return NE, f"track {t} of {key}: {e}"
        return EQ, "tracks"

    def reads(version, max_idx, size, recs, tracks, arrs=1, chans=CH, pats=PT, **kw):
        def fn(ctx):
            b = Layout(lab, ctx, version, unicode=not re.match(r"9\.|10\.|11\.[0-4]", version))
            start(b, chans, pats)
            for a in range(arrs):
                rs = recs[a::arrs]
                arrangement(b, f"A{a}", a, rs, tracks, max_idx, size, **kw)
            d = finish(b)
            try:
                p = public(lambda: lab.parse(d), "parsing")
                mt = public(lambda: lab.walk(p, "arrangements.max_tracks"), "max_tracks")
                if same(mt, max_idx + 1, ctx) != EQ:
                    return NE, f"max_tracks is {show(mt)} for version {version}"
                for a in range(arrs):
                    r = check(p, f"A{a}", a, recs[a::arrs] if kw.get("playlist", True) else [], tracks, max_idx, ctx)
                    if r[0] != EQ:
                        return r
                f = public(lambda: lab.save(p), "saving")
            except Lost as x:
                return NE, str(x)
            return same(f, d, ctx), "the saved file differs after reading"

        return fn

    clips = [*CH, *(BASE + i for i in PT)]
    for v, mx, size in VERS:
        cases.append(("track", f"{v}, unknown track number", reads(v, mx, size, [(None, BASE + 4)], 3)))
        cases.append(("track", f"{v}, two unknown track numbers", reads(v, mx, size, [(None, 3), (None, BASE + 9)], 2)))
        cases.append(("track", f"{v}, mixed order", reads(v, mx, size, [(mx - t, clips[k % len(clips)]) for k, t in enumerate((2, 0, 1, 2, 2, 0, 3, 1))], 4)))
        cases.append(("track", f"{v}, all on one track", reads(v, mx, size, [(mx - 1, c) for c in clips], 3)))
        cases.append(("track", f"{v}, out of range", reads(v, mx, size, [(mx - 5, 0), (mx + 1, 0), (mx, 3), (0, 3), (65535, 7)], 3)))
        cases.append(("track", f"{v}, three arrangements", reads(v, mx, size, [(mx - k % 3, clips[k % len(clips)]) for k in range(10)], 3, arrs=3)))
        cases.append(("track", f"{v}, no playlist", reads(v, mx, size, [], 3, playlist=False)))
        cases.append(("track", f"{v}, empty playlist", reads(v, mx, size, [], 3)))
        for n in range(1, 33):  # item sizes must be told apart at every length
            if n in (15, 16, 30) or v in ("11.1.1", "20.8.4.2576", "21.0.0.3"):
                cases.append(("number of items", f"{v}, {n}", reads(v, mx, size, [(mx - k % 3, clips[k % len(clips)]) for k in range(n)], 3)))
    for v, mx, size in VERS:
        for c in clips:
            cases.append(("clip", f"{v}, index {c}", reads(v, mx, size, [(mx - 1, c)], 2)))
    for v, mx, size in (VERS[1], VERS[5], VERS[-1]):
        for iid in (1, 2, 255, 256, 257, 1000, 4095, 20479):
            cases.append(("clip", f"{v}, channel {iid}", reads(v, mx, size, [(mx, iid)], 1, chans={iid: "C0"})))
        for iid in (1, 2, 10, 255, 256, 998, 999, 4096, 40000):
            cases.append(("clip", f"{v}, pattern {iid}", reads(v, mx, size, [(mx, BASE + iid)], 1, pats={iid: "T1"})))

    def lone(version, mx, size, t, tracks):
        def fn(ctx):
            b = Layout(lab, ctx, version)
            start(b, {0: "C0"}, {1: "T1"})
            arrangement(b, "A0", 0, [(mx - t, 0), (mx - tracks + 1, BASE + 1)], tracks, mx, size)
            d = finish(b)
            try:
                p = public(lambda: lab.parse(d), "parsing")
                return check(p, "A0", 0, [(mx - t, 0), (mx - tracks + 1, BASE + 1)], tracks, mx, ctx)
            except Lost as x:
                return NE, str(x)

        return fn

    for t in (0, 1, 198, 199, 250, 498, 499):
        cases.append(("full size", f"500 tracks, item on {t}", lone("20.8.4", 499, 32, t, 500)))
    for t in (0, 1, 100, 197, 198):
        cases.append(("full size", f"199 tracks, item on {t}", lone("12.5.1", 198, 32, t, 199)))

    # ------------------------------------------------------------- assigning
    def assign(version, mx, size, at, new):
        """Item ``at`` of a fixed playlist gets the clip with index ``new``."""
        recs = [(mx - k % 3, c) for k, c in enumerate(clips + clips[::-1])]

        def fn(ctx):
            b = Layout(lab, ctx, version, unicode=not re.match(r"9\.|10\.|11\.[0-4]", version))
            start(b)
            arrangement(b, "A0", 0, recs, 3, mx, size)
            d = finish(b)
            kind = "channel" if new < BASE else "pattern"
            iid = new if new < BASE else new - BASE
            try:
                p = public(lambda: lab.parse(d), "parsing")
                t = at % 3
                item = lab.items(tracks_of(p)[t])[at // 3]
                clip = names(p, kind + "s")[iid]
                public(lambda: it.setattr(item, kind, clip), f"assigning {kind} {iid}")
                e = clip_ok(p, item, new, ctx) or place_ok(item, "A0", at, ctx)
                if e:
                    return NE, "after assigning, the same object: " + e
                rs = [(r, new if i == at else c) for i, (r, c) in enumerate(recs)]
                r = check(p, "A0", 0, rs, 3, mx, ctx)
                if r[0] != EQ:
                    return r[0], "after assigning, through the project: " + r[1]
                f = public(lambda: lab.save(p), "saving")
                b2 = Layout(lab, ctx, version, unicode=not re.match(r"9\.|10\.|11\.[0-4]", version))
                start(b2)
                arrangement(b2, "A0", 0, rs, 3, mx, size)
                want = finish(b2)
                r = same(f, want, ctx)
                if r != EQ:
                    return r, f"{kind} {iid} assigned to item {at}: the saved file is not the expected one: {[(show(x), show(y)) for x, y in diff_bytes(f, want)][:3]}"
                r = check(public(lambda: lab.parse(f, "again.flp"), "parsing the saved file"), "A0", 0, rs, 3, mx, ctx)
                return r[0], "after assigning, in the saved file: " + r[1]
            except Lost as x:
                return NE, str(x)

        return fn

    for n, (v, mx, size) in enumerate(VERS):
        for at in range(2 * len(clips)):
            cur = (clips + clips[::-1])[at]
            pool = [c for c in clips if (c < BASE) == (cur < BASE)]
            for k, c in enumerate(pool):
                if n in (1, 8, 9) or (k + at) % len(pool) == n % len(pool):
                    cases.append(("assign", f"{v}, item {at}: {cur} -> {c}", assign(v, mx, size, at, c)))

    def reject(at, what):
        mx = 499
        recs = [(mx - k % 3, c) for k, c in enumerate(clips)]

        def fn(ctx):
            b = Layout(lab, ctx, "20.8.4")
            start(b)
            arrangement(b, "A0", 0, recs, 3, mx, 32)
            d = finish(b)
            kind = "channel" if recs[at][1] < BASE else "pattern"
            try:
                p = public(lambda: lab.parse(d), "parsing")
                item = lab.items(tracks_of(p)[at % 3])[at // 3]
                try:
                    it.setattr(item, kind, what(p))
                    return NE, f"{kind} accepts something that is no {kind}"
                except PyRaise:
                    pass
                e = clip_ok(p, item, recs[at][1], ctx)
                if e:
                    return NE, "after a rejected assignment, the same object: " + e
                r = check(p, "A0", 0, recs, 3, mx, ctx)
                if r[0] != EQ:
                    return r[0], "after a rejected assignment: " + r[1]
                return same(public(lambda: lab.save(p), "saving"), d, ctx), "a rejected assignment changed the saved file"
            except Lost as x:
                return NE, str(x)

        return fn

    for at in range(len(clips)):
        for name, what in (("None", lambda p: None), ("a number", lambda p: 3)):
            cases.append(("rejected", f"item {at}, {name}", reject(at, what)))
    spread(rep, cases, lab)
