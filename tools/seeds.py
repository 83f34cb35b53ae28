"""Planted bugs: edits to /repo, demonstrations, and what they need."""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("c08-modxy", "C08", [("pyflp/channel.py", "        event.value = (event.value[0], value)", "        event.value = (value, event.value[0])")], """
    p = parse(flp(channels_head() + channel(extra=[(138, 0x00070005)])))
    d = list(p.channels)[0].delay
    assert (d.mod_x, d.mod_y) == (5, 7)
    d.mod_y = 9
    assert (d.mod_x, d.mod_y) == (5, 9), (d.mod_x, d.mod_y)
""", "setting delay.mod_y of a channel whose two delay modulations differ", "setting one half of the delay modulation pair swaps the halves")

seed("c11-xor", "C11", [("pyflp/_descriptors.py", "                ev_or_ins.value &= ~self._flag", "                ev_or_ins.value ^= self._flag")], """
    p = parse(flp(channels_head() + channel(typ=3, extra=[(144, 2)])))
    l = list(p.channels)[0]
    assert l.crossfade and not l.random
    l.random = False
    assert l.crossfade and not l.random
""", "clearing a flag that is already clear in a plain integer event", "FlagProp toggles instead of clearing, so clearing twice sets the bit")

seed("c09-vol", "C09", [("pyflp/channel.py", "        for id in (ChannelID._VolWord, ChannelID._VolByte):\n            if id in self.events.ids:\n                return", "        for id in (ChannelID._VolByte, ChannelID._VolWord):\n            if id in self.events.ids:\n                return")], """
    p = parse(flp(channels_head() + channel(extra=[(2, 100), (72, 9000)])))
    assert list(p.channels)[0].volume == 9000
""", "an old project which stores both the byte and the word volume of a channel", "the volume is read from the obsolete byte event instead of the word event")

seed("c10-struct", "C10", [("pyflp/_events.py", "        if self[key] is None:\n            raise PropertyCannotBeSet\n", "        if self.value is None:\n            raise PropertyCannotBeSet\n")], """
    from pyflp.exceptions import PropertyCannotBeSet
    p = parse(flp(channels_head() + channel(extra=[(229, b"\\0" * 8)])))
    la = list(p.channels)[0].level_adjusts
    assert la.mod_x is None
    try:
        la.mod_x = 5
    except PropertyCannotBeSet:
        pass
    else:
        raise SystemExit("absent field was set")
""", "setting a field that a shortened (older) struct payload does not contain", "setting an absent field silently succeeds and grows the event")

I = "pyflp/__init__.py"
E = "pyflp/_events.py"
CH = "pyflp/channel.py"
AR = "pyflp/arrangement.py"
PA = "pyflp/pattern.py"
MI = "pyflp/mixer.py"
PR = "pyflp/project.py"
PL = "pyflp/plugin.py"
DE = "pyflp/_descriptors.py"
AD = "pyflp/_adapters.py"
TY = "pyflp/types.py"
MO = "pyflp/_models.py"

seed("c07-crlf", "C07", [(E, """            c.GreedyString("utf-16-le"),
            lambda obj, *_: obj.rstrip("\\0"),""", """            c.GreedyString("utf-16-le"),
            lambda obj, *_: obj.rstrip("\\0").replace("\\r\\n", "\\n"),""")], """
    raw = flp([(195, text("line one\\r\\nline two"))])
    p = parse(raw)
    assert p.comments == "line one\\r\\nline two", p.comments
    p.comments = p.comments + "!"
    assert text("line one\\r\\nline two!") in save(p)
""", "a text with Windows line ends", "line ends are normalised when text is read, so writing the text back loses them")

seed("c01-channelcount", "C01", [(PR, """        return self._kw["channel_count"]
""", """        return self._kw["channel_count"] or len({e.value for e in self.events.get(ChannelID.New)})
""")], """
    raw = flp(channels_head() + channel(), channels=0)
    assert save(parse(raw)) == raw
""", "a file whose header states zero channels although it has some", "the header's channel count is replaced when an unmodified project is saved")

seed("c02-size128", "C02", [(E, "        elif self.id >= DWORD:\n            return 5", "        elif self.id > DWORD:\n            return 5")], """
    p = parse(flp(channels_head() + channel(extra=[(128, 5)])))
    for e in p.events:
        assert e.size == len(bytes(e)), (e, e.size)
""", "the reported size of an event with ID 128", "event size of ID 128 is reported as 3 instead of 5")

seed("c02-expect", "C02", [(E, "ALLOWED_IDS = range(DWORD, TEXT)", "ALLOWED_IDS = range(DWORD, TEXT - 1)")], """
    p = parse(flp([(191, 5)]))
    assert len(list(p.events)) == 2
""", "an event with ID 191, the last of the four byte range", "the class rejects an ID which the parser gives to it")

seed("c03-hdrsize", "C03", [(I, "    if hdr_size != 6:", "    if hdr_size & 0xFF != 6:")], """
    from pyflp.exceptions import HeaderCorrupted
    raw = flp([])
    raw = raw[:5] + b"\\1" + raw[6:]
    try:
        parse(raw)
    except HeaderCorrupted:
        pass
    else:
        raise SystemExit("accepted")
""", "a header chunk size whose lowest byte alone is right", "a corrupt header size is accepted")

seed("c03-ppq", "C03", [(I, "    if ppq not in VALID_PPQS:", "    if ppq % 24 or not VALID_PPQS[0] <= ppq <= VALID_PPQS[-1]:")], """
    from pyflp.exceptions import HeaderCorrupted
    try:
        parse(flp([], ppq=216))
    except HeaderCorrupted:
        pass
    else:
        raise SystemExit("accepted")
""", "a PPQ which is a multiple of 24 but not one FL Studio uses", "an invalid PPQ is accepted")

seed("c03-trunc", "C03", [(I, "    if file_size != events_size + 22:", "    if file_size < events_size + 22:")], """
    from pyflp.exceptions import HeaderCorrupted
    try:
        parse(flp([]) + b"\\0")
    except HeaderCorrupted:
        pass
    else:
        raise SystemExit("accepted")
""", "a file with bytes beyond its data chunk", "a wrong data chunk size is accepted when the file is longer")

seed("c04-early", "C04", [(I, """    total_size = 0
    for event in project.events:
        raw = bytes(event)
        total_size += len(raw)
        buf.extend(raw)
    buf[18:22] = total_size.to_bytes(4, "little")

    with open(file, "wb") as fp:
        fp.write(buf)""", """    total_size = 0
    with open(file, "wb") as fp:
        for event in project.events:
            raw = bytes(event)
            total_size += len(raw)
            buf.extend(raw)
        buf[18:22] = total_size.to_bytes(4, "little")
        fp.write(buf)""")], """
    p = parse(flp(channels_head() + channel()))
    with tmpdir() as d:
        f = pathlib.Path(d) / "y.flp"
        f.write_bytes(b"precious")
        list(p.channels)[0].iid = 70000
        try:
            pyflp.save(p, f)
        except Exception:
            pass
        assert f.read_bytes() == b"precious"
""", "saving a project with a value that cannot be serialised over an existing file", "the destination is truncated before the events are serialised")

seed("c05-swing", "C05", [(CH, "    Swing = (WORD + 33, U16Event)", "    Swing = (WORD + 33, I16Event)"), (CH, "    I8Event,\n", "    I8Event,\n    I16Event,\n")], """
    p = parse(flp(channels_head() + channel(extra=[(97, 40000)])))
    assert list(p.channels)[0].time.swing == 40000
""", "a swing of 32768 or more", "the swing word is read as signed")

seed("c05-clash", "C05", [(PA, "    Length = (DWORD + 36, U32Event)", "    Length = (DWORD + 36, I32Event)")], """
    p = parse(flp([(65, 1), (164, 0x80000000)]))
    assert list(p.patterns)[0].length == 0x80000000
""", "a pattern length with its highest bit set", "the pattern length is read as signed")

seed("c06-stale", "C06", [(I, "                    plug_name = event_type(id, value).value\n", "                    plug_name = event_type(id, value).value or plug_name\n")], """
    data = b"\\1\\0\\0\\0" * 3
    p = parse(flp(channels_head() + channel(plugin="BooBass", extra=[(213, data)]) + channel(iid=1, plugin="", extra=[(213, data)])))
    from pyflp._events import UnknownDataEvent
    evs = [e for e in p.events if e.id == 213]
    assert isinstance(evs[1], UnknownDataEvent), evs[1]
""", "plugin data under an empty internal name after a known plugin", "the empty name does not replace the previous one, so foreign data is decoded with its structure")

seed("c07-float", "C07", [(I, "            if [int(part) for part in parts][0:2] >= [11, 5]:", "            if float(\".\".join(parts[0:2])) >= 11.5:")], """
    p = parse(flp([(194, text("Ti"))], version="11.10.1"))
    assert p.title == "Ti", p.title
""", "a version whose minor number has two digits (11.10)", "11.10 is taken for older than 11.5, text is decoded as ASCII")

seed("c07-patch", "C07", [(I, "[0:2] >= [11, 5]:", " > [11, 5]:")], """
    raw = flp([(194, text("Ti"))], version="11.5")
    p = parse(raw)
    assert p.title == "Ti", p.title
""", "a file saved by version 11.5 exactly, stated without a patch number", "text of 11.5 is decoded as ASCII")

seed("c08-iid", "C08", [(PA, """        for event in self.events.get(PatternID.New):
            event.value = value""", """        self.events.first(PatternID.New).value = value""")], """
    p = parse(flp([(65, 1), (193, text("a")), (65, 1), (164, 5)]))
    pat = list(p.patterns)[0]
    pat.iid = 3
    assert [q.iid for q in p.patterns] == [3], [q.iid for q in p.patterns]
    assert list(p.patterns)[0].length == 5
""", "a pattern announced twice in the file", "renumbering a pattern leaves its second announcement, splitting it")

seed("c08-itemcopy", "C08", [(MO, "        self._item = item\n", "        self._item = item.copy()\n")], """
    n = struct.pack("<IHHIHHBBBBBBBB", 0, 0, 0, 10, 60, 0, 120, 0, 64, 0, 64, 100, 128, 128)
    p = parse(flp([(65, 1), (224, n)]))
    pat = list(p.patterns)[0]
    a, b = list(pat.notes)[0], list(pat.notes)[0]
    a.length = 20
    b.pan = 3
    q = list(list(p.patterns)[0].notes)[0]
    assert (q.length, q.pan) == (20, 3), (q.length, q.pan)
""", "two objects for the same note, each changing another property", "the second change reverts the first")

seed("c08-volprefer", "C08", [(CH, """        if ChannelID.Levels in self.events.ids:
            cast(LevelsEvent, self.events.first(ChannelID.Levels))["volume"] = value
            return

        for id in (ChannelID._VolWord, ChannelID._VolByte):
            if id in self.events.ids:
                self.events.first(id).value = value""", """        for id in (ChannelID._VolWord, ChannelID._VolByte):
            if id in self.events.ids:
                self.events.first(id).value = value
                return

        if ChannelID.Levels in self.events.ids:
            cast(LevelsEvent, self.events.first(ChannelID.Levels))["volume"] = value""")], """
    p = parse(flp(channels_head() + channel(extra=[(72, 100), (219, struct.pack("<iIiIII", 1, 2, 3, 4, 5, 0))])))
    c = list(p.channels)[0]
    c.volume = 50
    assert c.volume == 50
""", "a channel with both the old and the new volume event", "the volume is set in the old event but read from the new one")

seed("c09-envzero", "C09", [(CH, "            envs = [Envelope(e) for e in self.events.separate(ChannelID.EnvelopeLFO)]", "            envs = [Envelope(e) for e in self.events.separate(ChannelID.EnvelopeLFO) if any(e.first(ChannelID.EnvelopeLFO).values())]")], """
    evs = [(218, struct.pack("<17i", *([i and i - 1] * 17))) for i in range(5)]
    p = parse(flp(channels_head() + channel(extra=evs)))
    s = list(p.channels)[0]
    assert s.envelopes["Mod X"].predelay == 1
""", "a sampler one of whose envelopes is all zero", "the later envelopes are presented under the names of earlier ones")

seed("c09-tracking", "C09", [(CH, '            return dict(zip(("volume", "keyboard"), tracking))', '            return dict(zip(("keyboard", "volume"), reversed(tracking)))')], """
    p = parse(flp(channels_head() + channel(extra=[(228, struct.pack("<Iiii", 60, 1, 2, 3))])))
    s = list(p.channels)[0]
    assert list(s.tracking) == ["volume"], s.tracking
""", "a channel which has one tracking event only", "volume tracking is presented as keyboard tracking")

seed("c10-zipped", "C10", [(CH, """            return self.events.first(ChannelID.Zipped).value
        return False""", """            return self.events.first(ChannelID.Zipped).value
        return None""")], """
    p = parse(flp(channels_head() + channel()))
    assert list(p.channels)[0].zipped is False
""", "a channel without the zipped event", "the documented default False is lost")

seed("c10-mixparam", "C10", [(MI, """                item["msg"] = value
                return
        raise PropertyCannotBeSet(self._id)""", """                item["msg"] = value
                return
        if self._id != _MixerParamsID.StereoSeparation:
            raise PropertyCannotBeSet(self._id)""")], """
    from pyflp.exceptions import PropertyCannotBeSet
    p = parse(flp([(236, b"\\0" * 12), (154, 0), (147, 0), (225, b"")]))
    ins = list(p.mixer)[0]
    assert ins.stereo_separation is None
    try:
        ins.stereo_separation = 5
    except PropertyCannotBeSet:
        pass
    else:
        raise SystemExit("silently ignored")
""", "setting the stereo separation of an insert without such a record", "the assignment is dropped silently")

seed("c11-samebit", "C11", [(PL, "    SmartDisable = 1 << 5\n", "    SmartDisable = 1 << 3\n")], """
    w = b"\\0" * 16 + struct.pack("<I", 1 << 5) + b"\\0" * 32
    p = parse(flp(channels_head() + channel(plugin="BooBass", typ=2, extra=[(212, w), (213, b"\\0" * 12)])))
    assert list(p.channels)[0].plugin.smart_disable
""", "a plugin wrapper with smart disable on", "smart disable is read from and written to the wrong bit")

seed("c11-vstinv", "C11", [(PL, """        if self._inverted:
            value = not value

        for e in event["events"]:""", """        value = value != self._inverted if value else value

        for e in event["events"]:""")], """
    fl = struct.pack("<I", 8) + struct.pack("<IQ", 2, 23) + b"\\0" * 9 + struct.pack("<II", 1 << 6, 0) + b"\\0" * 6
    p = parse(flp(channels_head() + channel(plugin="Fruity Wrapper", typ=4, extra=[(213, fl)])))
    a = list(p.channels)[0].plugin.automation
    assert a.notify_changes is False
    a.notify_changes = True
    assert a.notify_changes is True
    a.notify_changes = False
    assert a.notify_changes is False
""", "switching an inverted VST flag off", "switching an inverted VST option off leaves it on")

seed("c12-shared", "C12", [(E, """            yield EventTree(self, [ie for ie in iet if ie])  # filter out None values""", """            yield EventTree(self, [ie for ie in iet if ie and ie.e.value])  # unpack and filter""")], """
    p = parse(flp([(99, 0), (148, 0), (205, text("m"))]))
    m = list(list(p.arrangements)[0].timemarkers)[0]
    assert m.position == 0, m.position
""", "a marker at position zero", "grouping drops events whose value is zero")

seed("c12-poprenum", "C12", [(E, """            if root_ie.r >= ie.r:
                root_ie.r -= 1""", """            if root_ie.r >= ie.r and root_ie.r != ie.r + 1:
                root_ie.r -= 1""")], """
    p = parse(flp([(10, 1), (9, 1), (28, 1), (80, 5)]))
    p.events.remove(10)
    assert [ie.r for ie in p.events.lst] == [0, 1, 2, 3], [ie.r for ie in p.events.lst]
""", "removing an event which has a successor, then looking at the file order indexes", "indexes after a removal have gaps or duplicates")

seed("c13-curpat", "C13", [(PA, """            if ie.e.id == PatternID.New:
                cur_pat_id = ie.e.value""", """            if ie.e.id == PatternID.New:
                cur_pat_id = ie.e.value or cur_pat_id""")], """
    p = parse(flp([(65, 1), (193, text("a")), (65, 0), (164, 7)]))
    assert [(x.iid, x.length) for x in p.patterns] == [(1, None), (0, 7)]
""", "a pattern numbered zero", "its events go to the pattern before it")

seed("c13-group", "C13", [(CH, "                cur_ch = ch_dict[iid] = ct(et, channels=ch_dict, group=groups[groupnum])", "                cur_ch = ch_dict[iid] = ct(et, channels=ch_dict, group=groups[groupnum % 8])")], """
    p = parse(flp([(231, text(c)) for c in "ABCDEFGHI"] + channel(group=8)))
    assert list(p.channels)[0].group.name == "I"
""", "more than eight display groups", "channels of the ninth group are shown in the first")

seed("c14-mixneg", "C14", [(MI, "            if (isinstance(i, int) and idx == i + 1) or i == insert.name:", "            if (isinstance(i, int) and idx == abs(i) + (i >= 0)) or i == insert.name:")], """
    one = [(236, b"\\0" * 12), (154, 0), (147, 0)]
    p = parse(flp(one * 3))
    assert p.mixer[-1].iid == -1, p.mixer[-1].iid
""", "indexing the mixer with -1 (the current insert)", "mixer[-1] returns insert 0")

seed("c14-current", "C14", [(PA, """            index = self.events.first(PatternsID.CurrentlySelected).value
            for pattern in self:
                if pattern.iid == index:
                    return pattern""", """            index = self.events.first(PatternsID.CurrentlySelected).value
            for idx, pattern in enumerate(self, 1):
                if idx == index:
                    return pattern""")], """
    p = parse(flp([(67, 5), (65, 2), (65, 5)]))
    assert p.patterns.current is not None and p.patterns.current.iid == 5
""", "pattern numbers with gaps", "the current pattern is looked up by place instead of number")

seed("c14-chaniter", "C14", [(CH, """            if (isinstance(i, int) and i == ch.iid) or (i == ch.display_name):""", """            if i in (ch.iid, ch.display_name, ch.internal_name):""")], """
    from pyflp.channel import ChannelNotFound
    p = parse(flp(channels_head() + channel(0, name="x", plugin="y") + channel(1, name="y")))
    assert p.channels["y"].iid == 1
""", "a channel named like another channel's plugin", "channels are found by their plugin's name as well")

seed("c15-musical", "C15", [(AD, "(obj.beats * 48) + int(obj.ticks * 0.2)", "(obj.beats * 48) + int(obj.ticks * 0.2 + 0.05) % 48")], """
    from pyflp._adapters import LinearMusical
    from pyflp.types import MusicalTime
    import construct as c
    a = LinearMusical(c.Int32ul)
    for n in range(0, 2000):
        assert a.parse(a.build(a.parse(c.Int32ul.build(n)))) == a.parse(c.Int32ul.build(n)), n
    assert c.Int32ul.parse(a.build(MusicalTime(0, 0, 240))) == 48
""", "ticks of a full beat or more", "ticks beyond a beat wrap instead of carrying")

seed("c15-musical2", "C15", [(AD, "        bars, remainder = divmod(obj, 768)\n        beats, remainder = divmod(remainder, 48)", "        bars, remainder = divmod(obj, 768)\n        beats, remainder = divmod(remainder or 768 * (not bars), 48)")], """
    from pyflp._adapters import LinearMusical
    import construct as c
    a = LinearMusical(c.Int32ul)
    assert a.build(a.parse(b"\\0\\0\\0\\0")) == b"\\0\\0\\0\\0"
""", "a stretch time of zero (automatic)", "zero decodes to a whole bar")

seed("c16-ccount", "C16", [(PR, """        if value < 0:
            raise ValueError("Channel count cannot be less than zero")
        self._kw["channel_count"] = value""", """        old, self._kw["channel_count"] = self._kw["channel_count"], value
        if value < 0:
            self._kw["channel_count"] = max(old, 1)
            raise ValueError("Channel count cannot be less than zero")""")], """
    p = parse(flp([], channels=0))
    try:
        p.channel_count = -1
    except ValueError:
        pass
    assert p.channel_count == 0, p.channel_count
""", "rejecting a channel count in a project that has none", "a rejected channel count changes the count")

seed("c16-tempo", "C16", [(PR, "        if float(value) > max_tempo or float(value) < MIN_TEMPO:", "        if int(value) > max_tempo or int(value) < MIN_TEMPO:")], """
    p = parse(flp([(156, 120000)]))
    try:
        p.tempo = 522.9
    except ValueError:
        pass
    assert p.tempo == 120, p.tempo
""", "a fractional tempo just above the maximum", "a tempo above the maximum is accepted")

seed("c16-key", "C16", [(PA, "            if value not in range(132):", "            if not 0 <= value <= 132:")], """
    n = struct.pack("<IHHIHHBBBBBBBB", 0, 0, 0, 10, 60, 0, 120, 0, 64, 0, 64, 100, 128, 128)
    p = parse(flp([(65, 1), (224, n)]))
    note = list(list(p.patterns)[0].notes)[0]
    try:
        note.key = 132
    except ValueError:
        pass
    assert note.key == "C5", note.key
""", "setting a note's key to 132", "the first key above the range is accepted")

seed("c17-bases", "C17", [("pyflp/exceptions.py", "class ModelNotFound(DataCorrupted, IndexError):", "class ModelNotFound(DataCorrupted, LookupError):")], """
    p = parse(flp([(65, 1)]))
    try:
        p.patterns[7]
    except IndexError:
        pass
""", "catching a failed lookup as IndexError", "ModelNotFound is no longer an IndexError")

seed("c17-chan", "C17", [(CH, "            if i == child.iid:\n                return child\n        raise ChannelNotFound(i)", "            if i == child.iid:\n                return child\n        raise ModelNotFound(i)")], """
    from pyflp.channel import ChannelNotFound
    p = parse(flp(channels_head() + channel(0) + channel(1, typ=3, extra=[(94, 0)])))
    try:
        p.channels[1][9]
    except ChannelNotFound:
        pass
""", "looking up a child a layer does not have", "the documented ChannelNotFound is not raised")

seed("c18-tempo", "C18", [(PA, """            event = cast(NotesEvent, self.events.first(PatternID.Notes))
            yield from (Note(item, i, event) for i, item in enumerate(event))""", """            event = cast(NotesEvent, self.events.first(PatternID.Notes))
            event.sort(key=lambda item: item["position"])
            yield from (Note(item, i, event) for i, item in enumerate(event))""")], """
    n = lambda pos: struct.pack("<IHHIHHBBBBBBBB", pos, 0, 0, 10, 60, 0, 120, 0, 64, 0, 64, 100, 128, 128)
    raw = flp([(65, 1), (224, n(9) + n(3))])
    p = parse(raw)
    list(list(p.patterns)[0].notes)
    assert save(p) == raw
""", "notes not stored in order of position", "reading a pattern's notes sorts them in the event")

seed("c18-defaultdict", "C18", [(CH, """            for i, point in enumerate(event["points"]):
                yield AutomationPoint(point, i, event)""", """            points = event["points"]
            for i, point in enumerate(points):
                point["tension"] = max(-1.0, min(1.0, point["tension"]))
                yield AutomationPoint(point, i, event)""")], """
    pts = struct.pack("<ddf4s", 0, 1, 2.5, b"")
    raw = flp(channels_head() + channel(typ=5, extra=[(234, b"\\0" * 17 + struct.pack("<I", 1) + pts)]))
    p = parse(raw)
    list(list(p.channels)[0])
    assert save(p) == raw
""", "an automation point with a tension beyond 1", "iterating automation points clamps the stored tensions")

seed("c19-order", "C19", [(PL, """        if getattr(cls, "INTERNAL_NAME", None) == name:""", """        if name.startswith(getattr(cls, "INTERNAL_NAME", "\\0")):""")], """
    from pyflp._events import UnknownDataEvent
    p = parse(flp(channels_head() + channel(plugin="Fruity Send 2", extra=[(213, b"\\0" * 16)])))
    assert [type(e) for e in p.events if e.id == 213] == [UnknownDataEvent]
""", "an unknown plugin whose name starts like a known one", "its data is decoded with the wrong structure")

seed("c19-set", "C19", [(PL, """            setattr(ins, "internal_name", value.INTERNAL_NAME)
""", """            setattr(ins, "internal_name", ins.events.first(PluginID.InternalName).value or value.INTERNAL_NAME)
""")], """
    from pyflp.plugin import PluginID
    mk = lambda iid, name, n: channel(iid, typ=2, plugin=name, extra=[(212, b"\\0" * 52), (213, b"\\0" * n)])
    p = parse(flp(channels_head() + mk(0, "BooBass", 12) + mk(1, "Plucked!", 20)))
    a, b = p.channels
    a.plugin = b.plugin
    assert a.internal_name == "Plucked!", a.internal_name
""", "assigning a plugin to a channel which has another one", "the old internal name stays with the new data")

seed("c20-slotmask", "C20", [(MI, '            slot_idx = item["channel_data"] & 0x3F', '            slot_idx = item["channel_data"] & 0x07')], """
    slots = [(98, i) for i in range(10)]
    rec = lambda id, slot, msg: struct.pack("<4sBBHi", b"", id, 0, 1 << 6 | slot, msg)
    one = [(236, b"\\0" * 12)] + slots + [(154, 0), (147, 0)]
    p = parse(flp(one * 2 + [(225, rec(1, 1, 100) + rec(1, 9, 900))]))
    ins = list(p.mixer)[1]
    assert [s.mix for s in ins] == [None, 100, None, None, None, None, None, None, None, 900], [s.mix for s in ins]
""", "parameters of the ninth or tenth slot", "records of slots 8 and 9 overwrite those of slots 0 and 1")

seed("c21-version", "C21", [(AR, """        max_idx = 499 if self._kw["version"] >= FLVersion(12, 9, 1) else 198""", """        max_idx = 499 if self._kw["version"] >= FLVersion(12, 9) else 198""")], """
    item = struct.pack("<IHHIHHHHIff", 0, 20480, 0, 10, 198, 0, 0, 0, 0, 0, 0)
    tr = (238, struct.pack("<I", 1))
    p = parse(flp(channels_head() + channel() + [(99, 0), (233, item), tr], version="12.9.0"))
    t = list(list(p.arrangements)[0].tracks)[0]
    assert len(t) == 1, len(t)
""", "a project saved by FL 12.9.0", "playlist items are looked for on 500 tracks instead of 199")

seed("c21-patkey", "C21", [(AR, '        self["item_index"] = pattern.iid + self["pattern_base"]', '        self["item_index"] = pattern.iid | self["pattern_base"]')], """
    item = struct.pack("<IHHIHHHHIff", 0, 20480, 20481, 10, 499, 0, 0, 0, 0, 0, 0)
    p = parse(flp(channels_head() + channel() + [(65, 1), (65, 4096), (99, 0), (233, item), (238, struct.pack("<I", 1))]))
    tr = list(list(p.arrangements)[0].tracks)[0]
    tr[0].pattern = list(p.patterns)[1]
    tr = list(list(p.arrangements)[0].tracks)[0]
    assert tr[0].pattern.iid == 4096
""", "a pattern number sharing bits with the pattern base", "the reference loses a bit")

seed("c22-rev", "C22", [(CH, "            return ReverbType.B if event.value >= ReverbType.B else ReverbType.A", "            return ReverbType.B if event.value > ReverbType.B else ReverbType.A")], """
    p = parse(flp(channels_head() + channel(extra=[(139, 65536)])))
    r = list(p.channels)[0].fx.reverb
    assert (r.type, r.mix) == (65536, 0), (r.type, r.mix)
""", "a reverb of type B with a mix of zero", "the type is read as A with a mix beyond its range")

seed("c22-tm", "C22", [("pyflp/timemarker.py", "            if event.value < TimeMarkerType.Signature:\n                return event.value", "            if event.value <= TimeMarkerType.Signature:\n                return event.value")], """
    p = parse(flp([(99, 0), (148, 134217728), (205, text("m"))]))
    m = list(list(p.arrangements)[0].timemarkers)[0]
    assert m.position == 0
""", "a time signature at the very start", "its position includes the type offset")

seed("c22-build", "C22", [(PR, "        if len(parts) == 4 and ProjectID.FLBuild in self.events.ids:", "        if len(parts) == 4 and parts[3] and ProjectID.FLBuild in self.events.ids:")], """
    p = parse(flp([(159, 77)], version="20.8.4.77"))
    p.version = "20.8.4.0"
    assert [e.value for e in p.events if e.id == 159] == [0]
""", "a version with build number zero", "the build number event keeps the old build")
seed("c10-default", "C10", [(DE, """        if event is not None:
            return self._get(event)

        return self.default""", """        if event is not None:
            value = self._get(event)
            return value or self.default if self.default else value

        return self.default""")], """
    p = parse(flp(channels_head() + channel(extra=[(135, 0)])))
    assert list(p.channels)[0].keyboard.root_note == 0
""", "a root note of zero", "a stored zero is replaced by the default")

seed("c19-slot", "C19", [(MI, "        FruitySoftClipper,\n        FruityStereoEnhancer,", "        FruityStereoEnhancer,")], """
    from pyflp.plugin import FruitySoftClipper
    p = parse(flp([(236, b"\\0" * 12), (201, text("Fruity Soft Clipper")), (212, b"\\0" * 52), (213, b"\\0" * 8), (98, 0), (154, 0), (147, 0)]))
    assert isinstance(list(list(p.mixer)[0])[0].plugin, FruitySoftClipper)
""", "a mixer slot with Fruity Soft Clipper", "its plugin reads as None")

seed("c20-eqorder", "C20", [(MI, """            elif id == self._ids.gain:
                items["gain"] = param
            elif""", """            elif id == self._ids.gain and "freq" not in items:
                items["gain"] = param
            elif""")], """
    rec = lambda id, msg: struct.pack("<4sBBHi", b"", id, 0, 0, msg)
    p = parse(flp([(236, b"\\0" * 12), (154, 0), (147, 0), (225, rec(217, 8) + rec(209, 7))]))
    m = list(p.mixer)[0].eq.mid
    assert (m.gain, m.freq) == (7, 8), (m.gain, m.freq)
""", "an EQ band whose frequency record precedes its gain record", "the gain reads as None")
