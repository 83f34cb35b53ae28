"""Numbers the format gives to the members of public enumerations."""
from __future__ import annotations

from .prop import *

TABLE = """
pyflp.channel.ArpDirection Off=0 Up=1 Down=2 UpDownBounce=3 UpDownSticky=4 Random=5
pyflp.channel.ChannelType Sampler=0 Native=2 Layer=3 Instrument=4 Automation=5
pyflp.channel.DeclickMode OutOnly=0 TransientNoBleeding=1 Transient=2 Generic=3 Smooth=4 Crossfade=5
pyflp.channel.FilterType FastLP=0 LP=1 BP=2 HP=3 BS=4 LPx2=5 SVFLP=6 SVFLPx2=7
pyflp.channel.LFOShape Sine=0 Triangle=1 Pulse=2
pyflp.channel.ReverbType A=0 B=65536
pyflp.channel.StretchMode Stretch=-1 Resample=0 E3Generic=1 E3Mono=2 SliceStretch=3 SliceMap=4 Auto=5 E2Generic=6 E2Transient=7 E2Mono=8 E2Speech=9
pyflp.plugin.WrapperPage Editor=0 Settings=1 Sample=3 Envelope=4 Miscellaneous=5
pyflp.project.FileFormat None_=-1 Project=0 Score=16 Automation=24 ChannelState=32 PluginState=48 GeneratorState=49 FXState=50 InsertState=64
pyflp.project.PanLaw Circular=0 Triangular=2
pyflp.arrangement.TrackMotion Stay=0 OneShot=1 MarchWrap=2 MarchStay=3 MarchStop=4 Random=5 ExclusiveRandom=6
pyflp.arrangement.TrackPress Retrigger=0 HoldStop=1 HoldMotion=2 Latch=3
pyflp.arrangement.TrackSync Off=0 QuarterBeat=1 HalfBeat=2 Beat=3 TwoBeats=4 FourBeats=5 Auto=6
pyflp.timemarker.TimeMarkerType Marker=0 Signature=134217728
"""


def enum_cases(lab, only=None):
    """("enumeration", key, fn): every member exists and has the format's number, and the number gives that member."""
    it = lab.it
    out = []

    def member(dotted, name, num):
        def fn(ctx):
            try:
                c = lab.cls(dotted)
                m = public(lambda: it.getattr(c, name), f"{dotted}.{name}")
                v = public(lambda: it.getattr(m, "value"), f"{dotted}.{name}.value")
                b = public(lambda: it.call(c, [num]), f"{dotted}({num})")
            except Lost as x:
                return NE, str(x)
            if v != num:
                return NE, f"{dotted}.{name} is {show(v)}, the format has {num}"
            return (EQ if b is m else NE), f"{dotted}({num}) is {show(b)}, not {name}"

        return ("enumeration", f"{dotted}.{name}", fn)

    for line in TABLE.split("\n"):
        dotted, _, rest = line.partition(" ")
        if dotted and (only is None or dotted in only):
            out += [member(dotted, *(lambda n, v: (n, int(v)))(*x.split("="))) for x in rest.split()]
    return out
