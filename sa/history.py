"""Files parsed before the one examined: what they leave behind must not matter."""
from __future__ import annotations

from .trip import *

EARLIER = ("that ends with a plugin name", "whose text is ASCII", "without a version", "of an unknown plugin", "that ends within an event", "with a corrupt header", "saved again")


def earlier(lab, ctx, kind, n=0):
    """Parse another file, whose contents are unknown where they can be."""
    t, a = Text(lab, ctx), Text(lab, ctx, False)
    name = f"earlier{n}.flp"
    new = ver_event("20.8.4")
    try:
        if kind == "that ends with a plugin name":
            lab.parse(flp([new, (203, t("E.Name")), (201, t.const("BooBass"))], ppq=960, channels=7), name)
        elif kind == "whose text is ASCII":
            lab.parse(flp([ver_event("9.0.0"), (201, a.const("Fruity Balance")), (213, source("E.Data", 8)), (203, a("E.Name"))], ppq=960), name)
        elif kind == "without a version":
            lab.parse(flp([(64, source("E.Chan", 2)), (0, source("E.On", 1))]), name)
        elif kind == "of an unknown plugin":
            lab.parse(flp([new, (201, t.const("Sytrus")), (213, source("E.Data", 8))]), name)
        elif kind == "that ends within an event":
            d = flp([new, (201, t.const("Fruity Send")), (213, source("E.Data", 16))])
            lab.parse(d.cut(0, len(d) - 3), name)
        elif kind == "with a corrupt header":
            lab.parse(flp([new, (201, t.const("Plucked!"))], magic=b"FLhx\6\0\0\0"), name)
        elif kind == "saved again":
            p = lab.parse(flp([new, (201, t.const("Fruity Center")), (213, source("E.Data", 8)), (194, t("E.Title"))]), name)
            lab.it.setattr(p, "title", "changed")
            lab.save(p, "earlier.out.flp")
        else:
            raise AssertionError(kind)
    except PyRaise:
        pass
