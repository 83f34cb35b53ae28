"""A plugin assigned to another slot or channel is a copy, not the same one."""
from __future__ import annotations

from .checks.c19 import EFFECTS, GENS, studio
from .layouts import *


def share_cases(lab, across=(True, False)):
    it = lab.it
    cases = []

    def shared(gens, effects, dst, src, cross, back):
        def fn(ctx):
            b = Layout(lab, ctx)
            where = studio(b, gens, effects)
            d = donor(b, ctx)
            try:
                p = public(lambda: lab.parse(b.file()), "parsing")
                q = public(lambda: lab.parse(d.file(), "donor.flp"), "parsing") if cross else p
                s = public(lambda: lab.walk(q, where[src][0] + ".plugin"), "getting the source plugin")
                o = public(lambda: lab.walk(p, where[dst][0]), "reaching the target")
                public(lambda: it.setattr(o, "plugin", s), "assigning it")
                pre = public(lambda: lab.save(p, "a.flp"), "saving"), public(lambda: lab.save(q, "b.flp"), "saving")
                if back:
                    t, keep, what = public(lambda: lab.walk(q, where[src][0] + ".plugin"), "plugin"), (p, where[dst][0]), "the assigned one"
                else:
                    t, keep, what = public(lambda: lab.walk(p, where[dst][0] + ".plugin"), "plugin"), (q, where[src][0]), "the one it was taken from"
                old = public(lambda: lab.walk(keep[0], keep[1] + ".plugin.width"), "width")
                public(lambda: it.setattr(t, "width", 12345), "setting width")
                now = public(lambda: lab.walk(keep[0], keep[1] + ".plugin.width"), "width")
                r = same(now, old, ctx)
                if r != EQ:
                    return r, f"after {where[dst][0]}.plugin = {where[src][0]}.plugin, setting width of the other changes it in {what}"
                got = public(lambda: lab.walk(t, "width"), "width")
                if got != 12345:
                    return NE, f"width set to 12345 reads {show(got)}"
                if cross:
                    f = public(lambda: lab.save(keep[0], "c.flp"), "saving")
                    w = pre[0] if keep[0] is p else pre[1]
                    r = same(f, w, ctx)
                    if r != EQ:
                        return r, "the other project is saved differently"
            except Lost as e:
                return NE, str(e)
            return EQ, ""

        return fn

    for i, n in enumerate(EFFECTS):
        for cross in across:
            for back in (True, False):
                cases.append(("plugin assigned", f"{n}, {'another project' if cross else 'the same project'}, {'source' if back else 'target'} changed",
                              shared([], [EFFECTS[i - 1], n], "I0.s0", "I0.s1", cross, back)))
    for i, n in enumerate(GENS):
        for cross in across:
            for back in (True, False):
                cases.append(("plugin assigned", f"channel {n}, {'another project' if cross else 'the same project'}, {'source' if back else 'target'} changed",
                              shared([GENS[i - 1], n], [], "C0", "C1", cross, back)))
    return cases
