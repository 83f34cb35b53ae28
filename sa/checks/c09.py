"""Every property of the place table read on an abstract project with unknown
payloads is the term the format prescribes for it: which event of which
entity, byte offset, width, signedness, flag bit, text encoding, enumeration.
Where several events can hold a value, the first of the preference order is
left out and the next one must be read.  Setting it must change exactly that
place in the saved file.  Every public property of every model reached can be
read."""
from ..prop import *
from ..enumtab import enum_cases
from ..special import get_cases, key_cases, set_cases, shown_cases
from ..trip import spread

FLOOR = 1500


def run(rep, make):
    lab = make()
    prepare(lab)
    P = load()
    B = bases(lab, P, P)
    jobs = []
    for pl in P:
        b = B[base_key(pl)]
        jobs.append((pl.name, b, get_job(lab, pl)))
        if "ro" in pl.opts:
            continue
        if "bit" in pl.fam():
            jobs += [(f"{pl.name} = {v}", b, set_job(lab, pl, v)) for v in (True, False)]
        else:
            jobs.append((pl.name + " set", b, set_job(lab, pl)))
    for path in UNPLACED:
        pl = Place(path + " | - 0 0 any")
        jobs.append((path, B[(None, None, ())], readable_job(lab, pl)))
    spread(rep, enum_cases(lab) + get_cases(lab, P) + shown_cases(lab), lab)
    collect(rep, jobs)
    rep.extra["places"] = len(P)


UNPLACED = ["arrangements*[0].tracks*[0]*[0].muted"]  # properties without a known place


def readable_job(lab, pl):
    def run(st, ctx):
        try:
            public(lambda: lab.walk(st["p"], pl.path), "getting " + pl.path)
        except Lost as e:
            return [("get", NE, str(e), pl.path)], ctx.facts()
        return [("get", EQ, "", pl.path)], ctx.facts()

    return run
