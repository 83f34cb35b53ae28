"""For every property stored as one bit of a flags word (and every stored as a
whole boolean byte): its value is exactly that bit of an unknown word; setting
it to True or False yields the word with only that bit changed, in the saved
file and nowhere else; no two properties of one word share a bit."""
from ..prop import *

FLOOR = 400


def run(rep, make):
    lab = make()
    prepare(lab)
    P = load()
    rows = [p for p in P if "bit" in p.fam()]
    B = bases(lab, rows, P)
    jobs = []
    for pl in rows:
        b = B[base_key(pl)]
        jobs.append((f"{pl.name}", b, get_job(lab, pl)))
        jobs += [(f"{pl.name} = {v}", b, set_job(lab, pl, v)) for v in (True, False)]
    collect(rep, jobs)
    rep.extra["flag properties"] = len(rows)
