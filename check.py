#!/usr/bin/env python3
"""Decide one property of PyFLP from the source in /repo.

usage: check.py C08 [--tier quick|thorough] [--repo DIR]

exit 0: the property holds on everything analysed
exit 1: a violation was found (line "VIOLATION property=... replay=...")
exit 2: the analysis could not be performed
"""
from __future__ import annotations

import argparse
import gc
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known_findings(prop):
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("known:"):
                head, key, what = [x.strip() for x in line[6:].split("|")]
                if head == f"property={prop}":
                    out.append((key, what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    t0 = time.time()
    from sa import pool
    from sa.harness import Lab, Report, exc_name
    from sa.terms import NE
    from sa.values import PyRaise

    mod = importlib.import_module("sa.checks." + a.prop.lower())
    rep = Report(a.prop)
    rep.tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    rep.root = a.repo
    known = known_findings(a.prop)
    rep.known = {k for k, _ in known}
    if rep.tier == "thorough":
        pool.DEADLINE[0] = t0 + 3000
    failed = None
    gc.disable()
    try:
        mod.run(rep, lambda: Lab(a.repo))
    except PyRaise as e:  # the library raises while a legal project is parsed or a view of it is built
        rep.ob("legal project", "raises " + exc_name(e), NE, f"an operation on a legal project raises {exc_name(e)}: {e}")
    except Exception as e:  # noqa: BLE001 - reported as analysis failure below
        failed = "".join(traceback.format_exception(e))[-3000:]

    hit, viol = {}, []
    for key, text in rep.violations:
        for k, what in known:
            if key == k:
                hit[k] = what
                break
        else:
            viol.append((key, text))
    outdir = os.path.join(HERE, "out")
    os.makedirs(outdir, exist_ok=True)
    groups = {}
    for key, text in viol:
        groups.setdefault(key, []).append(text)
    lines = []
    for n, (key, texts) in enumerate(list(groups.items())[:8]):
        path = os.path.join(outdir, f"{a.prop}-{n}.txt")
        with open(path, "w") as f:
            f.write(f"property: {a.prop}\nrule and construct: {key}\n")
            for t in texts[:10]:
                f.write(f"\n{t}\n")
            f.write(f"\nto repeat: cd {HERE} && python3 check.py {a.prop} --tier {rep.tier}\n")
        lines.append(f"VIOLATION property={a.prop} replay={path}")
        print(f"{key}: {texts[0][:600]}")
    floor = getattr(mod, "FLOOR", 1)
    broken = failed or (not viol and rep.decided < floor // 10 + 1)
    for k, what in hit.items():
        print(f"KNOWN-FINDING: property={a.prop} {what}")
    for key, text in rep.undecided[:10]:
        print(f"UNDECIDED {key}: {text[-300:]}")
    ev = {
        "property": a.prop, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": " ".join((mod.__doc__ or "").split()),
            "obligations": rep.obligations, "decided": rep.decided, "undecided": len(rep.undecided), "paths": rep.paths,
            "violations": len(viol), "known_findings": len(hit),
            "rules": rep.rules, "samples": rep.samples, "undecided_samples": [f"{k}: {t[-200:]}" for k, t in rep.undecided[:20]],
            **rep.extra,
        },
        "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{a.prop}: {rep.obligations} obligations on {rep.paths} paths, {rep.decided} decided, {len(rep.undecided)} undecided, "
          f"{len(viol)} violated, {time.time() - t0:.1f} s")
    if viol:
        print("\n".join(lines))
        return 1
    if broken:
        print("the analysis could not be performed: " + (failed or f"only {rep.decided} of at least {floor} obligations were decided"))
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
