#!/usr/bin/env python3
"""Build /verif/seeded from seeds.py, confirming each planted bug in a scratch copy.

usage: plant.py [id ...]      (confirm and write)
"""
import json, os, shutil, subprocess, sys, tempfile, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
OUT = os.path.join(os.path.dirname(HERE), "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=env, **kw)


def stable(wt):
    xml = os.path.join(wt, ".junit.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o", "junit_family=xunit2", f"--junitxml={xml}"], wt, timeout=600)
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(xml).iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add(f"{tc.get('classname')}::{tc.get('name')}")
    os.remove(xml)
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return want - ok


def one(s):
    wt = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    shutil.rmtree(wt)
    shutil.copytree("/repo", wt, symlinks=True)
    try:
        d = os.path.join(OUT, s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(os.path.join(HERE, "flpkit.py"), d)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom flpkit import *\n" + textwrap.dedent(s["demo"]).strip() + "\nprint('ok')\n")
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        demo = ["bash", os.path.join(d, "demo.sh")]
        a = sh(demo, wt, timeout=250)
        if a.returncode:
            return "demo fails on the unchanged tree: " + a.stderr[-400:]
        for fn, old, new in s["edits"]:
            p = os.path.join(wt, fn)
            t = open(p).read()
            if t.count(old) != 1:
                return f"{fn}: {t.count(old)} matches of {old!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], wt).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        base = sh(["git", "diff", "3d93a6a", "HEAD", "--", "."], "/repo").stdout
        added = {l[1:] for l in base.splitlines() if l.startswith("+") and not l.startswith("+++")}
        mine = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:] in added and len(l.strip()) > 6]
        miss = stable(wt)
        if miss:
            return f"{len(miss)} stable tests fail: {sorted(miss)[:3]}"
        b = sh(demo, wt, timeout=250)
        if b.returncode == 0:
            return "demo passes with the patch"
        return "OK" + (f" (touches lines of fix commits: {mine})" if mine else "") + " | " + (b.stderr.strip().splitlines() or ["?"])[-1][:120]
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    ids = sys.argv[1:]
    for s in SEEDS:
        if not ids or s["id"] in ids:
            r = one(s)
            print(s["id"], s["property"], r, flush=True)
            if not r.startswith("OK"):
                shutil.rmtree(os.path.join(OUT, s["id"]), ignore_errors=True)
