#!/usr/bin/env python3
"""Run the checks against the planted bugs in scratch copies. usage: runseeds.py [--all-checks] [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
args = sys.argv[1:]
allc = "--all-checks" in args
ids = [a for a in args if not a.startswith("-")]
props = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
for sid in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    if ids and sid not in ids:
        continue
    meta = json.load(open(os.path.join(ROOT, "seeded", sid, "meta.json")))
    wt = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    shutil.rmtree(wt)
    shutil.copytree("/repo", wt, symlinks=True)
    subprocess.run(["git", "apply", os.path.join(ROOT, "seeded", sid, "patch.diff")], cwd=wt, check=True)
    for p in (props if allc else [meta["property"]]):
        if p not in props:
            print(sid, p, "NO CHECK", flush=True)
            continue
        r = subprocess.run([sys.executable, "check.py", p, "--repo", wt], cwd=ROOT, capture_output=True, text=True)
        first = r.stdout.splitlines()[:1]
        if not allc or r.returncode:
            print(sid, p, {0: "MISSED", 1: "CAUGHT"}.get(r.returncode, "BROKEN"), " ".join(first)[:170], flush=True)
    shutil.rmtree(wt)
