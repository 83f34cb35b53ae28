#!/usr/bin/env python3
"""Systematic small edits of the source, to find what the checks miss.

usage: mutate.py gen OUT [seed] [count]   write mutants that pass the stable tests to OUT/<n>.diff
       mutate.py run OUT [checks...]      run the checks against each, stopping at the first that reports
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, copy
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
FILES = ["__init__", "_adapters", "_descriptors", "_events", "_models", "arrangement", "channel", "mixer", "pattern", "plugin", "project", "timemarker", "types", "exceptions"]
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mod, ast.Mod: ast.FloorDiv, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitXor, ast.LShift: ast.RShift, ast.RShift: ast.LShift}


def sites(tree, src):
    """[(line, description, start, end, replacement)] on the source text."""
    out = []
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new, what):
        a, b = span(n)
        new = new if isinstance(new, str) else ast.unparse(new)
        if raw[a:b].decode() != new:
            out.append((n.lineno, what, a, b, new))

    members = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id[:1].isupper() or isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id.startswith("_") and n.value.id[1:2].isupper():
            members.setdefault(n.value.id, set()).add(n.attr)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            for m in n.body:
                for k in ast.walk(m):
                    skip.add(id(k))
        if isinstance(n, (ast.FunctionDef,)):
            for a in [n.returns] + [x.annotation for x in n.args.args]:
                if a is not None:
                    for k in ast.walk(a):
                        skip.add(id(k))
        if isinstance(n, ast.AnnAssign):
            for k in ast.walk(n.annotation):
                skip.add(id(k))
        if isinstance(n, ast.JoinedStr):
            for k in ast.walk(n):
                skip.add(id(k))
        if isinstance(n, ast.Raise) and n.exc is not None:
            for k in ast.walk(n.exc):
                skip.add(id(k))
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__"):
            for k in ast.walk(n):
                skip.add(id(k))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("TypeVar", "cast"):
            for k in ast.walk(n):
                skip.add(id(k))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "__all__":
            for k in ast.walk(n):
                skip.add(id(k))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            m = copy.copy(n)
            m.ops = [CMP[type(n.ops[0])]()]
            rep(n, "(" + ast.unparse(m) + ")", "comparison")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and isinstance(n.op, (ast.LShift, ast.Add)):
            if isinstance(n.op, ast.Div):
                continue
            m = copy.copy(n)
            m.op = BIN[type(n.op)]()
            rep(n, "(" + ast.unparse(m) + ")", "operator")
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            m = copy.copy(n)
            m.op = BIN[type(n.op)]()
            rep(n, m, "augmented")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            rep(n, str(n.value + 1), "constant+1")
            if n.value > 0:
                rep(n, str(n.value - 1), "constant-1")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            rep(n, str(not n.value), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, n.operand, "not removed")
        elif isinstance(n, ast.BoolOp):
            m = copy.copy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            rep(n, "(" + ast.unparse(m) + ")", "and/or")
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in members and n.value.id not in ("TYPE_CHECKING",):
            ms = sorted(members[n.value.id])
            if len(ms) > 1:
                k = ms.index(n.attr)
                rep(n, f"{n.value.id}.{ms[(k + 1) % len(ms)]}", "member")
        elif isinstance(n, (ast.Continue, ast.Break)):
            rep(n, "pass", "jump removed")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            rep(n, "return None", "returns None")
        elif isinstance(n, ast.Raise):
            rep(n, "pass", "raise removed")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, "pass", "call removed")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, "pass", "assignment removed")
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
            rep(n, f"({ast.unparse(n.elts[1])}, {ast.unparse(n.elts[0])})", "pair swapped")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "c" or isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "c":
            t = n if isinstance(n, ast.Attribute) else None
            if t is not None:
                sw = {"Int32ul": "Int32sl", "Int32sl": "Int32ul", "Int16ul": "Int16sl", "Int8ul": "Int8sl", "Byte": "Int8sl", "Int8sl": "Int8ul", "Int16sl": "Int16ul", "Float32l": "Int32sl", "Float64l": "Int64sl", "Flag": "Int8ul"}.get(t.attr)
                if sw:
                    rep(t, "c." + sw, "signedness")
        elif isinstance(n, ast.Call) and n.keywords:
            for kw in n.keywords:
                if kw.arg in ("default", "inverted", "readonly"):
                    m = copy.copy(n)
                    m.keywords = [k for k in n.keywords if k is not kw]
                    rep(n, m, f"{kw.arg} dropped")
    return out


def mutants():
    out = []
    fixed = {}
    base = subprocess.run(["git", "diff", "-U0", "3d93a6a", "HEAD", "--", "."], cwd="/repo", capture_output=True, text=True).stdout
    f = None
    import re
    for l in base.splitlines():
        if l.startswith("+++ b/"):
            f = l[6:]
        m = re.match(r"@@ -\S+ \+(\d+)(?:,(\d+))? @@", l)
        if m:
            a, k = int(m.group(1)), int(m.group(2) or 1)
            fixed.setdefault(f, set()).update(range(a, a + k))
    import glob
    for p in sorted(glob.glob("/repo/pyflp/**/*.py", recursive=True)):
        rel = os.path.relpath(p, "/repo")
        if "controller" in rel:
            continue
        src = open(p).read()
        for s in sites(ast.parse(src), src):
            if s[0] not in fixed.get(rel, ()):
                out.append((rel,) + s)
    return out


def apply(wt, m):
    rel, line, what, a, b, new = m
    p = os.path.join(wt, rel)
    raw = open(p, "rb").read()
    if m[2] in ("call removed", "assignment removed", "raise removed"):
        pass
    open(p, "wb").write(raw[:a] + new.encode() + raw[b:])


def gen(out, seed, count):
    from plant import stable
    os.makedirs(out, exist_ok=True)
    ms = mutants()
    rnd = random.Random(seed)
    # even spread over files and kinds
    groups = {}
    for m in ms:
        groups.setdefault((m[0], m[2]), []).append(m)
    for g in groups.values():
        rnd.shuffle(g)
    order = []
    while any(groups.values()):
        ks = sorted(groups)
        rnd.shuffle(ks)
        for k in ks:
            if groups[k]:
                order.append(groups[k].pop())
    print(len(ms), "sites", flush=True)
    n = [0]

    def one(m):
        if n[0] >= count:
            return None
        wt = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
        shutil.rmtree(wt)
        shutil.copytree("/repo", wt, symlinks=True)
        try:
            apply(wt, m)
            try:
                ast.parse(open(os.path.join(wt, m[0])).read())
                miss = stable(wt)
            except Exception as e:
                return None
            if miss:
                return None
            d = subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True).stdout
            if not d:
                return None
            n[0] += 1
            k = n[0]
            open(os.path.join(out, f"{k:03d}.diff"), "w").write(d)
            print(k, m[0], m[1], m[2], m[5][:60].replace("\n", " "), flush=True)
        finally:
            shutil.rmtree(wt, ignore_errors=True)

    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, order[: count * 6]))


ORDER = "C03 C05 C02 C04 C06 C07 C17 C19 C01 C12 C11 C20 C15 C22 C13 C14 C10 C21 C16 C18 C08 C09".split()


def run(out, checks):
    log = os.path.join(out, "log.txt")
    done = {l.split()[0] for l in open(log)} if os.path.exists(log) else set()
    for f in sorted(os.listdir(out)):
        if not f.endswith(".diff") or f[:-5] in done:
            continue
        wt = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
        shutil.rmtree(wt)
        shutil.copytree("/repo", wt, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(os.path.abspath(out), f)], cwd=wt, check=True)
        res = "MISSED"
        broken = []
        for p in checks or ORDER:
            r = subprocess.run([sys.executable, "check.py", p, "--repo", wt], cwd=ROOT, capture_output=True, text=True)
            if r.returncode == 1:
                res = f"{p} {r.stdout.splitlines()[0][:150]}"
                break
            if r.returncode != 0:
                broken.append(p)
        with open(log, "a") as l:
            l.write(f"{f[:-5]} {res}{' BROKEN ' + ','.join(broken) if broken else ''}\n")
        shutil.rmtree(wt)


if sys.argv[1] == "gen":
    gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 1, int(sys.argv[4]) if len(sys.argv) > 4 else 80)
else:
    run(sys.argv[2], sys.argv[3:])
