"""For every model object of the abstract projects: all its public attributes
are read, it is iterated, indexed, sliced, counted, compared and printed; then
the events of the project must be the same objects in the same order and the
saved file must be the one read.  The effect trace of parse() and of all reads
must hold nothing but opening the given file for reading; and in the call
graph of the package every function that opens a file for writing, or removes
or renames one, must be reachable from save() only."""
import ast

from ..layouts import *
from .c17 import package

FLOOR = 300
FILE_OPS = {"open", "write", "replace", "rename", "remove", "unlink", "truncate", "write_bytes", "write_text", "mkdir", "rmdir", "touch", "copy", "copyfile", "move", "makedirs", "chmod"}


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    P = load()
    writers(rep, lab)
    jobs = []

    def has(o, name):
        return any(name in getattr(k, "ns", {}) for k in it.mro(o.cls))

    def attributes(o):
        out = []
        for k in it.mro(o.cls):
            for n, v in getattr(k, "ns", {}).items():
                if not n.startswith("_") and n not in out and not isinstance(v, (FuncVal, StaticVal, ClassMethodVal)):
                    out.append(n)
        return out

    def quiet(fn):
        """Whatever a read gives: errors are the business of other properties."""
        try:
            return fn()
        except PyRaise:
            return None

    def examine(o, ops):
        if "attributes" in ops or "some attributes" in ops:
            for n in attributes(o):
                if "some attributes" in ops and n in ("routes", "dock"):
                    continue
                v = quiet(lambda: it.getattr(o, n))
                if isinstance(v, VIter):
                    quiet(lambda: lab.items(v))
        if "container" in ops and isinstance(o, Instance):
            if has(o, "__iter__"):
                quiet(lambda: lab.items(o))
                quiet(lambda: lab.items(o))
            if has(o, "__len__"):
                quiet(lambda: it.call(Ext("builtins.len"), [o]))
            if has(o, "__getitem__"):
                for k in (0, 1, -1, 99, VSlice(None, None, None), VSlice(0, 1, None)):
                    quiet(lambda: it.getitem(o, k))
            quiet(lambda: it.call(Ext("builtins.bool"), [o]))
        if "lookup" in ops and has(o, "__getitem__"):
            quiet(lambda: it.getitem(o, "no such name"))
        for a in ops:
            if a.startswith("."):
                v = quiet(lambda: it.getattr(o, a[1:]))
                if isinstance(v, VIter):
                    quiet(lambda: lab.items(v))
        if "compare" in ops and isinstance(o, Instance):
            if has(o, "__eq__"):
                quiet(lambda: it.compare("eq", o, o))
                quiet(lambda: it.compare("ne", o, o))
                quiet(lambda: it.compare("eq", o, 3))
        if "print" in ops:
            quiet(lambda: it.call(Ext("builtins.repr"), [o]))
            quiet(lambda: it.call(Ext("builtins.str"), [o]))

    def job(path, ops, what=None):
        def run(st, ctx):
            p = st["p"]
            before = lab.items(it.getattr(p, "events"))
            n0 = len(ctx.effects)
            try:
                o = public(lambda: lab.walk(p, path) if path else p, "reaching " + path)
                (what or examine)(o, ops)
            except Lost as e:
                return [("reachable", NE, str(e), path)], ctx.facts()
            out = []
            fx = [e for e in ctx.effects[n0:] if e[0] in FILE_OPS]
            out.append(("no file operation", NE if fx else EQ, f"reading {path or 'the project'} ({', '.join(ops)}) touches a file: {fx[:2]}", path))
            after = lab.items(it.getattr(p, "events"))
            ok = len(before) == len(after) and all(a is b for a, b in zip(before, after))
            out.append(("same events", EQ if ok else NE, f"reading {path or 'the project'} ({', '.join(ops)}) changes the events of the project: {len(before)} before, {len(after)} after, or their order", path))
            try:
                f = public(lambda: lab.save(p), "saving")
            except Lost as e:
                return out + [("saved unchanged", NE, f"after reading {path} ({', '.join(ops)}): {e}", path)], ctx.facts()
            r = same(f, st["data"], ctx)
            out.append(("saved unchanged", r, "" if r == EQ else f"after reading {path or 'the project'} ({', '.join(ops)}) the saved file differs: " + (
                f"{len(f)} instead of {len(st['data'])} bytes" if len(f) != len(st["data"]) else str([(show(x), show(y)) for x, y in diff_bytes(f, st["data"])])[:300]), path))
            return out, ctx.facts()

        return run

    LOOKUPS = ("channels", "patterns", "arrangements", "mixer", "mixer*[1]")
    OPS = (("some attributes",), ("container", "compare"), ("print",))
    owners, seen = {}, set()
    for pl in P:
        if "len" in pl.opts or "without" in pl.opts:
            continue
        k = base_key(pl)
        parts = pl.owner
        while parts:
            owners.setdefault((k, parts), pl)
            parts = lab.split(parts)[0] if "." in parts or True else ""
            if "." not in parts and "*" not in parts and "[" not in parts:
                if parts:
                    owners.setdefault((k, parts), pl)
                break
    B = {}
    none = (None, None, ())
    owners.setdefault((none, ""), None)
    for extra in ("channels", "patterns", "arrangements", "mixer", "arrangements.current", "patterns.current", "mixer*[0]", "mixer*[3]", "channels*[0].group"):
        owners.setdefault((none, extra), None)
    for (k, path), pl in owners.items():
        if k not in B:
            B[k] = Base(lab, setup_for(lab, k, P, with_donor=False))
        for ops in OPS + ((("lookup",),) if path in LOOKUPS else ()) + (((".routes",), (".dock",)) if re.fullmatch(r"mixer\*\[\d\]", path) else ()):
            jobs.append((f"{path or 'project'} {k[0]} ({', '.join(ops)})", B[k], job(local(path, k) if path else "", ops)))

    # ------------------------------------------------------ the event tree itself
    def tree(o, ops):
        ev = it.getattr(o, "events")
        eid = lambda i: it.call(lab.cls("pyflp._events.EventEnum"), [i])
        m = lambda name, *a: quiet(lambda: it.call(it.getattr(ev, name), list(a)))
        for name in ("ids", "indexes", "root", "parent"):
            quiet(lambda: it.getattr(ev, name))
        for i in (199, 64, 203, 5, 98):
            m("count", eid(i)), m("first", eid(i)), lab.items(m("get", eid(i)))
            quiet(lambda: it.contains(ev, eid(i)))
            lab.items(m("separate", eid(i)))
            lab.items(m("divide", eid(i), eid(203), eid(i)))
            lab.items(m("group", eid(i), eid(203)))
        sel = it.native("select", lambda i, a, k: True)
        m("subtree", sel)
        lab.items(m("subtrees", sel, 3))
        quiet(lambda: it.call(Ext("builtins.len"), [ev])), quiet(lambda: it.call(Ext("builtins.repr"), [ev])), quiet(lambda: it.compare("eq", ev, ev))

    def events(part):
        def f(o, ops):
            for n, e in enumerate(lab.items(it.getattr(o, "events"))):
                if n % 8 != part:
                    continue
                quiet(lambda: it.getattr(e, "size")), quiet(lambda: it.getattr(e, "value"))
                quiet(lambda: it.call(Ext("builtins.bytes"), [e])), quiet(lambda: it.call(Ext("builtins.bytes"), [e]))
                quiet(lambda: it.compare("eq", e, e)), quiet(lambda: it.compare("ne", e, e)), quiet(lambda: it.call(Ext("builtins.repr"), [e]))
                if has(e, "__len__"):
                    quiet(lambda: it.call(Ext("builtins.len"), [e])), quiet(lambda: lab.items(e))

        return f

    jobs.append(("event tree", B[none], job("", ("event tree",), tree)))
    for part in range(8):
        jobs.append((f"events {part}", B[none], job("", (f"every event, part {part}",), events(part))))

    # ----------------------------------------------------- other shapes of project
    for name in LAYOUTS:
        for ver, uni in VERS.get(name, [("20.8.4", True)]):
            base = Base(lab, layout_setup(lab, name, P, ver, uni))
            paths = ["", "channels", "patterns", "arrangements", "mixer"] + [p for _, p, _ in base.state["b"].ents]
            for path in paths:
                jobs.append((f"{name} ({ver}) {path or 'project'}", base, job(path, ("some attributes", "container"))))

    # ------------------------------------------------------------- parse() itself
    def parse_effects(st, ctx):
        fx = [e for e in ctx.effects if e[0] in FILE_OPS]
        bad = [e for e in fx if not (e[0] == "open" and e[1] == "in.flp" and e[2].replace("b", "") == "r")]
        return [("parse only reads", NE if bad or not fx else EQ, f"parse() does something else than opening its file for reading: {bad[:3]}", "pyflp.parse")], ctx.facts()

    for k in B:
        jobs.append((f"parse {k}", B[k], parse_effects))
    collect(rep, jobs, max_paths=100)
    rep.extra["objects read"] = len(owners)


# --------------------------------------------------------------------- effects
WRITE_METHODS = {"write_bytes", "write_text", "unlink", "rmdir", "mkdir", "touch", "symlink_to", "hardlink_to", "truncate"}
MODULES = {"os": {"remove", "unlink", "rename", "replace", "rmdir", "mkdir", "makedirs", "removedirs", "truncate", "open", "system", "popen", "chmod", "link", "symlink"},
           "shutil": None, "subprocess": None, "tempfile": None}


def file_write(node):
    """Is this call a file-writing effect?"""
    f = node.func
    if isinstance(f, ast.Name) and f.id == "open" or isinstance(f, ast.Attribute) and f.attr == "open" and not (isinstance(f.value, ast.Name) and f.value.id in ("os", "zipfile")):
        pos = 1 if isinstance(f, ast.Name) or isinstance(f.value, ast.Name) and f.value.id == "io" else 0
        mode = next((k.value for k in node.keywords if k.arg == "mode"), node.args[pos] if len(node.args) > pos else None)
        return isinstance(mode, ast.Constant) and isinstance(mode.value, str) and bool(set(mode.value) & set("wax+"))
    if isinstance(f, ast.Attribute):
        if f.attr in WRITE_METHODS:
            return True
        if isinstance(f.value, ast.Name) and f.value.id in MODULES:
            ns = MODULES[f.value.id]
            return ns is None or f.attr in ns
    return False


def writers(rep, lab):
    """Functions with a direct file-writing effect, and who can reach them."""
    funcs, calls, direct = {}, {}, {}
    for name, path in sorted(package(rep.root).items()):
        with open(path) as f:
            tree = ast.parse(f.read())

        def visit(node, owner):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = f"{owner}.{ch.name}"
                    funcs[q] = ch.name
                    calls.setdefault(q, set())
                    if owner in funcs:
                        calls[owner].add(ch.name)
                    visit(ch, q)
                elif isinstance(ch, ast.ClassDef):
                    visit(ch, f"{owner}.{ch.name}")
                else:
                    if isinstance(ch, ast.Call):
                        if owner in funcs:
                            fn = ch.func
                            calls[owner].add(fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else "")
                        if file_write(ch):
                            direct.setdefault(owner, []).append(f"{path}:{ch.lineno} {ast.unparse(ch)[:80]}")
                    visit(ch, owner)

        visit(tree, name)
    rep.extra["functions in the call graph"] = len(funcs)
    rep.extra["file-writing calls"] = {k: v for k, v in direct.items()}
    rep.ob("file effects", "functions examined", EQ, f"{len(funcs)}")
    for q, sites in direct.items():
        if q not in funcs:
            rep.ob("file effects", q, NE, f"{sites[0]}: a file is written when the module is imported")
            continue
        roots, todo, seen = set(), [q], {q}
        while todo:
            x = todo.pop()
            up = [c for c in calls if funcs[x] in calls[c] and c not in seen and c != x]
            if funcs[x] == "save" or not [c for c in calls if funcs[x] in calls[c] and c != x]:
                roots.add(x)
                continue
            seen |= set(up)
            todo += up
        bad = [r for r in roots if r != "pyflp.save" and not (funcs[r].startswith("_") and not funcs[r].startswith("__"))]
        rep.ob("file effects", q, NE if bad else EQ, f"{sites[0]}: a file is written by {q}, which is reachable from {bad[:3]}, not only from save()")
