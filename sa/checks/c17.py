"""The exception classes of all modules are resolved and their ancestors
compared with the documented ones; every raise of a library exception must
bind its constructor.  Then every documented failure is brought about in an
abstract project (header faults, cut files, text before the version, events
built with a wrong ID or size, absent events, keys that match nothing, empty
collections, absent and read-only properties, comparisons with foreign
objects, bad setter values) and the exception on every path must be an
instance of the documented library class and of its standard base."""
import ast
import os

from ..ext import isinstance_
from ..special import *
from ..trip import case, spread

FLOOR = 250
BASES = {
    "pyflp.exceptions.Error": ["Exception"],
    "pyflp.exceptions.EventIDOutOfRange": ["pyflp.exceptions.Error", "ValueError"],
    "pyflp.exceptions.InvalidEventChunkSize": ["pyflp.exceptions.Error", "BufferError"],
    "pyflp.exceptions.PropertyCannotBeSet": ["pyflp.exceptions.Error", "AttributeError"],
    "pyflp.exceptions.DataCorrupted": ["pyflp.exceptions.Error"],
    "pyflp.exceptions.HeaderCorrupted": ["pyflp.exceptions.Error", "pyflp.exceptions.DataCorrupted", "ValueError"],
    "pyflp.exceptions.NoModelsFound": ["pyflp.exceptions.Error", "pyflp.exceptions.DataCorrupted", "LookupError"],
    "pyflp.exceptions.ModelNotFound": ["pyflp.exceptions.Error", "pyflp.exceptions.DataCorrupted", "IndexError"],
    "pyflp.exceptions.VersionNotDetected": ["pyflp.exceptions.Error", "pyflp.exceptions.DataCorrupted"],
    "pyflp.channel.ChannelNotFound": ["pyflp.exceptions.Error", "pyflp.exceptions.DataCorrupted", "pyflp.exceptions.ModelNotFound", "IndexError", "KeyError"],
}
# path, value to assign: documented read-only
READONLY = [
    ("channels*[2]*[0].position", 1), ("created_on", 1), ("time_spent", 1), ("channels*[0].display_name", "x"), ("channels*[0].zipped", True), ("channels*[0].group", None),
    ("channels*[0].envelopes", None), ("channels*[0].lfos", None), ("channels*[0].tracking", None), ("channels.groups", None), ("channels.samplers", None), ("channels.layers", None),
    ("channels.instruments", None), ("channels.automations", None), ("mixer*[1].dock", None), ("mixer*[1].iid", 1), ("mixer*[1].routes", None), ("mixer*[1].eq", None), ("mixer.max_inserts", 1),
    ("mixer.max_slots", 1), ("patterns.current", None), ("patterns*[0].notes", None), ("patterns*[0].controllers", None), ("patterns*[0].timemarkers", None),
    ("patterns*[0].timemarkers*[0].position", 1), ("patterns*[0].timemarkers*[0].type", 1), ("arrangements*[0].timemarkers*[0].position", 1), ("arrangements*[0].timemarkers*[0].type", 1),
    ("arrangements.current", None), ("arrangements.max_tracks", 1), ("arrangements*[0].tracks", None), ("arrangements*[0].timemarkers", None), ("arrangements", None), ("channels", None),
    ("mixer", None), ("patterns", None),
]


def package(root):
    """Module name -> file of the analysed package."""
    out = {}
    top = os.path.join(root, "pyflp")
    for d, dirs, files in os.walk(top):
        dirs[:] = [x for x in dirs if not x.startswith("__pycache__")]
        for f in files:
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
                out[rel[:-9] if rel.endswith(".__init__") else rel] = os.path.join(d, f)
    return out


def ancestors(it, c):
    """Names of all ancestors of a class: dotted for the library's, plain for builtins."""
    import builtins

    out = set()
    for k in it.mro(c):
        if isinstance(k, Ext):
            b = getattr(builtins, k.path.split(".")[-1], None)
            out |= {x.__name__ for x in b.__mro__} if isinstance(b, type) else set()
        else:
            out.add(f"{getattr(k.module, 'name', k.module)}.{k.name}")
    return out


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    P = load()
    hierarchy(rep, lab)
    sites(rep, lab)
    cases = []

    def check(fn, lib, *std):
        """``fn`` must raise ``lib`` (a library class, or None) and all of ``std``."""
        try:
            v = fn()
        except PyRaise as e:
            if lib:
                d = lib if "." in lib else "pyflp.exceptions." + lib
                if not it.truth(isinstance_(it, e.exc, lab.cls(d))):
                    return NE, f"raises {exc_name(e)} instead of {lib}: {str(e)[:100]}"
                if not it.truth(isinstance_(it, e.exc, lab.cls("pyflp.exceptions.Error"))):
                    return NE, f"raises {exc_name(e)}, which is not a pyflp Error"
            for s in std:
                if not it.truth(isinstance_(it, e.exc, Ext("builtins." + s))):
                    return NE, f"raises {exc_name(e)}, which is no {s}: {str(e)[:100]}"
            return EQ, ""
        return NE, f"gives {show(v)[:80]} instead of raising {lib or std[0]}"

    def fails(rule, key, mk, lib, *std):
        def fn(ctx):
            r, t = check(mk(ctx), lib, *std)
            return r, f"{key} {t}"

        cases.append((rule, key, fn))

    def rack(ctx):
        b = Layout(lab, ctx)
        b.start()
        b.chan("C0", "sampler", 0)
        b.chan("C1", "layer", 1, children=(0,))
        b.chan("C2", "automation", 2)
        b.notes("T1", 1)
        b.info("T1", 1, markers=1)
        b.arrangements()
        b.arr("A0", 0, [(499, 0)], tracks=2, names=(1,), markers=1)
        b.add("A.Current", 100, u16(0))
        b.ins("I0")
        b.ins("I1", ["Fruity Balance", None])
        b.params([(0, 0, 0), (192, 1, 0)])
        assume_legal(b, ctx)
        assume_places(P, b, ctx)
        return lab.parse(b.file())

    # ------------------------------------------------------------------- parse
    good = [ver_event("20.8.4"), (70, source("A", 2)), (250, source("B", 9))]
    d = to_abytes(flp(good))
    n = len(d)
    cutat = lambda a: norm_bytes(d.cut(0, a)) if a else b""
    put_ = lambda off, new: norm_bytes(ABytes([*(to_abytes(d.cut(0, off)).segs if off else ()), new, *to_abytes(d.cut(off + len(new), n)).segs]))
    for a in range(0, 22):
        fails("parse", f"a file of {a} bytes", lambda ctx, a=a: lambda: lab.parse(cutat(a)), "HeaderCorrupted", "ValueError")
    for what, off, new in (("header magic", 0, b"FLxx"), ("header size", 4, u32(7)), ("format", 8, u16(3)), ("PPQ", 12, u16(1)), ("PPQ", 12, u16(0)), ("data magic", 14, b"FLxx"), ("data size", 18, u32(1))):
        fails("parse", f"{what} {new!r}", lambda ctx, o=off, w=new: lambda: lab.parse(put_(o, w)), "HeaderCorrupted", "ValueError")

    def short(missing):
        body = to_abytes(ABytes([s for e in good for s in frame(*e)]))
        m = len(body) - missing
        return norm_bytes(ABytes([HDR, b"\0\0", u16(1), u16(96), b"FLdt", u32(m), *to_abytes(body.cut(0, m)).segs]))

    for k in range(1, 10):
        fails("parse", f"a last data event {k} bytes short", lambda ctx, k=k: lambda: lab.parse(short(k)), "InvalidEventChunkSize", "BufferError")
    for eid, w in ((5, 1), (70, 2), (140, 4)):
        for k in range(1, w + 1):
            raw = [HDR, b"\0\0", u16(1), u16(96), b"FLdt", u32(1 + w - k), bytes([eid]) + b"\1" * (w - k)]
            fails("parse", f"a last event {eid} {k} bytes short", lambda ctx, raw=raw: lambda: lab.parse(norm_bytes(ABytes(raw))), "InvalidEventChunkSize", "BufferError")
    for eid in (192, 193, 194, 196, 201, 203, 204, 206, 231, 239, 241):
        fails("parse", f"text event {eid} before the version", lambda ctx, e=eid: lambda: lab.parse(flp([(e, source("X", 4)), ver_event("20.8.4")])), "VersionNotDetected")

    # ------------------------------------------------------------------- events
    eid = lambda i: it.call(lab.cls("pyflp._events.EventEnum"), [i])
    kinds = {"BoolEvent": (0, 63, 1), "I8Event": (0, 63, 1), "U8Event": (0, 63, 1), "I16Event": (64, 127, 2), "U16Event": (64, 127, 2), "F32Event": (128, 191, 4), "I32Event": (128, 191, 4), "U32Event": (128, 191, 4),
             "U16TupleEvent": (128, 191, 4), "ColorEvent": (128, 191, 4)}
    for name, (lo, hi, w) in kinds.items():
        for i in sorted({0, 1, 63, 64, 127, 128, 191, 192, 207, 208, 255}):
            if not lo <= i <= hi:
                fails("event", f"{name} with ID {i}", lambda ctx, i=i, nm=name, w=w: lambda: it.call(lab.cls("pyflp._events." + nm), [eid(i), source("X", w)]), "EventIDOutOfRange", "ValueError")
        for m in range(0, 9):
            if m != w:
                fails("event", f"{name} with {m} bytes", lambda ctx, i=lo, nm=name, m=m: lambda: it.call(lab.cls("pyflp._events." + nm), [eid(i), source("X", m) if m else b""]), "InvalidEventChunkSize", "BufferError")
    for name in ("AsciiEvent", "UnicodeEvent"):
        for i in (0, 63, 64, 127, 128, 191, 208, 230, 232, 238, 240, 242, 255):
            fails("event", f"{name} with ID {i}", lambda ctx, i=i, nm=name: lambda: it.call(lab.cls("pyflp._events." + nm), [eid(i), b"a\0\0\0"[:1 if i < 64 else 2 if i < 128 else 4]]), "EventIDOutOfRange", "ValueError")

    def tree(ctx):
        return it.getattr(lab.parse(flp([ver_event("20.8.4"), (3, b"\1"), (3, b"\2"), (70, b"\1\0")])), "events")

    meth = lambda o, m, *a: it.call(it.getattr(o, m), list(a))
    for m in ("first", "pop", "remove"):
        for i in (4, 64, 130, 203, 255):
            fails("event tree", f"{m}({i}) without such an event", lambda ctx, i=i, m=m: (lambda t: lambda: meth(t, m, eid(i)))(tree(ctx)), None, "KeyError")
        if m != "first":
            fails("event tree", f"{m}(3, 2) with two such events", lambda ctx, m=m: (lambda t: lambda: meth(t, m, eid(3), 2))(tree(ctx)), None, "IndexError")
    for op in ("__eq__", "__ne__"):
        for what, other in (("an int", 3), ("None", None), ("text", "x")):
            fails("event", f"event {op} {what}", lambda ctx, op=op, o=other: (lambda e: lambda: meth(e, op, o))(lab.items(tree(ctx))[1]), None, "TypeError")

    # -------------------------------------------------------------- collections
    LOOK = [("channels", (99, -1, "nobody"), "pyflp.channel.ChannelNotFound", ("IndexError", "KeyError", "LookupError")), ("channels*[1]", (99, -1, "nobody"), "pyflp.channel.ChannelNotFound", ("IndexError", "KeyError", "LookupError")),
            ("channels*[2]", (99, -5), "ModelNotFound", ("IndexError", "LookupError")), ("patterns", (99, -5, "nobody"), "ModelNotFound", ("IndexError", "LookupError")),
            ("arrangements", (99, -5, "nobody"), "ModelNotFound", ("IndexError", "LookupError")), ("mixer", (99, -5, "nobody"), "ModelNotFound", ("IndexError", "LookupError")),
            ("mixer*[1]", (99, -5, "nobody"), "ModelNotFound", ("IndexError", "LookupError")), ("mixer*[0]", (0, "nobody"), "ModelNotFound", ("IndexError", "LookupError"))]
    for path, keys, lib, std in LOOK:
        for k in keys:
            def mk(ctx, path=path, k=k):
                o = lab.walk(rack(ctx), path)
                if isinstance(k, str):  # the unknown names are different ones
                    for e in lab.items(o):
                        nm = it.getattr(e, "display_name" if path.startswith("channels") else "name")
                        if isinstance(nm, Term) and it.truth(it.compare("eq", nm, k)):
                            raise Infeasible()
                return lambda: it.getitem(o, k)

            fails("lookup", f"{path}[{k!r}]", mk, lib, *std)

    def bare(ctx):
        b = Layout(lab, ctx)
        b.project()
        return lab.parse(b.file())

    for coll in ("channels", "patterns", "arrangements", "mixer"):
        fails("empty", f"len({coll})", lambda ctx, c=coll: (lambda o: lambda: it.call(Ext("builtins.len"), [o]))(it.getattr(bare(ctx), c)), "NoModelsFound", "LookupError")
        fails("empty", f"{coll}['x']", lambda ctx, c=coll: (lambda o: lambda: it.getitem(o, "x"))(it.getattr(bare(ctx), c)), "pyflp.channel.ChannelNotFound" if coll == "channels" else "DataCorrupted" if coll == "arrangements" else "ModelNotFound", "LookupError")

    def current(ctx):
        b = Layout(lab, ctx)
        b.start()
        b.arr("A0", 0, tracks=1)
        b.add("A.Current", 100, u16(7))
        p = it.getattr(lab.parse(b.file()), "arrangements")
        return lambda: it.getattr(p, "current")

    fails("lookup", "arrangements.current out of range", current, "ModelNotFound", "IndexError")

    # -------------------------------------------------------------- read-only
    def setter(make_project, path, v):
        def mk(ctx):
            p = make_project(ctx)
            own, _, attr = path.rpartition(".")
            o = lab.walk(p, own) if own else p
            lab.walk(p, path)  # the property exists
            return lambda: it.setattr(o, attr, v)

        return mk

    for path, v in READONLY:
        lib = "PropertyCannotBeSet" if path.endswith("*[0].position") and path.startswith("channels") else None
        fails("read-only", f"{path} = {v!r}", setter(rack, path, v), lib, "AttributeError")

    # ------------------------------------------------------------ setter values
    for path, v, std in (("ppq", 95, "ValueError"), ("channel_count", -1, "ValueError"), ("tempo", 9, "ValueError"), ("tempo", 1000, "ValueError"), ("version", "x", "ValueError"),
                         ("patterns*[0].notes*[0].key", 132, "ValueError"), ("patterns*[0].notes*[0].key", "H9", "ValueError"), ("channels*[0].fx.start", 1.5, "ValueError")):
        if path == "channels*[0].fx.start":
            continue
        fails("setter", f"{path} = {v!r}", setter(rack, path, v), None, std)

    # ------------------------------------------------------ comparing models
    for a, b in (("channels*[0]", "mixer"), ("patterns", "mixer"), ("channels*[0]", "patterns*[0]"), ("mixer*[0]", "mixer*[1]*[0]"), ("arrangements", "channels")):
        fails("comparison", f"{a} == {b}", lambda ctx, a=a, b=b: (lambda p: (lambda x, y: lambda: meth(x, "__eq__", y))(lab.walk(p, a), lab.walk(p, b)))(rack(ctx)), None, "TypeError")
    for a in ("channels", "channels*[0]", "patterns*[0]", "arrangements*[0]", "mixer*[1]", "mixer*[1]*[0]"):
        for what, other in (("an int", 3), ("None", None), ("text", "x")):
            fails("comparison", f"{a} == {what}", lambda ctx, a=a, o=other: (lambda x: lambda: meth(x, "__eq__", o))(lab.walk(rack(ctx), a)), None, "TypeError")

    # ------------------------------------------------------ items of structures
    def item(path, key):
        def mk(ctx):
            o = lab.walk(rack(ctx), path)
            return lambda: it.setitem(o, key, 1)

        return mk

    for path in ("patterns*[0].notes*[0]", "patterns*[0].controllers*[0]", "arrangements*[0].tracks*[0]*[0]"):
        fails("item", f"{path}['no such field'] = 1", item(path, "no such field"), None, "KeyError")

    def struct(key):
        def mk(ctx):
            e = meth(it.getattr(rack(ctx), "events"), "first", eid(219))
            return lambda: it.setitem(e, key, 1)

        return mk

    fails("item", "event['no such field'] = 1", struct("no such field"), None, "KeyError")

    # ---------------------------------------------------------- absent, per kind
    absent(rep, lab, P, fails, setter)
    spread(rep, cases, lab)


ABSENT = {  # event left out -> (path, value)
    "P.Tempo": ("tempo", 120), "P.Licensee": ("licensee", "x"), "P.Title": ("title", "x"), "C0.Reverb": ("channels*[0].fx.reverb.mix", 1), "C0.Parameters": ("channels*[0].arp.gate", 1),
    "C0.Levels": ("channels*[0].pitch_shift", 1), "C0.SamplePath": ("channels*[0].sample_path", "x"), "C0.DelayModXY": ("channels*[0].delay.mod_x", 1), "I1.Name": ("mixer*[1].name", "x"), "I1.Flags": None,
    "M.Params": ("mixer*[1].volume", 1), "A.PLSelection": ("arrangements.loop_pos", None), "T1.Name": ("patterns*[0].name", "x"), "P.DataPath": ("data_path", "x"), "M.APDC": ("mixer.apdc", True),
}


def absent(rep, lab, P, fails, setter):
    def without(key):
        def mk(ctx):
            b = Layout(lab, ctx)
            studio(b)
            keep = [e for e in b.ev if e[0] != key]
            if len(keep) == len(b.ev):
                raise Unsupported(f"{key} is not in the project")
            b.ev = keep
            assume_legal(b, ctx)
            assume_places(P, b, ctx)
            return lab.parse(b.file())

        return mk

    for key, what in ABSENT.items():
        if what and what[1] is not None:
            fails("absent", f"{what[0]} without {key}", setter(without(key), *what), "PropertyCannotBeSet", "AttributeError")


def hierarchy(rep, lab):
    it = lab.it
    found = set()
    for name, path in sorted(package(rep.root).items()):
        with open(path) as f:
            tree = ast.parse(f.read())
        names = [n.name for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]
        if not names:
            continue
        try:
            m = it.load(name)
        except Unsupported as e:
            rep.undecide("hierarchy", name, e)
            continue
        for n in names:
            c = m.ns.get(n)
            if not isinstance(c, ClassVal) or getattr(c.module, "name", c.module) != name:
                continue
            up = ancestors(it, c)
            if "BaseException" not in up:
                continue
            d = f"{name}.{n}"
            found.add(d)
            rep.ob("hierarchy", d, EQ if "pyflp.exceptions.Error" in up else NE, f"{path}: exception class {n} does not derive from pyflp.exceptions.Error")
    for d, want in BASES.items():
        try:
            c = lab.cls(d)
        except KeyError:
            rep.ob("hierarchy", d, NE, f"the exception class {d} does not exist")
            continue
        up = ancestors(it, c)
        for w in want:
            rep.ob("hierarchy", f"{d} < {w}", EQ if w in up else NE, f"{d} does not derive from {w}")
    rep.extra["exception classes"] = sorted(found)


def sites(rep, lab):
    """Every ``raise X(...)`` of a library class binds X's constructor."""
    it = lab.it
    n = 0
    for name, path in sorted(package(rep.root).items()):
        with open(path) as f:
            tree = ast.parse(f.read())
        raises = [x for x in ast.walk(tree) if isinstance(x, ast.Raise) and x.exc is not None]
        if not raises:
            continue
        m = it.load(name)
        for r in raises:
            call = r.exc if isinstance(r.exc, ast.Call) else None
            fn = call.func if call else r.exc
            c = m.ns.get(fn.id) if isinstance(fn, ast.Name) else None
            if not isinstance(c, ClassVal):
                continue
            n += 1
            ok, why = binds(it, c, call)
            rep.ob("raise site", f"{name}:{ast.unparse(r)[:60]}", EQ if ok else NE, f"{path}:{r.lineno}: {ast.unparse(r)}: {why}")
    rep.extra["raise sites of library exceptions"] = n


def binds(it, c, call):
    init = None
    for k in it.mro(c):
        if isinstance(k, ClassVal) and "__init__" in k.ns:
            init = k.ns["__init__"]
            break
    if init is None or not isinstance(init, FuncVal):
        return True, ""
    a = init.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][1:]
    need = len(pos) - len(a.defaults)
    args = call.args if call else []
    kws = call.keywords if call else []
    if any(isinstance(x, ast.Starred) for x in args) or any(k.arg is None for k in kws):
        return True, ""
    if len(args) > len(pos) and a.vararg is None:
        return False, f"{len(args)} arguments for {len(pos)} parameters"
    got = set(pos[:len(args)]) | {k.arg for k in kws}
    lack = [x for x in pos[:need] if x not in got]
    if lack:
        return False, f"the constructor's {lack} are not given"
    kwonly = [x.arg for x in a.kwonlyargs]
    extra = [k.arg for k in kws if k.arg not in pos and k.arg not in kwonly]
    if extra and a.kwarg is None:
        return False, f"the constructor has no {extra}"
    return True, ""
