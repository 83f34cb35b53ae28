"""EventTree operations analysed on abstract trees (every ID pattern up to a
length, unknown payloads) against a list model: every kind of view and views
of views select the model's events in file order; insert, append, += and
pop/remove through any view change that view and each ancestor at the
model's place, keep the identity and order of all other events, leave sibling
views alone, and stay coherent over sequences of operations."""
import itertools

from ..trip import *

FLOOR = 800
A, B, C = 2, 3, 22  # three one-byte event IDs
NEW = 10


class Model:
    """A view: its events (objects) and its parent."""

    def __init__(self, tree, evs, parent=None):
        self.tree, self.evs, self.parent = tree, list(evs), parent

    def chain(self):
        v = self
        while v is not None:
            yield v
            v = v.parent


def run(rep, make):
    lab = make()
    it = lab.it
    prepare(lab)
    cases = []

    def eid(n):
        return it.call(lab.cls("pyflp._events.EventEnum"), [n])

    def pred(fn):
        return it.native("select", lambda i, a, k: fn(int(i.intish(i.getattr(a[0], "id")))))

    def meth(o, name, *a):
        return it.call(it.getattr(o, name), list(a))

    def idof(e):
        return int(it.intish(it.getattr(e, "id")))

    def root(ids):
        p = lab.parse(flp([(i, source(f"E{n}", 1)) for n, i in enumerate(ids)]))
        t = it.getattr(p, "events")
        evs = lab.items(t)
        return p, Model(t, evs)

    # ----------------------------------------------------------------- views
    def subtree(m, sel):
        return [Model(meth(m.tree, "subtree", pred(lambda i: i in sel)), [e for e in m.evs if idof(e) in sel], m)]

    def divide(m, sep, ids):
        if sep not in [idof(e) for e in m.evs]:
            want = []
        else:
            want, cur = [], []
            first = True
            for e in m.evs:
                if idof(e) == sep:
                    if not first:
                        want.append(cur)
                        cur = []
                    first = False
                if idof(e) in ids:
                    if first:
                        return None  # events before the first separator: not claimed
                    cur.append(e)
            want.append(cur)
        got = lab.items(meth(m.tree, "divide", eid(sep), *[eid(i) for i in ids]))
        return _zip(got, want, m)

    def separate(m, i):
        return _zip(lab.items(meth(m.tree, "separate", eid(i))), [[e] for e in m.evs if idof(e) == i], m)

    def group(m, ids):
        cols = [[e for e in m.evs if idof(e) == i] for i in ids]
        want = []
        for row in itertools.zip_longest(*cols):
            s = [e for e in row if e is not None]
            want.append([e for e in m.evs if any(e is x for x in s)])
        return _zip(lab.items(meth(m.tree, "group", *[eid(i) for i in ids])), want, m)

    def subtrees(m, sep, skip, repeat):
        want, cur, n = [], [], repeat
        done = False
        for e in m.evs:
            if not n:
                done = True
                break
            i = idof(e)
            if i == sep:
                want.append(cur)
                cur = [e]
                n -= 1
            elif i != skip:
                cur.append(e)
        if cur and n and not done:
            want.append(cur)
        sel = pred(lambda i: False if i == sep else None if i == skip else True)
        return _zip(lab.items(meth(m.tree, "subtrees", sel, repeat)), want, m)

    class Bad(Exception):
        pass

    def _zip(got, want, m):
        if len(got) != len(want):
            raise Bad(f"{len(got)} views instead of {len(want)}")
        return [Model(t, w, m) for t, w in zip(got, want)]

    VIEWS = {
        "subtree A": lambda m: subtree(m, {A}), "subtree AC": lambda m: subtree(m, {A, C}), "subtree all": lambda m: subtree(m, {A, B, C}),
        "subtree none": lambda m: subtree(m, set()),
        "divide A by A": lambda m: divide(m, A, (A, B, C)), "divide by A": lambda m: divide(m, A, (B, C)), "divide by B": lambda m: divide(m, B, (B, C)),
        "separate A": lambda m: separate(m, A), "group AB": lambda m: group(m, (A, B)), "group BA": lambda m: group(m, (B, A)), "group ABC": lambda m: group(m, (A, B, C)),
        "subtrees A": lambda m: subtrees(m, A, C, 2), "subtrees B": lambda m: subtrees(m, B, None, 9),
    }

    def ids_of(m):
        return [idof(e) for e in m.evs]

    def state(m, what):
        got = lab.items(m.tree)
        if len(got) != len(m.evs) or not all(a is b for a, b in zip(got, m.evs)):
            return f"{what}: events {[idof(e) for e in got]} instead of {ids_of(m)}" + (
                "" if len(got) == len(m.evs) else f" ({len(got)} instead of {len(m.evs)})") + ("" if [idof(e) for e in got] != ids_of(m) else " in another order")
        n = it.call(Ext("builtins.len"), [m.tree])
        if n != len(m.evs):
            return f"{what}: len() is {show(n)} instead of {len(m.evs)}"
        return None

    def queries(m, what):
        """count, get, first, in, ids."""
        ids = ids_of(m)
        for i in (A, B, C):
            c = meth(m.tree, "count", eid(i))
            if c != ids.count(i):
                return f"{what}: count({i}) is {show(c)} instead of {ids.count(i)}"
            g = lab.items(meth(m.tree, "get", eid(i)))
            w = [e for e in m.evs if idof(e) == i]
            if len(g) != len(w) or not all(x is y for x, y in zip(g, w)):
                return f"{what}: get({i}) does not yield the events with that ID in file order"
            if it.truth(it.contains(eid(i), m.tree)) != (i in ids):
                return f"{what}: {i} in tree is wrong"
            try:
                f = meth(m.tree, "first", eid(i))
                if not w or f is not w[0]:
                    return f"{what}: first({i}) is another event"
            except PyRaise as e:
                if w or exc_name(e) != "KeyError":
                    return f"{what}: first({i}) raises {exc_name(e)}"
        g = lab.items(meth(m.tree, "get", eid(A), eid(C)))
        w = [e for e in m.evs if idof(e) in (A, C)]
        if len(g) != len(w) or not all(x is y for x, y in zip(g, w)):
            return f"{what}: get of two IDs does not yield them in file order"
        s = it.getattr(m.tree, "ids")
        got = {int(it.intish(x)) for x in lab.items(s)}
        if got != set(ids):
            return f"{what}: ids is {got} instead of {set(ids)}"
        return None

    # ------------------------------------------------------------- operations
    def put(m, pos, e, how):
        """Model of insertion; None if the place in a root is not claimed."""
        anchor = None
        if m.evs:
            anchor = (m.evs[pos], 0) if pos < len(m.evs) else (m.evs[-1], 1)
        for v in m.chain():
            if v is m:
                v.evs.insert(pos, e)
            elif anchor is None:
                v.evs = None
            else:
                k = next(i for i, x in enumerate(v.evs) if x is anchor[0])
                v.evs.insert(k + anchor[1], e)

    def operate(m, op, arg, n):
        if op in ("insert", "append", "iadd"):
            e = it.call(lab.cls("pyflp._events.U8Event"), [eid(NEW), source(f"N{n}", 1)])
            pos = arg if op == "insert" else len(m.evs)
            if op == "insert":
                meth(m.tree, "insert", pos, e)
            elif op == "append":
                meth(m.tree, "append", e)
            else:
                r = it.call(it.getattr(m.tree, "__iadd__"), [e])
                if r is not m.tree:
                    raise Bad("+= does not give the tree itself")
            put(m, pos, e, op)
        else:
            i, k = arg
            w = [e for e in m.evs if idof(e) == i]
            r = meth(m.tree, op, eid(i), k)
            if op == "pop" and r is not w[k]:
                raise Bad(f"pop({i}, {k}) gives another event")
            for v in m.chain():
                v.evs = [e for e in v.evs if e is not w[k]]

    def places(m, top, what):
        """``indexes``: where the events of the view are in the file."""
        got = sorted(lab.items(it.getattr(m.tree, "indexes")))
        want = [k for k, e in enumerate(top) if any(e is x for x in m.evs)]
        return None if got == want else f"{what}: indexes is {got}, its events are at {want} in the root"

    def verify(m, sib, p):
        x = verify_(m, sib, p)
        if x:
            return x
        top = lab.items(it.getattr(p, "events"))
        for v, what in [(v, "the view or an ancestor") for v in m.chain()] + [(v, "a sibling view") for v in sib]:
            x = places(v, top, what)
            if x:
                return x
        return None

    def verify_(m, sib, p):
        for d, v in enumerate(m.chain()):
            name = "the view" if d == 0 else "its parent" if d == 1 and v.parent else "the root" if v.parent is None else "its grandparent"
            if v.evs is None:  # insertion into an empty view: only presence is claimed
                got = lab.items(v.tree)
                n = sum(x is m.evs[0] for x in got)
                if n != 1:
                    return f"{name}: the new event occurs {n} times"
                v.evs = got
                continue
            x = state(v, name)
            if x:
                return x
        for s in sib:
            x = state(s, "a sibling view")
            if x:
                return x
        return None

    def selection(ids, path):
        def fn(ctx):
            p, m = root(ids)
            try:
                level = [m]
                for vn in path:
                    nxt = []
                    for v in level:
                        r = VIEWS[vn](v)
                        if r is None:
                            return None
                        nxt += r
                    for v in nxt:
                        x = state(v, " of ".join(reversed(path[:path.index(vn) + 1])))
                        if x:
                            return NE, f"events {ids}: {x}"
                    level = nxt
                for v in level:
                    x = queries(v, path[-1]) or places(v, m.evs, path[-1])
                    if x:
                        return NE, f"events {ids}: {x}"
                x = state(m, "the root, after making views,")
                return (NE, x) if x else (EQ, "")
            except Bad as e:
                return NE, f"events {ids}, {' / '.join(path)}: {e}"
            except PyRaise as e:
                return NE, f"events {ids}, {' / '.join(path)}: raises {exc_name(e)}: {str(e)[:150]}"

        return fn

    def mutation(ids, path, k, ops):
        """Make views along ``path`` (element k of the last), apply ``ops`` and compare."""
        def fn(ctx):
            p, m = root(ids)
            try:
                v, sib = m, []
                for j, vn in enumerate(path):
                    r = VIEWS[vn](v)
                    if r is None or not r:
                        return None
                    i = k if j == len(path) - 1 else 0
                    if i >= len(r):
                        return None
                    sib = [x for x in r if x is not r[i]]
                    v = r[i]
                for n, (op, arg) in enumerate(ops):
                    tgt = v
                    if op.startswith("root "):
                        tgt, op = m, op[5:]
                        keep = v.evs
                    if op.startswith("sib "):
                        if not sib:
                            return None
                        tgt, op = sib[0], op[4:]
                    if op == "insert" and arg > len(tgt.evs):
                        return None
                    if op in ("pop", "remove") and [idof(e) for e in tgt.evs].count(arg[0]) <= arg[1]:
                        return None
                    if op in ("pop", "remove") and tgt is m and m is not v and any(x is [e for e in m.evs if idof(e) == arg[0]][arg[1]] for s in [v, *sib] for x in s.evs):
                        return None  # removal above a view that shows the event
                    operate(tgt, op, arg, n)
                    x = verify(tgt, [s for s in [v, *sib] if s is not tgt and s is not m], p)
                    if x:
                        return NE, f"events {ids}, view {' / '.join(path) or 'root'}[{k}], {ops[:n + 1]}: {x}"
                f = lab.save(p)
                _, got = unframe(f)
                want = [idof(e) for e in m.evs]
                if [i for i, _ in got] != want:
                    return NE, f"events {ids}, {ops}: saved as {[i for i, _ in got]} instead of {want}"
                return EQ, ""
            except Bad as e:
                return NE, f"events {ids}, {' / '.join(path)}, {ops}: {e}"
            except PyRaise as e:
                return NE, f"events {ids}, {' / '.join(path)}, {ops}: raises {exc_name(e)}: {str(e)[:150]}"

        return fn

    def absent(ids, path, i):
        def fn(ctx):
            p, m = root(ids)
            v = m
            for vn in path:
                r = VIEWS[vn](v)
                if not r:
                    return None
                v = r[0]
            if i in [idof(e) for e in v.evs]:
                return None
            for op in ("pop", "remove"):
                try:
                    meth(v.tree, op, eid(i))
                    return NE, f"{op} of an absent ID raises nothing"
                except PyRaise as e:
                    if exc_name(e) != "KeyError":
                        return NE, f"{op} of an absent ID raises {exc_name(e)}"
                x = verify(v, [], p)
                if x:
                    return NE, f"{op} of an absent ID: {x}"
            return EQ, ""

        return fn

    n = 4 if rep.tier == "quick" else 5
    pats = [x for k in (1, 3, n) for x in itertools.product((A, B, C), repeat=k)] if rep.tier != "quick" else [
        *itertools.product((A, B), repeat=3), *itertools.product((A, B, C), repeat=4)]
    long = [(A, B, C, A, B, C, A, A, B), (B, A, B, A, C, C, A, B, A, B), (C, C, A, C, B, C, A, C)]
    name = lambda ids: "".join({A: "A", B: "B", C: "C"}[i] for i in ids)
    for ids in [*pats, *long]:
        for vn in VIEWS:
            cases.append(("selection", f"{vn} of {name(ids)}", selection(ids, (vn,))))
    nested = [("subtree all", "divide A by A"), ("subtree AC", "separate A"), ("divide A by A", "subtree AC"), ("subtree AC", "subtree A"), ("divide by B", "group BA"),
              ("subtree all", "subtree AC", "subtree A"), ("divide A by A", "subtree all", "separate A"), ("group ABC", "subtree AC"), ("subtrees A", "subtree A")]
    some = pats[::3] + long
    for ids in some:
        for path in nested:
            cases.append(("selection", f"{' / '.join(path)} of {name(ids)}", selection(ids, path)))
    ops1 = [("insert", 0), ("insert", 1), ("insert", 2), ("append", None), ("iadd", None)] + [(o, (i, k)) for o in ("pop", "remove") for i in (A, B) for k in (0, 1)]
    for ids in [x for x in pats if len(x) == 3] + pats[-1:] + long:
        for path in [(), *[(v,) for v in VIEWS], *nested[:4]]:
            for op in ops1:
                for k in (0, 1, 2):
                    if not path and k:
                        continue
                    cases.append(("change", f"{name(ids)}, {' / '.join(path) or 'root'}[{k}], {op[0]} {op[1]}", mutation(ids, path, k, [op])))
    seqs = [[("insert", 1), ("insert", 0), ("append", None)], [("append", None), ("pop", (A, 0)), ("append", None)], [("insert", 0), ("sib insert", 0), ("append", None)],
            [("sib append", None), ("insert", 0), ("sib insert", 1)], [("pop", (A, 0)), ("sib append", None), ("append", None)], [("root insert", 0), ("insert", 1), ("root append", None)],
            [("insert", 0), ("pop", (NEW, 0)), ("insert", 1)], [("append", None), ("append", None), ("pop", (NEW, 1))], [("root insert", 2), ("append", None), ("sib insert", 0)],
            [("sib pop", (A, 0)), ("insert", 0), ("append", None)]]
    for ids in long + pats[5:60:9]:
        for path in [(v,) for v in VIEWS] + nested:
            for s in seqs:
                for k in (0, 1):
                    cases.append(("sequence", f"{name(ids)}, {' / '.join(path)}[{k}], {s}", mutation(ids, path, k, s)))
    for ids in pats[:8] + long[:1]:
        for path in [(), ("subtree A",), ("divide A by A",), ("subtree AC", "subtree A")]:
            for i in (A, B, C, 200):
                cases.append(("absent ID", f"{name(ids)}, {' / '.join(path)}, {i}", absent(ids, path, i)))
    spread(rep, cases, lab)
    rep.extra["trees"] = len(pats) + len(long)
