"""The place table: which bytes of the file each public property stands for.

``places.txt`` was drafted once from the pinned tree, then reviewed against
the documentation and the format notes in the docstrings; it is data of the
checks and is never regenerated by them.  One line per property::

    path | event-source offset width kind | options
"""
from __future__ import annotations

import os

from .scenario import *

HERE = os.path.dirname(os.path.abspath(__file__))


class Place:
    __slots__ = ("path", "key", "off", "w", "kind", "opts")

    def __init__(self, line):
        path, rest, *opt = [x.strip() for x in line.split("|")]
        key, off, w, kind = rest.split(" ", 3)
        self.path, self.key, self.off, self.w, self.kind = path, key, int(off), int(w), kind
        self.opts = {}
        for o in (opt[0].split() if opt else []):
            k, _, v = o.partition("=")
            self.opts[k] = v or True

    @property
    def event(self):
        """Key of the event that holds the source."""
        return event_of(self.key)

    @property
    def name(self):
        return self.path + (f" ({self.opts['len']}-byte payload)" if "len" in self.opts else "") + (f" (without {self.opts['without']})" if "without" in self.opts else "")

    @property
    def owner(self):
        i = self.path.rfind(".")
        return self.path[:i] if i >= 0 else ""

    @property
    def attr(self):
        return self.path[self.path.rfind(".") + 1:]

    def fam(self):
        return self.kind.partition(":")[0]

    def arg(self):
        return self.kind.partition(":")[2]

    def bit(self):
        return int(self.arg()) if self.fam() in ("bit", "nbit", "sbit") else None


def event_of(key):
    k = key.partition("#")[0]
    i = k.find(".Data.")
    return k[:i + 5] if i >= 0 else k


def load():
    out = []
    with open(os.path.join(HERE, "places.txt")) as f:
        for l in f:
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(Place(l))
    return out


def enum_values(lab, dotted):
    c = lab.cls(dotted)
    return {m.value: m for m in lab.items(c)}


def legal_dom(pl):
    """(kind of read, values) the format allows at the place."""
    f = pl.fam()
    if f == "bool":
        return "u", IntDom.of([0, 1])
    if f == "names":
        return "u", IntDom.rng(0, len(pl.arg().split(",")) - 1)
    if f in ("enumu", "enums"):
        return f[-1], IntDom.of(ENUM_VALUES[pl.arg().rpartition(".")[2]])
    return None


def key_class(key):
    """``C0.Parameters`` and ``C7.Parameters`` are laid out alike; plugin data is not."""
    if ".Data" in key and ".t" not in key:
        return key
    return re.sub(r"\d+(#\d+)?$", "", re.sub(r"^\w+\.(\w+\.(?=Data|\w+\.))?", "", key))


def assume_places(places, b, ctx):
    """Restrict stored values of all events to what the format has there,
    whether or not the entity shows them."""
    cls = {}
    for pl in places:
        d = legal_dom(pl)
        if d is not None:
            cls.setdefault(key_class(pl.key), set()).add((pl.off, pl.w) + d)
    for key, eid, p in b.ev:
        names = {key} | {s[1] for s in (p.segs if isinstance(p, ABytes) else ()) if not isinstance(s, bytes) and s[0] == "raw"}
        for name in names:
            for off, w, k, dom in cls.get(key_class(name), ()):
                ctx.doms[rd(name, off, w, k)] = dom
    for pl in places:
        if pl.fam() == "path":
            ctx.neqc.setdefault(sym("text:" + pl.key, "str"), set()).update(("", "."))
            ctx.neqc.setdefault(sym("text:~" + pl.key, "str"), set()).update(("", "."))


# Values of the enumerations stored in files (from the format documentation).
ENUM_VALUES = {
    "ArpDirection": range(0, 6), "DeclickMode": range(0, 6), "StretchMode": range(-1, 10), "LFOShape": range(0, 3),
    "FilterType": range(0, 8), "WrapperPage": (0, 1, 3, 4, 5), "TrackMotion": range(0, 7), "TrackPress": range(0, 4),
    "TrackSync": range(0, 7), "PanLaw": (0, 2),
}


def subst(data, key, off, w, new):
    """``data`` with bytes off..off+w of source ``key`` replaced by ``new``;
    returns (bytes, whether the source was found)."""
    out, hit = [], False
    for s in to_abytes(data).segs:
        if not isinstance(s, bytes) and s[0] == "raw" and s[1] == key and s[2] <= off and off + w <= s[2] + s[3]:
            if off > s[2]:
                out.append(("raw", key, s[2], off - s[2]))
            out.extend(to_abytes(new).segs)
            if off + w < s[2] + s[3]:
                out.append(("raw", key, off + w, s[2] + s[3] - off - w))
            hit = True
        else:
            out.append(s)
    return norm_bytes(ABytes(out)), hit


def subst_text(data, key, new):
    t = sym("text:" + key, "str")
    out, hit = [], False
    for s in to_abytes(data).segs:
        if not isinstance(s, bytes) and s[0] == "enc" and isinstance(s[3], Term) and s[3] == t:
            out.append((s[0], s[1], s[2], new))
            hit = True
        else:
            out.append(s)
    return norm_bytes(ABytes(out)), hit


def rename(data, pre):
    out = []
    for s in to_abytes(data).segs:
        if isinstance(s, bytes):
            out.append(s)
        elif s[0] == "raw":
            out.append(("raw", pre + s[1], s[2], s[3]))
        elif isinstance(s[3], Term) and s[3].op == "sym" and s[3].args[0].startswith("text:"):
            out.append((s[0], s[1], s[2], sym("text:" + pre + s[3].args[0][5:], "str")))
        else:
            out.append(s)
    return norm_bytes(ABytes(out))


def donor(b, ctx, pre="~"):
    """The same project with other unknown contents."""
    d = Build.__new__(Build)
    d.lab, d.ctx, d.text = b.lab, ctx, b.text
    d.ev = [(pre + k, i, rename(p, pre)) for k, i, p in b.ev]
    for t in list(ctx.clean_text):
        ctx.clean_text.add(sym("text:" + pre + t.args[0][5:], "str"))
    for t, dom in list(ctx.doms.items()):
        if isinstance(t, Term) and t.op == "rd":
            ctx.doms[Term("rd", (pre + t.args[0],) + tuple(t.args[1:]), t.ty)] = dom
    return d


def expect(pl, lab, ctx, pre=""):
    """The value the property must read as, by its place."""
    f, key, off, w = pl.fam(), pre + pl.key, pl.off, pl.w
    if f in ("u", "s", "f"):
        return rd(key, off, w, f)
    if f == "bool":
        return mk_not(mk_cmp("eq", rd(key, off, w, "u"), 0))
    if f in ("bit", "nbit", "sbit"):
        t = mk_cmp("eq", mk_bin("bitand", rd(key, off, w, "u"), int(pl.arg())), int(pl.arg()))
        return mk_not(t) if f == "nbit" else t
    if f in ("enumu", "enums"):
        return Term("enum", (lab.cls(pl.arg()), rd(key, off, w, f[-1])), "int")
    if f == "text":
        return sym("text:" + key, "str")
    if f == "path":
        return lab.it.call(Ext("pathlib.Path"), [sym("text:" + key, "str")])
    if f == "color":
        c = lab.cls("pyflp.types.RGBA")
        return lab.it.call(c, [mk_bin("div", rd(key, off + i, 1), 255) for i in range(4)])
    if f.startswith("pair"):
        h = w // 2
        return rd(key, off, h, f[4]), rd(key, off + h, h, f[4])
    if f == "raw":
        return ABytes((("raw", key, off, w),))
    if f == "musical":
        x = rd(key, off, w, "u")
        r = mk_bin("mod", x, 768)
        return (mk_bin("floordiv", x, 768), mk_bin("floordiv", r, 48), mk_bin("mul", mk_bin("mod", r, 48), 5))
    if f == "log2":
        return mk_bin("pow", 2, mk_bin("div", rd(key, off, w, "s"), 10000))
    if f == "names":
        names = pl.arg().split(",")
        return [(rd(key, off, w, "u"), names)]
    raise Unsupported("kind " + pl.kind)


def new_bytes(pl, ctx, pre="~"):
    """Bytes of the donor's place."""
    return ABytes((("raw", pre + pl.key, pl.off, pl.w),))


def expected_file(pl, data, ctx, pre="~"):
    if pl.fam() in ("text", "path"):
        r, hit = subst_text(data, pl.key, sym("text:" + pre + pl.key, "str"))
    else:
        r, hit = subst(data, pl.key, pl.off, pl.w, new_bytes(pl, ctx, pre))
    if not hit:
        raise Unsupported(f"place {pl.key} not in the scenario")
    return r


def same_value(a, b, ctx, lab):
    """Compare a value read with the expected one (tuples element-wise)."""
    if isinstance(b, list) and len(b) == 1:  # named values: decide per name
        x, names = b[0]
        return same_names(a, x, names, ctx)
    if type(a).__name__ == "PathVal" and type(b).__name__ == "PathVal":
        return same(a.p, b.p, ctx)
    if isinstance(b, tuple) and not isinstance(a, tuple):
        items = seq(a)
        if items is None:
            return NE
        a = tuple(items)
    if isinstance(b, NT) or isinstance(a, NT):
        a2, b2 = seq(a), seq(b)
        if a2 is None or b2 is None:
            return NE
        a, b = tuple(a2), tuple(b2)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return NE
        rs = [same_value(x, y, ctx, lab) for x, y in zip(a, b)]
        return NE if NE in rs else UNK if UNK in rs else EQ
    return same(a, b, ctx)


def seq(v):
    if isinstance(v, NT):
        return list(v.items)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, VList):
        return list(v.items)
    return None


def same_names(a, x, names, ctx):
    if isinstance(a, Term) and a.op == "conenum":
        if not a.args[0] == x:
            return compare(a.args[0], x, ctx)
        m = dict(a.args[1])
        ok = all(m.get(n) == i for i, n in enumerate(names))
        return EQ if ok else NE
    return UNK


# ------------------------------------------------------------------ shared bases
def chan_of(path):
    m = re.match(r"channels\*\[(\d+)\]", path)
    return int(m.group(1)) if m else None


def base_key(pl):
    """Which focused project a property is examined in: (channel, other
    payload length of its event, events left out)."""
    return chan_of(pl.path), ((pl.event, int(pl.opts["len"])) if "len" in pl.opts else None), tuple(pl.opts.get("without", "").split(",")) if "without" in pl.opts else ()


BASE_CHANS = {None: (0, 1, 2, 3, 7), 5: (5, 0, 7)}


def base_chans(k):
    k = k[0] if isinstance(k, tuple) else k
    return BASE_CHANS.get(k, (k, 7 if k != 7 else 0))


def local(path, k):
    k = k[0] if isinstance(k, tuple) else k
    """``path`` with the channel number replaced by its place in the base."""
    return re.sub(r"^channels\*\[\d+\]", f"channels*[{base_chans(k).index(k)}]", path) if k is not None else path


def warm(lab):
    """Fill the lemma caches once, before processes are forked."""
    from .pool import Base

    def setup(ctx):
        b = Build(lab, ctx)
        b.focus((0,), rest=False)
        assume_legal(b, ctx)
        lab.save(lab.parse(b.file()))

    try:
        Base(lab, setup)
    except (Unsupported, PyRaise, Missing):
        pass


def setup_for(lab, key, places, drop=(), cut=None, with_donor=True, version="20.8.4"):
    """The abstract project of ``base_key``; ``drop``: event keys left out,
    ``cut``: (event key, payload length kept)."""
    k, relen, without = key
    drop = tuple(drop) + without
    places = [p for p in places if base_key(p)[1] in (None, relen)]
    if relen:
        places = [p for p in places if p.event != relen[0] or base_key(p)[1] == relen]

    def make(ctx):
        b = Build(lab, ctx, version)
        b.focus(base_chans(k), rest=k is None)
        if relen:
            b.ev = [(e[0], e[1], source(e[0], relen[1]) if e[0] == relen[0] else e[2]) for e in b.ev]
        b.ev = [e for e in b.ev if e[0] not in drop]
        return b

    def setup(ctx):
        b = make(ctx)
        if cut:
            b.ev = [(e[0], e[1], norm_bytes(to_abytes(e[2]).cut(0, cut[1])) if e[0] == cut[0] else e[2]) for e in b.ev]
        assume_legal(b, ctx)
        assume_places(places, b, ctx)
        st = {"b": b, "data": b.file()}
        if with_donor:
            d = donor(make(ctx), ctx)
            st["qdata"] = d.file()
            st["q"] = lab.parse(st["qdata"], "donor.flp")
        st["p"] = lab.parse(st["data"])
        return st

    return setup
