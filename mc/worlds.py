"""
Worlds: bounded families of data files.  A world builds one abstract file from the choices of the explorer;
``Judge`` validates the real file made from it and compares the findings with one property of the model.
"""
import numpy

from . import h5spec, model, sut, synth
from .explore import Cost
from .h5spec import D, Ext, Files, G, Hard, Soft, T, Val, n, s

SYNTH = ("synth", "synth1")
SETS = sut.BUNDLED + SYNTH
_REF = {}


def prepare(sets=SETS):
    """install the made-up sets, load all sets in this process, read them independently"""
    import os
    from . import env
    os.makedirs(env.user_cache(), exist_ok=True)
    if any(x in SYNTH for x in sets) and not os.path.isdir(os.path.join(env.user_cache(), SYNTH[0])):
        synth.standard()
    sut.preload(sets)
    for x in sets:
        ref(x)


def ref(name):
    if name not in _REF:
        _REF[name] = synth.ref(name)
    return _REF[name]


class World:
    batch = 16
    limit = 60
    sets = SETS
    free = ()       # sets that cost nothing

    def __init__(self, prop, deep=False):
        self.args = [prop, deep]
        self.prop = prop
        self.deep = deep

    def menu(self, members, common):
        """only the first members combine with other deviations, unless the exploration is deep"""
        members = list(members)
        return members if self.deep else members[:common] + [Cost(2, m) for m in members[common:]]

    def execute(self, ch):
        definitions = ch.choose("set", [Cost(0, x) if x in self.free else x for x in self.menu(self.sets, 2)])
        files, options = self.build(ch, definitions)
        if files is None:
            ch.observe("not writable")
            return
        try:
            ctx = sut.written(files, "main.h5", **options)
            path = ctx.__enter__()
        except (KeyError, RuntimeError):
            if not any("Hard" in t[1] for t in ch.trace):
                raise
            ch.observe("not writable")     # a hard link to nothing
            return
        try:
            r = sut.validate(path, definitions)
        finally:
            ctx.__exit__(None, None, None)
        view = model.View(files, ref(definitions), r)
        model.ALL[self.prop](view, ch.fail)
        ch.count = 1
        ch.observe(definitions, sorted((a or "", t, st) for a, t, st, _c in r.findings))


def prune(g):
    for k in list(g.kids):
        if g.kids[k] is None:
            del g.kids[k]
        elif isinstance(g.kids[k], G):
            prune(g.kids[k])
    for k in list(g.attrs):
        if g.attrs[k] is None:
            del g.attrs[k]
    for k in g.kids.values():
        for a in list(getattr(k, "attrs", {})):
            if k.attrs[a] is None:
                del k.attrs[a]
    return g


# ------------------------------------------------------------------------------------ structure and links
NXC = [None, s(""), s("NX"), s("nxdata"), s("data"), s(" NXdata"), s("NXnone"), Val("b", "NXdata"), Val("bu", "NXlog"), Val("sa", "NXdata"), n(1), Val("S", ["NXdata"]),
       Val("B", ["NXdata"]), s("NXdata "), s("NXcollection"), s("NXentry"), s("NXdataX"), s("NXdata/"), s("NX/"), s("NXentry/NXdata"), s("NXcollections"), s("NXentry@default"), s("NXdata\nNXlog"), Val("empty"), Val("raw", b"\xffNX")]


class Structure(World):
    """groups, fields and links of every kind in every place"""
    sets = ("v2018.5", "synth")

    def build(self, ch, _definitions):
        def nx(label, default):
            return ch.choose(label, [s(default)] + [v for v in NXC if v is None or v.kind != "s" or v.value != default])

        def extra(place):
            return ch.choose("extra in " + place, [
                None, D(), G(), G("NXdata", {"signal": s("x")}, x=D()), G(None, {"a": s("b")}, sub=G("NXdata", None, y=D(1, {"q": n(1)})), f=D(1, {"units": s("m")})), T({"q": n(1)}),
                Soft("/entry/data"), Soft("/entry/data/counts"), Soft("data"), Soft("/plain"), Soft("/plain/inner"), Soft("/nowhere"), Soft("/"), Soft("/entry"), Soft("."), Soft("e"),
                Soft("/entry/e"), Soft("/plain/e"), Soft("/entry/data/e"), Soft("/e"),
                Hard("/entry/data"), Hard("/entry/data/counts"), Hard("/entry"), Hard("/plain"), Hard("/plain/inner"), Hard("/"), Hard("/tt"),
                Ext("o.h5", "/q"), Ext("o.h5", "/"), Ext("o.h5", "/q/w"), Ext("o.h5", "/none"), Ext("none.h5", "/q"), Ext("o.h5", "/up"), Ext("o.h5", "/q/soft")])
        data = G(nx("data@NX_class", "NXdata"), {"signal": s("counts")}, counts=D(None, {"units": s("m"), "target": s("/entry/data/counts")}), e=extra("data"))
        entry = G(nx("entry@NX_class", "NXentry"), {"default": s("data")}, data=data, title=D("t"), e=extra("entry"), zlog=G("NXlog", None, time=D()))
        plain = G(ch.choose("plain@NX_class", NXC), {"note": s("x")}, inner=G(nx("inner@NX_class", "NXdata"), {"signal": s("y")}, y=D(1, {"u": n(2)})), e=extra("plain"), d=D(2, {"v": n(1)}))
        top = G(None, {"default": s("entry"), "NX_class": ch.choose("/@NX_class", [None, s("NXroot"), s("NXentry"), s("x")])}, entry=entry, plain=plain, e=extra("root"), f=D(3, {"k": n(1)}),
                tt=T({"k": s("v")}))
        other = G(None, None, q=G("NXdata", {"signal": s("w")}, w=D(1, {"units": s("s")}), g=G("NXlog"), soft=Soft("/q/w")), up=Ext("main.h5", "/entry"))
        opts = ch.choose("writing", [{}, Cost(2, dict(track_order=True)), Cost(2, dict(libver="latest"))])
        return Files(prune(top), {"o.h5": other}), opts


# ------------------------------------------------------------------------------------ names
SMALL = ["a", "Z", "0", "_", "-", "."]


def all_names():
    words = [""]
    for _ in range(3):
        words += [w + c for w in words if len(w) < 3 for c in SMALL]
    words = sorted({w for w in words if w and set(w) != {"."}})
    extra = [chr(c) for c in range(1, 127) if chr(c) not in "/."] + ["a" + chr(c) for c in range(1, 127) if chr(c) not in "/@"] + [chr(c) + "a" for c in range(1, 127) if chr(c) not in "/@"]
    extra += ["é", "aé", "日本", "x" * 64, "x" * 200, "a\n", "A\n", "a\r\n", "ab cd", "NX_class", "nx_class", "target", "signal", "validItemName", "NXcollection", "title", "x1", "X1",
              "1x", "1_", "12_", "a.b", "A.b", "a.B", "ab.c1", "ß", "²", "a²", "ａ", "a\u0301", "٣", "_٣", "A_b", "camelCase", "UPPER", "data_1", "aNX", "NX", "NXa", "none", "None", "strict pattern"]
    return sorted(set(words) | {e for e in extra if "@" not in e})


class Names(World):
    """every name of up to three characters of a small alphabet, and a list of longer ones, as field, group and attribute"""
    names = all_names()
    chunk = 60
    batch = 1
    sets = ("v2018.5", "synth1", "a4fd52d", "v3.3", "synth")

    def build(self, ch, _definitions):
        nchunks = (len(self.names) + self.chunk - 1) // self.chunk
        k = ch.choose("names", [Cost(0, i) for i in range(nchunks)])
        role = ch.choose("as", ["field", "group", "plain group", "attribute of group", "attribute of field", "attribute of root"])
        where = ch.choose("in", ["entry", "data", "collection", "below collection", "plain", "root", "linked", "linked to itself", "unknown class", "NXcollection in plain"])
        part = self.names[k * self.chunk:(k + 1) * self.chunk]
        here = {"entry": ("NXentry", {}), "data": ("NXdata", {}), "collection": ("NXcollection", {}), "plain": (None, {}), "linked": ("NXdata", {"target": s("/entry/zz")}),
                "linked to itself": ("NXdata", {"target": s("/entry/home")}), "unknown class": ("NXnone", {})}
        entry = G("NXentry", None, zz=G("NXdata", None, f=D()), e2=G("NXentry"))
        top = G(None, None, entry=entry)
        if where == "entry":
            home = entry
        elif where == "root":
            home = top
        elif where == "below collection":
            home = G("NXdata")
            entry.kids["coll"] = G("NXcollection", None, home=home)
        elif where == "NXcollection in plain":
            home = G("NXcollection")
            entry.kids["plain"] = G(None, None, home=home)
        else:
            home = G(here[where][0], here[where][1])
            entry.kids["home"] = home
        if role == "attribute of group":
            home.attrs.update({x: n(1) for x in part if x not in ("NX_class", "target", "signal")})
        elif role == "attribute of root":
            top.attrs.update({x: n(1) for x in part if x not in ("NX_class", "target")})
        elif role == "attribute of field":
            f = home.kids["zfield"] = D(1, {x: n(1) for x in part if x not in ("target", "NX_class")})
            if where == "linked":
                f.attrs["target"] = s("/entry/zz/f")
            if where == "linked to itself":
                f.attrs["target"] = s("/entry/home/zfield")
        else:
            for x in part:
                if x not in home.kids:
                    home.kids[x] = D(1) if role == "field" else G("NXlog") if role == "group" else G()
        return Files(top), {}


class NamesSmall(World):
    """how single items are linked, stored and placed"""

    def build(self, ch, _definitions):
        def item(label):
            name = ch.choose("name of " + label, ["ok", "Relaxed", "0bad", "a-b", "ok\n", "é", "a.b", "A1", "NXcollection", "aNXcollection", "12_"])
            kind = ch.choose("kind of " + label, [D(), G("NXlog"), G(), G("NXcollection", None, inner=D(), Inner=G("NXlog")), Soft("/entry/zz"), Soft("/entry/zz/f"), Ext("o.h5", "/Q"), Hard("/entry/zz"), T()])
            if isinstance(kind, (D, G)):
                t = ch.choose("target of " + label, [None, "self", s("/entry/zz"), s("/"), s(""), n(1), s("entry/zz"), Val("b", "/entry/zz")])
                place = {"f1": "/entry/", "f2": "/entry/zz/", "f3": "/"}[label]
                kind.attrs["target"] = s(place + name) if t == "self" else t
                kind.attrs[ch.choose("attribute of " + label, ["units", "Units", "0units", "un its", "units\n", "é", "a.b"])] = s("x")
            return name, kind
        zz = G("NXdata", None, f=D(1, {"target": s("/entry/zz/f"), "Up": n(1), "b-d": n(1)}))
        entry = G(ch.choose("entry", ["NXentry", "NXcollection", "NXnone", "NXcollections", "NX/NXcollection", None]), None, zz=zz)
        top = G(None, None, entry=entry)
        for label, home in (("f1", entry), ("f2", zz), ("f3", top)):
            k, v = item(label)
            home.kids[k] = v
        return Files(prune(top), {"o.h5": G(None, None, Q=G("NXdata", {"k": n(1), "K-": n(1)}, **{"w-": D()}))}), {}


# ------------------------------------------------------------------------------------ classes
class Classes(World):
    """every class of the set, and names that are no class, as the class of a group"""
    batch = 1

    def build(self, ch, definitions):
        every = list(ref(definitions).classes) + ["NXnone", "NX", "NXdata2", "NXDATA", "NXentryx", "NXdata ", "NX data", "NXdata\n", "NXé", "NXcollectionx", "NXdata/", "NXentry/NXdata", "NX/NXcollection"]
        chunk = 40
        k = ch.choose("classes", range((len(every) + chunk - 1) // chunk))
        where = ch.choose("in", ["entry", "root", "subentry", "nested", "collection", "unknown", "second link"])
        store = ch.choose("stored", ["s", "b", "sa", "bu"])
        kids = {}
        for i, c in enumerate(every[k * chunk:(k + 1) * chunk]):
            if store == "sa" and not c.isascii():
                continue
            kids["g%d" % i] = G(Val(store, c), None, f=D())
        if ch.choose("definition", [False, True]):
            for g in kids.values():
                g.kids["definition"] = D("NXarpes")
        entry = G("NXentry", None, data=G("NXdata"))
        top = G(None, None, entry=entry)
        if where == "entry":
            entry.kids.update(kids)
        elif where == "root":
            top.kids.update(kids)
        elif where == "second link":
            entry.kids["zhome"] = G("NXinstrument", None, **kids)
            entry.kids["alink"] = Soft("/entry/zhome")
        elif where == "nested":
            for x, g in kids.items():
                g.kids["inner"] = G("NXdata", None, z=G("NXnone"))
                entry.kids["zhome" + x] = g
        else:
            entry.kids["zhome"] = G({"subentry": "NXsubentry", "collection": "NXcollection", "unknown": "NXnone"}[where], None, **kids)
        if ch.choose("root class", [None, "NXroot", "NXentry", "NXnone"]) is not None:
            top.attrs["NX_class"] = s("NXroot")
        return Files(top), {}


# ------------------------------------------------------------------------------------ content of groups
class Content(World):
    """every class of the set with every pattern of declared children and attributes"""
    batch = 1
    chunk = 12

    def build(self, ch, definitions):
        r = ref(definitions)
        every = [c for c in r.classes if c != "NXroot"]
        k = ch.choose("classes", range((len(every) + self.chunk - 1) // self.chunk))
        pattern = ch.choose("children", ["all", "none", "even", "odd", "swapped", "undeclared", "linked", "other case", "named types", "first"])
        attrs = ch.choose("attributes", ["all", "none", "undeclared", "first value", "last value", "other value", "number", "bytes", "list", "value of another"])
        where = ch.choose("in", ["entry", "root", "deep"])
        home = {}
        for i, c in enumerate(every[k * self.chunk:(k + 1) * self.chunk]):
            home["h%d" % i] = self.fill(G(c), r.classes[c], pattern, attrs)
        entry = G("NXentry", None, src=D(1), srcg=G("NXlog"))
        top = G(None, None, entry=entry)
        if ch.choose("root content", [False, True]):
            self.fill(top, r.classes["NXroot"], "all", attrs)
        (entry if where == "entry" else top).kids.update(home if where != "deep" else {"zsample": G("NXsample", None, **home)})
        return Files(top), {}

    def fill(self, g, cls, pattern, attrs):
        declared = [(x, "f") for x in cls["fields"]] + [(x, "g") for x in cls["groups"]]
        for j, (name, kind) in enumerate(declared):
            if pattern == "none" or pattern == "even" and j % 2 or pattern == "odd" and not j % 2 or pattern == "first" and j:
                continue
            if pattern == "swapped":
                kind = "fg"[kind == "f"]
            if pattern == "undeclared":
                name += "_x"
            if pattern == "other case":
                name = name.swapcase()
            if pattern == "linked":
                g.kids.setdefault(name, Soft("/entry/src" if kind == "f" else "/entry/srcg"))
            elif pattern == "named types":
                g.kids.setdefault(name, T())
            else:
                g.kids.setdefault(name, D(1) if kind == "f" else G("NXlog") if j % 3 else G())
        for j, (name, spec) in enumerate(cls["attrs"].items()):
            if attrs == "none" or name in ("NX_class", "target"):
                continue
            values = spec["enums"] or ["some", "text"]
            v = {"all": s(values[0]), "first value": s(values[0]), "last value": s(values[-1]), "other value": s(values[0] + "x"), "number": n(1), "bytes": Val("b", values[-1]),
                 "list": Val("S", [values[0], values[-1]]), "undeclared": s("x"), "value of another": s("r" if name != "mode" else "mm")}[attrs]
            g.attrs[name + "_x" if attrs == "undeclared" else name] = v
        return g


class ContentSmall(World):
    """enumerated attributes and children whose names are close to declared ones"""
    sets = ("synth", "synth1")

    def build(self, ch, _definitions):
        vals = [None, s("mm"), s("cm"), s("m"), s("km"), s("M"), s(""), s("mm "), s("mm cm"), n(1), s("1"), s("a"), s("b"), Val("b", "mm"), Val("bu", "m"), Val("sa", "cm"), Val("S", ["mm"]), Val("S", ["mm", "cm"]),
                Val("empty"), n(1.0)]
        foo = G("NXfoo", {a: ch.choose("foo@" + a, vals) for a in ("units", "one", "signal", "other")})
        for name in ("a", "a_b", "A", "bar", "a_group", "foo", "z", "counts"):
            foo.kids[name] = ch.choose("foo/" + name, [None, D(), G(), G("NXbar"), Soft("/entry/title"), Soft("/entry/bar"), T(), Soft("/nothing")])
        top = G(None, {"mode": ch.choose("/@mode", [None, s("r"), s("w"), s("r+"), s("R"), s("rw")]), "mode_s": s("q")},
                entry=G("NXentry", {"kind": ch.choose("entry@kind", [None, s("raw"), s("reduced"), s(""), s("x")]), "Kind": ch.choose("entry@Kind", [None, s("raw")])}, title=D("x"),
                        foo=foo, bar=G("NXbar", None, definition=ch.choose("bar/definition", [None, D("NXapp")]), entry=ch.choose("bar/entry", [None, G("NXentry")]))))
        return Files(prune(top)), {}


# ------------------------------------------------------------------------------------ default plot
class Plot(World):
    """two entries with two data groups each and everything that may point to the plot"""

    def build(self, ch, _definitions):
        one, two, e1, e2, x, y = ch.choose("names", [("d1", "d2", "e1", "e2", "x", "y"), ("data", "Data", "e1", "E1", "x", "X"), ("d", "dd", "e", "ee", "x", "xx"), ("d10", "d1", "e10", "e1", "x10", "x1")])
        base = ch.choose("start", ["complete", "nothing", "signals only", "old style", "old style, first group", "old style, groups differ"])

        def sig(label, default):
            menu = [None, s(x), s(y), s("bad"), s("sub"), s(""), n(1), Val("b", x), s("X" if x + y != "xX" else "Q")]
            return ch.choose(label, self.menu([default] + [m for m in menu if repr(m) != repr(default)], 5 if "deep" not in label else 2))

        def mark(label, default):
            menu = [None, n(1), s("1"), n(2), s("2"), s(x), n(0), n(numpy.int64(1)), Val("b", "1"), s("")]
            return ch.choose(label, self.menu([default] + [m for m in menu if repr(m) != repr(default)], 5 if "second" not in label else 2))

        def default(label, value, menu):
            return ch.choose(label, self.menu([value] + [m for m in menu + [None, s("bad")] if repr(m) != repr(value)], 4))
        full, sigs = base == "complete", base == "signals only"
        marked = {"old style": [("first", one)], "old style, first group": [("first", one), ("second", one), ("second", two)],
                  "old style, groups differ": [("first", two), ("first", one), ("second", one)]}.get(base, [])
        entries = {}
        for e, ename in (("first", e1), ("second", e2)):
            kids = {}
            for d in (one, two):
                first = (e, d) == ("first", one)
                cls = ch.choose("%s/%s class" % (e, d), ["NXdata", "NXmonitor", None, "NXnone"]) if d == one else "NXdata"
                kids[d] = G(cls, {"signal": sig("%s/%s@signal" % (e, d), s(x) if sigs or full and first else None)},
                            **{x: D(None, {"signal": mark("%s/%s/x@signal" % (e, d), n(1) if (e, d) in marked else None)}),
                               y: D(None, {"signal": mark("%s/%s/y@signal" % (e, d), n(1) if (e, d) in marked[1:] and "differ" in base else None)}), "sub": G("NXlog")})
            cls = ch.choose(e + " class", ["NXentry", None, "NXsubentry"])
            entries[ename] = G(cls, {"default": default(e + "@default", s(one) if full and e == "first" else None, [s(one), s(two), s("deep"), Val("b", one)])}, **kids)
            entries[ename].kids["f"] = D(None, {"signal": mark(e + "/f@signal", None)})
            entries[ename].kids["inst"] = G("NXinstrument", None, deep=G("NXdata", {"signal": sig(e + "/inst/deep@signal", None)}, **{x: D(None, {"signal": mark(e + "/inst/deep/x@signal", None)})}))
        top = G(None, {"default": default("/@default", s(e1) if full else None, [s(e1), s(e2), s(e1 + "/" + one), Val("b", e1)])}, **entries)
        top.kids["d0"] = G("NXdata", {"signal": sig("d0@signal", None)}, **{x: D(None, {"signal": mark("d0/x@signal", None)})})
        return Files(prune(top)), {}


# ------------------------------------------------------------------------------------ references
class References(World):
    def build(self, ch, _definitions):
        sig = [None, s("x"), s("y"), s("bad"), s("sub"), s(""), s("X"), s("0x"), s("é"), n(1), Val("b", "x"), Val("sa", "y"), s("link"), s("glink"), s("broken"), s("x "), s("unit-s"), s("xlink"), s("counts")]

        def pick(label, menu, i):
            return ch.choose(label, self.menu([menu[i]] + menu[:i] + menu[i + 1:], 7 if "data@" in label else 4))
        axes = [None, s("x"), Val("S", ["x", "y"]), Val("S", ["x", "bad"]), Val("S", ["bad", "x"]), s("bad"), Val("S", ["x", "."]), s("."), Val("S", [".", "."]), Val("B", ["x", "y"]), Val("SU", ["y", "bad"]),
                Val("b", "x"), Val("S", ["x", "x"]), s("x,y"), s("x:y"), s("sub"), Val("S", ["x"]), Val("S", ["link", "glink"]), s("X"), Val("S", ["0", "x"]), n(1), Val("S", ["", "x"]),
                Val("S", [".", "bad"]), Val("S", [".", "x", "bad"]), Val("S", ["x", ".", "y", "bad"]), Val("S", ["x", "y", "x", "y", "sub", "bad"]), Val("S", ["0", "bad", ".", "0bad"]), Val("B", [".", "bad"])]
        default = [None, s("data"), s("bad"), s("title"), s("sub"), s("entry"), Val("b", "data"), s(""), n(1), s("Data"), s("glink"), s("data2")]
        target = [None, s("/entry/data"), s("/entry/data/x"), s("/entry/data/nope"), s("/entry/nope/x"), s("entry/data"), s(""), s("/"), s("/entry/"), s("/entry//data"), s("//entry"), s("/entry/data/x/y"),
                  s("/entry/0bad"), s("/entry/a-b"), s("/entry/data/link"), s("/entry/data/broken"), s("/entry/data/sub/inner"), s("/Entry/data"), n(1), Val("b", "/entry/data/x"), s("/entry/data\n"), s("x"),
                  s("/entry/sub/data"), s("/entry/..//data"), s("/entry/./data"), s("/plain"), s("/plain/p"), s("/entry/ext/w"),
                  s("/entry/data/up/data/x"), s("/entry/data/up/data/up"), s("/entry/data/up/nope"), s("/entry/data/top/entry/title")]
        x = D(None, {"target": pick("x@target", target, 0), "axes": ch.choose("x@axes", [None, s("x:y"), s("bad")]), "default": ch.choose("x@default", [None, s("bad")])})
        data = G(ch.choose("data class", ["NXdata", "NXmonitor", "NXnone", "NXfoo"]),
                 {"signal": pick("data@signal", sig, 1), "axes": pick("data@axes", axes, 1), "default": pick("data@default", default, 0), "target": pick("data@target", target, 0)},
                 x=x, y=D(), sub=G("NXlog", None, inner=D()), link=Soft("/entry/data/y"), glink=Soft("/entry/sub"), broken=Soft("/nothing"), up=Soft("/entry"), top=Hard("/"), **{"0x": D(), "unit-s": D()})
        sub = G(ch.choose("sub class", ["NXsubentry", "NXentry", "NXnone"]), {"default": pick("sub@default", default, 1), "signal": pick("sub@signal", sig, 0), "target": pick("sub@target", target, 0)}, data=G("NXdata"), title=D("t"))
        entry = G(ch.choose("entry class", ["NXentry", "NXsubentry", None]),
                  {"default": pick("entry@default", default, 1), "signal": pick("entry@signal", sig, 0), "axes": pick("entry@axes", axes, 0), "target": pick("entry@target", target, 0)},
                  data=data, sub=sub, title=D("t", {"target": pick("title@target", target, 0)}), ext=Ext("o.h5", "/q"), **{"0bad": D(), "a-b": D()})
        top = G(None, {"default": pick("/@default", default, 5)}, entry=entry, plain=G(None, {"signal": s("bad"), "target": s("bad")}, p=D()))
        return Files(prune(top), {"o.h5": G(None, None, q=G("NXdata", {"signal": pick("ext@signal", [s("w"), s("bad"), s("x")], 0)}, w=D()))}), {}


# ------------------------------------------------------------------------------------ application definitions
class Applications(World):
    """every class name as the definition of an entry, a subentry, with fields present or not"""
    sets = ("v2018.5", "synth", "v3.3", "a4fd52d", "synth1")
    free = ("v2018.5", "synth")

    def build(self, ch, definitions):
        r = ref(definitions)
        names = sorted(r.classes, key=lambda c: (r.classes[c]["category"] == "base_classes", c))
        names = names + ["NXnone", "", "NX", "nxarpes", "NXarpes ", "NXARPES", "arpes"]
        name = ch.choose("definition", [Cost(0, x) for x in names])
        fields = {}
        cls = r.classes.get(name)
        if cls is not None and cls["groups"]:
            fields = list(cls["groups"].values())[0]["fields"]
        where = ch.choose("in", ["entry", "subentry", "both", "elsewhere", "entry in entry", "two entries", "two entries, one definition", "two entries, one content", "entry of two names"])
        present = ch.choose("present", ["all", "none"] + ["without " + f for f in fields] + ["only " + f for f in fields])
        kind = ch.choose("kind", ["text", "group", "link", "broken link", "number", "bytes", "list", "fixed utf8", "wrong", "second of list", "empty list", "empty", "value of next", "prefix", "blanks", "blank before", "line end", "other case", "list of one", "two values", "unit"])
        store = ch.choose("definition stored", ["s", "b", "S", "B", "sa", "S2", "first of two", "second of two", "number", "none", "group", "blanks", "line end", "other case"])
        kids = {}
        for j, (f, spec) in enumerate(fields.items()):
            if present == "none" or present == "without " + f or present.startswith("only ") and present != "only " + f:
                continue
            enums = [e for e in spec["enums"]] or ["text"]
            v = enums[-1]
            kids[f] = {"text": D(s(v)), "group": G("NXlog"), "link": Soft("/src/" + f), "broken link": Soft("/nothing"), "number": D(n(3)), "bytes": D(Val("b", v or "x")), "list": D(Val("S", [v, "zz"])),
                       "fixed utf8": D(Val("bu", v or "x")), "wrong": D(s(v + "x")), "second of list": D(Val("S", ["zz", v])), "empty list": D(Val("zs")), "empty": D(Val("empty")),
                       "value of next": D(s("one" if f == "mod" else "mod")), "prefix": D(s(v[:-1])), "blanks": D(s(" %s " % v)), "blank before": D(s(" " + v)), "line end": D(s(v + "\n")), "other case": D(s(v.swapcase())),
                       "list of one": D(Val("S", [v])), "two values": D(s(v + " " + v)), "unit": D(s(v), {"units": s(v)})}[kind]
        src = G(None, None, **{f: D(s(([e for e in spec["enums"]] or ["x"])[0])) for f, spec in fields.items()})
        d = {"s": D(s(name)), "b": D(Val("b", name or "x")), "S": D(Val("S", [name])), "B": D(Val("B", [name])), "sa": D(Val("sa", name)), "S2": D(Val("S2", [[name, "x"], ["y", "z"]])),
             "first of two": D(Val("S", [name, "NXother"])), "second of two": D(Val("S", ["NXother", name])), "number": D(n(4)), "none": None, "group": G("NXnote"),
             "blanks": D(s(" %s " % name)), "line end": D(s(name + "\n")), "other case": D(s(name.swapcase()))}[store]
        entry = G("NXentry", None, data=G("NXdata"), title=D("t"))
        top = G(None, None, entry=entry, src=src)
        homes = []
        if where in ("subentry", "both"):
            homes.append(entry.kids.setdefault("sub", G("NXsubentry", None, title=D("u"))))
        if where in ("entry", "both", "entry of two names") or where.startswith("two entries"):
            homes.append(entry)
        if where == "two entries":
            top.kids["last"] = G("NXentry")
            homes.append(top.kids["last"])
        if where == "elsewhere":
            top.kids["sub2"] = G("NXsubentry")
            entry.kids["inst"] = G("NXinstrument")
            homes += [top.kids["sub2"], entry.kids["inst"]]
        if where == "entry in entry":
            entry.kids["e2"] = G("NXentry")
            homes.append(entry.kids["e2"])
        for h in homes:
            if where == "both" and h is entry and ch.choose("entry has another definition", [False, True]):
                h.kids["definition"] = D("NXarchive")
                continue
            h.kids.update(kids)
            # an enumerated definition field is the definition itself
            if d is not None:
                h.kids["definition"] = d
        if where == "two entries, one definition":
            top.kids["last"] = G("NXentry", None, definition=Hard("/entry/definition") if "definition" in entry.kids else None)
        if where == "two entries, one content":
            top.kids["last"] = G("NXentry", None, **{k: Hard("/entry/" + k) for k in entry.kids if not isinstance(entry.kids[k], Soft)})
        if where == "entry of two names":
            top.kids["last"] = Hard("/entry")
        return Files(prune(top)), {}


# ------------------------------------------------------------------------------------ many items
class Many(World):
    """the same items many times, in one place or in many"""
    sets = ("v2018.5", "synth1")
    batch = 1
    limit = 300
    few = (11, 101, 401)

    def build(self, ch, definitions):
        m = ch.choose("number", [Cost(0, x) for x in (self.few if not self.deep else (10, 11, 12, 16, 17, 33, 65, 101, 129, 257, 1030))])
        kind = ch.choose("of", [Cost(0, x) for x in ("fields", "groups", "attributes", "field attributes", "axes", "plots", "old plots", "entries", "subentries", "links", "one class", "levels", "targets", "root fields", "long names")])
        odd = ch.choose("the odd one is", [Cost(0, x) for x in ("none", "first", "last", "the middle one")])
        at = {"none": -1, "first": 0, "last": m - 1, "the middle one": m // 2}[odd]
        data = G("NXdata", {"signal": s("x")}, x=D(), y=D())
        entry = G("NXentry", {"default": s("data")}, data=data, title=D("t"))
        top = G(None, {"default": s("entry")}, entry=entry)
        names = ["%s%d" % ("abcdefg"[i % 7], i) for i in range(m)]
        if kind in ("fields", "root fields", "long names"):
            home = top if kind == "root fields" else data
            for i, x in enumerate(names):
                home.kids[(("0-" if i % 2 else "X") if i == at else "") + x + ("_" + "z" * m if kind == "long names" else "")] = D()
        elif kind == "groups":
            classes = ["NXlog", "NXnote", "NXdata"]
            for i, x in enumerate(names):
                entry.kids[x] = G(["NXnone", "NXarpes", None][m % 3] if i == at else classes[i % 3], None, f=D())
        elif kind in ("attributes", "field attributes"):
            home = data if kind == "attributes" else data.kids["x"]
            for i, x in enumerate(names[:300]):
                home.attrs[("0-" if i == at else "") + x] = n(i)
        elif kind == "axes":
            data.attrs["axes"] = Val("S", ["bad" if i == at else "xy"[i % 2] for i in range(m)])
        elif kind == "plots":
            bare = ch.choose("@signal of the others", [True, False])
            del data.attrs["signal"]
            del entry.attrs["default"]
            for i, x in enumerate(names):
                entry.kids[x] = G("NXdata", {"signal": s("bad" if bare else "x")} if i == at else {"signal": s("x")} if bare else {}, x=D())
        elif kind == "old plots":
            del data.attrs["signal"]
            for i, x in enumerate(names):
                entry.kids[x] = G("NXdata", None, x=D(None, {"signal": n(1)}), y=D(None, {"signal": n(1)} if i != at else {}))
        elif kind in ("entries", "subentries"):
            for i, x in enumerate(names):
                g = G("NXentry" if kind == "entries" else "NXsubentry", {"default": s("bad" if i == at else "data")}, data=G("NXdata", {"signal": s("y")}, y=D()), title=D("t"),
                      definition=D("NXnone" if i == at and m % 2 else "NXobject" if i == at else ["NXarpes", "NXsas"][i % 2]))
                (top if kind == "entries" else entry).kids[x] = g
        elif kind == "links":
            for i, x in enumerate(names):
                entry.kids[x] = Soft("/nowhere") if i == at else Hard("/entry/data") if i % 2 else Soft("/entry/data")
        elif kind == "one class":
            for i, x in enumerate(names):
                g = entry.kids[x] = G("NXsample", {"default": s("a")}, name=D("a"), type=D("a"))
                if i == at:
                    g.kids["undeclared"] = D()
                    g.kids["temperature"] = G()
                    del g.kids["name"]
        elif kind == "levels":
            here = entry
            for i, x in enumerate(names[:120]):
                here.kids["f"] = D()
                here.kids[x] = here = G("NXnone" if i == at else "NXcollection" if at > 0 and i == at - 1 else "NXnote")
        elif kind == "targets":
            for i, x in enumerate(names):
                data.kids[x] = D(None, {"target": s("/entry/data/" + ("none" if i == at else names[(i + 1) % m]))})
        return Files(prune(top)), {}


WORLDS = dict(Many=Many, Structure=Structure, Names=Names, NamesSmall=NamesSmall, Classes=Classes, Content=Content, ContentSmall=ContentSmall, Plot=Plot, References=References, Applications=Applications)


def run(ctx, plan):
    """plan: (world, quick bound, thorough bound)"""
    prepare()
    for world, quick, thorough in plan:
        bound = thorough if ctx.thorough else quick
        if bound is None:
            continue
        ctx.explore(WORLDS[world](ctx.prop, ctx.thorough), bound)
    ctx.assumptions.append("the independent reading of the NXDL files (mc/nxdlref.py) and the reference model (mc/model.py) state the property")
