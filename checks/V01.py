"""V01: validation finishes on every readable HDF5 file."""
from mc import h5spec, sut
from mc.deep import Deep
from mc.explore import Cost
from mc.h5spec import D, Ext, Files, G, Hard, Soft, T, Val, n, s

import numpy

ABSENT = None


def attr_menu(default, cost=1):
    """what an attribute may hold: the default, then common wrong values, then every storage kind"""
    core = [ABSENT, s("nowhere"), s(""), n(1), Val("b", "counts"), Val("S", ["counts", "x"]), Val("I", None), Val("empty")]
    core[6] = n(numpy.array([1, 2]))
    rare = [s("/entry/data"), s("entry/data/counts"), s("."), s("é"), s("NXdata"), s("NXnone"), s("NX"), s("NXdata/x"), s("NX@signal"), s("1"), s("a@b"), s("a b"), s("x" * 300),
            s("/"), s("//"), s("@"), s("..."), s("/entry"), s("/entry/data/"), s("line\nbreak\n"), s("x\n"),
            Val("sa", "counts"), Val("bu", "x"), Val("B", ["counts", "x"]), Val("S", ["counts"]), Val("S", [""]), Val("B", [""]),
            Val("SU", ["é", "x"]), Val("S2", [["a", "b"], ["c", "d"]]), Val("B2", [["a", "b"]]), n(1.5), n(numpy.float32("nan")), n(True),
            n(numpy.array([[1, 2]])), n(numpy.array([1])), n(numpy.uint64(2**63)), n(2 + 3j), n(0), n(-1), n(numpy.array([], dtype="f8")),
            Val("emptys"), Val("zs"), Val("zb"), Val("zi"), Val("ref"), Val("raw", b"\xff\xfe"), Val("rawv", b"\xe9t\xe9"), Val("rawu", b"\xff"),
            Val("rawa", [b"\xff", b"x"]), Val("cpd"), Val("cpda"), Val("enum"), Val("vlen"), Val("opaque"), Val("time")]
    return [default] + [Cost(cost, v) for v in core] + [Cost(2, v) for v in rare]


def node_menu(default, cost=1):
    up = "/entry"
    core = [ABSENT, D(), G(), G("NXdata"), Soft("/nowhere"), Soft("/entry/data"), D("NXarpes")]
    rare = [D(1.5), D(""), D(Val("b", "text")), D(Val("S", ["NXarpes", "b"])), D(Val("B", ["NXcanSAS"])), D(Val("zs")), D(Val("zb")), D(Val("zi")), D(Val("empty")), D(Val("emptys")),
            D(Val("cpd")), D(Val("cpda")), D(Val("enum")), D(Val("vlen")), D(Val("opaque")), D(Val("time")), D(Val("ref")), D(Val("raw", b"\xff\xfe")),
            D(Val("rawv", b"\xe9")), D(Val("rawu", b"\xff")), D(Val("S2", [["a", "b"]])), D(n(numpy.zeros((2, 3, 1)))), D(n(True)),
            D(Val("s", "é")), D("NXdata"), D("NXnone"), D("NXsnsevent"), D("NXroot"), D("NXobject"), D("NXcontainer"), D("NXarchive"), D("NXsas"),
            D(n(numpy.zeros((0, 3)))), T(), T({"NX_class": s("NXdata")}), T({"target": s("/entry")}),
            G("NXcollection", a=D(), b=G()), G("NXarpes"), G("NXnone"), G("NX"), G("NXentry"), G("NXsnsevent"), G("NXlog", time=G(), value=T()),
            Soft(up), Soft("/"), Soft("."), Soft("self"), Soft("/entry/data/counts"), Soft("data/counts"), Soft("../x"), Soft("/entry/data/counts/x"),
            Ext("o.h5", "/q"), Ext("o.h5", "/"), Ext("o.h5", "/q/w"), Ext("o.h5", "/zzz"), Ext("nofile.h5", "/q"), Ext("bad.txt", "/q"), Ext("o.h5", "/back"),
            Hard("/entry/data"), Hard(up), Hard("/"), Hard("/entry/data/counts")]
    return [default] + [Cost(cost, v) for v in core] + [Cost(2, v) for v in rare]


NAMES = ["title", "a@b", "x@NX_class", "x@target", "@", "a@", "@signal", "NX_class", "é", "a b", "line\n", "UPPER", "0", "x" * 255, ".a", "a.b", "\t", "target", "NXcollection", "NXdata@signal", "NXsubentry", "definition@x",
         "x:y", "日本", "a@b@c", "\udcff", "a\udce9b"]

CORE_ATTRS = ["entry@NX_class", "entry@default", "data@signal", "data@axes", "counts@signal", "data@NX_class", "counts@target"]
MORE_ATTRS = ["/@default", "/@NX_class", "/@target", "/@other", "/@HDF5_Version", "entry@target", "entry@extra", "data@target", "data@x_indices", "data@default", "counts@axes",
              "counts@NX_class", "counts@units", "counts@default", "x@axis", "x@primary", "sub@NX_class", "sub@default", "notes@target", "plain@NX_class", "plain@target", "title@target",
              "definition@target", "definition@version", "tr@transformation_type", "tr@vector", "tr@depends_on"]
CORE_KIDS = ["definition", "data", "counts", "extra"]
MORE_KIDS = ["/extra", "x", "sub", "subdefinition", "title", "start_time", "notes"]

DEFAULT = {"/@default": s("entry"), "entry@NX_class": s("NXentry"), "entry@default": s("data"), "data@NX_class": s("NXdata"), "data@signal": s("counts"),
           "data@axes": s("x"), "data@x_indices": n(0), "counts@units": s("counts"), "sub@NX_class": s("NXsubentry"),
           "tr@transformation_type": s("rotation"), "tr@vector": n([0, 0, 1]), "tr@depends_on": s(".")}


class Totality:
    """a NeXus file with any attribute, object or name replaced"""
    batch = 24
    limit = 60

    def __init__(self, deep=0):
        self.args = [deep]
        self.deep = deep

    def build(self, ch):
        attrs = {}
        groups = {}
        for slot in CORE_ATTRS + MORE_ATTRS:
            owner, name = slot.split("@")
            v = ch.choose(slot, attr_menu(DEFAULT.get(slot), 1 if self.deep or slot in CORE_ATTRS else 2))
            if v is not None:
                groups.setdefault(owner, {})[name] = v
        attrs = groups
        kids = {}
        default = {"definition": D("NXarpes"), "data": "DATA", "counts": D(n(numpy.arange(6).reshape(2, 3)), attrs.get("counts")),
                   "x": D([1.0, 2, 3], attrs.get("x")), "extra": ABSENT, "/extra": ABSENT, "title": D("a title", attrs.get("title")),
                   "start_time": D("2020-01-01"), "sub": "SUB", "subdefinition": D("NXsas"), "notes": "NOTES"}
        for slot in CORE_KIDS + MORE_KIDS:
            kids[slot] = ch.choose(slot, node_menu(default[slot], 1 if self.deep or slot in CORE_KIDS else 2))
        name = ch.choose("name", [NAMES[0]] + [Cost(2, x) for x in NAMES[1:]])
        if isinstance(kids["definition"], D):
            kids["definition"].attrs.update(attrs.get("definition", {}))
        entry = G(None, attrs.get("entry"))
        top = G(None, attrs.get("/"))
        top.kids["entry"] = entry
        if kids["data"] == "DATA":
            kids["data"] = G(None, attrs.get("data"), counts=kids["counts"], x=kids["x"])
        if kids["sub"] == "SUB":
            kids["sub"] = G(None, attrs.get("sub"), definition=kids["subdefinition"])
        if kids["notes"] == "NOTES":
            kids["notes"] = G("NXcollection", attrs.get("notes"), a=D(), g=G())
        order = [("data", "data"), ("sub", "sub"), ("definition", "definition"), (name, "title"), ("start_time", "start_time"), ("notes", "notes"), ("extra", "extra")]
        for key, slot in order:
            if kids[slot] is not ABSENT:
                entry.kids[key] = kids[slot]
        entry.kids["instrument"] = G("NXinstrument", detector=G("NXdetector", transformations=G("NXtransformations", tr=D(0.5, attrs.get("tr")))))
        entry.kids["plain"] = G(None, attrs.get("plain"), inner=G("NXdata", x=D()))
        if kids["/extra"] is not ABSENT:
            top.kids["extra"] = kids["/extra"]

        def prune(g):
            for k in list(g.kids):
                if g.kids[k] is ABSENT:
                    del g.kids[k]
                elif isinstance(g.kids[k], G):
                    prune(g.kids[k])
        prune(top)
        return Files(top, {"o.h5": G(None, q=G("NXdata", {"signal": s("w")}, w=D()), back=Ext("main.h5", "/entry"))})

    def execute(self, ch):
        import h5py
        definitions = ch.choose("set", ["v2018.5", Cost(2, "v3.3"), Cost(2, "a4fd52d")])
        files = self.build(ch)
        try:
            ctx = sut.written(files, "main.h5")
            path = ctx.__enter__()
        except (KeyError, ValueError, OSError, TypeError, RuntimeError) as exc:
            ch.observe("not writable")    # HDF5 itself refuses this combination (e.g. hard link to a missing object)
            if not isinstance(exc, (KeyError, RuntimeError)) or not any("Hard" in t[1] for t in ch.trace):
                raise
            return
        try:
            import os
            with open(os.path.join(os.path.dirname(path), "bad.txt"), "w") as f:
                f.write("not HDF5")
            r = sut.validate(path, definitions, report=True)
        finally:
            ctx.__exit__(None, None, None)
        known = {"OK", "NOTE", "WARN", "ERROR", "TODO", "UNUSED", "COMMENT", "OPTIONAL"}
        for a, t, st, c in r.findings:
            if st not in known:
                ch.fail("status", "finding with unknown status %r" % st)
        if not r.findings:
            ch.fail("empty", "no findings")
        if "summary statistics" not in r.report:
            ch.fail("report", "the printed report is incomplete")
        ch.observe(sorted(x[2] for x in r.findings), sorted(r.addresses))


HARNESSES = {"Totality": Totality, "Deep": Deep}


def run(ctx):
    sut.preload()
    ctx.explore(Totality(1 if ctx.thorough else 0), 2)
    ctx.explore(Deep("V01", [20, 600, 1100] if not ctx.thorough else [20, 300, 500, 900, 960, 970, 980, 985, 990, 995, 1000, 1005, 1100, 1500, 3000]), 1 if not ctx.thorough else 2)
    ctx.assumptions.append("values of every HDF5 type class are represented by one or two members of the menu")
