"""T03: links are shown as links, whether or not their target is available, from every working directory."""
import os

from mc import env, h5spec, tree
from mc.explore import Cost
from mc.h5spec import D, Ext, Files, G, Hard, Soft, T, Val, n, s
from mc.worlds import prune


def other():
    return G(None, None, q=G("NXdata", {"signal": s("w"), "file": s("own")}, w=D([1.5, 2.5], {"target": s("/q/w")}), v=D([1], {"target": s("/q/w")}), soft=Soft("/q/w"), none=Soft("/nowhere")), e=G("NXentry"),
             back=Ext("main.h5", "/entry"), up=Hard("/q"), d=D("text", {"target": s("/entry/data")}), tt=T({"k": s("v")}), loop=Ext("o.h5", "/loop"))


def decoy():
    return G(None, None, q=D("decoy"), e=D("decoy"))


def links():
    for path in ("/entry/data", "/entry/data/counts", "/nowhere", "/", "/entry", ".", "data", "../x", "/entry/l1", "/entry/data/l2", "/entry/tt",
                 "/entry//data/", "/entry/./data", "./data", "data/", "/entry/../entry", " ", "/nowhere/", "//", "é", "a --> b", "x@y", "a:b"):
        yield Soft(path)
    for path in ("/q", "/q/w", "/q/v", "/none", "/", "/e", "/back", "/back/data", "/q/soft", "/q/none", "/up", "/d", "/tt", "/loop", "q", "/q/", "//q/./w", "./none", "/q/../q", " ", "é"):
        yield Ext("o.h5", path)
    yield from [Ext("sub/o2.h5", "/q"), Ext("sub/o2.h5", "/q/w"), Ext("./o.h5", "/q"), Ext("sub/../o.h5", "/q"), Ext(".//o.h5", "/none"), Ext("sub", "/"), Ext(" ", "/"), Ext("..", "x"), Ext("ABS/o.h5", "/q/w"), Ext("ABS/none.h5", "/q"), Ext("nofile.h5", "/q"), Ext("bad.txt", "/q"), Ext("dir.h5", "/q"), Ext("zero.h5", "/q"),
                Ext("main.h5", "/entry"), Ext("main.h5", "/"), Ext("main.h5", "/entry/data/counts"), Ext("main.h5", "/entry/l1"), Ext("no folder/x.h5", "/q w"), Ext("é.h5", "/é")]
    for path in ("/entry/data", "/entry/data/counts", "/", "/entry", "/entry/tt"):
        yield Hard(path)


class Links:
    """two links of any kind, any addresses in @target, any working directory"""
    batch = 32
    limit = 60

    def __init__(self, deep=0):
        self.args = [deep]
        self.deep = deep

    def execute(self, ch):
        import punx.h5tree
        top = env.workdir()
        folder = os.path.join(top, "d")
        for d in ("d", "d/sub", "d/dir.h5", "e"):
            os.makedirs(os.path.join(top, d), exist_ok=True)

        def absolute(l):
            return Ext(l.file.replace("ABS", folder), l.path) if isinstance(l, Ext) else l
        menu = [None] + list(links())
        l1 = ch.choose("l1 in entry", [Cost(0, l) for l in menu])
        l2 = ch.choose("l2 in data", [m if i == 0 else Cost(1, m) for i, m in enumerate(menu)])
        name = ch.choose("name of l1", ["l1", "\udcff", "a b", "日本"])
        targets = [None, s("/entry/data"), s("/entry/data/counts"), s("/q/w"), s("/nowhere"), s(""), n(1), s("counts"), Val("b", "/q"), Val("S", ["/q"]), s("/"), s("/entry"), s("/entry/l1"), s("/entry/data/l2"), s("/entry/tt")]
        data = G("NXdata", {"signal": s("counts"), "target": ch.choose("data@target", targets)}, counts=D([1, 2], {"target": ch.choose("counts@target", [targets[2]] + targets)}), l2=absolute(l2))
        entry = G("NXentry", {"target": ch.choose("entry@target", targets)}, data=data, tt=T({"target": ch.choose("tt@target", targets)}), **{name: absolute(l1)})
        main = prune(G(None, {"target": ch.choose("/@target", targets)}, entry=entry))
        files = Files(main, {"o.h5": other(), "o2.h5": other()})
        where = ch.choose("working directory", ["folder of the file", "another with files of these names", "/", "subfolder"])
        given = ch.choose("file given by", ["absolute path", "relative path"])
        paths = [os.path.join(folder, x) for x in ("o.h5", "sub/o2.h5")]
        main_path = os.path.join(folder, "main.h5")
        cwd = os.getcwd()
        try:
            for p in paths:
                if not os.path.exists(p):
                    h5spec.write(other(), p)
            for x in ("o.h5", "o2.h5", "main.h5"):
                if not os.path.exists(os.path.join(top, "e", x)):
                    h5spec.write(decoy(), os.path.join(top, "e", x))
            for x, content in (("bad.txt", b"not HDF5"), ("zero.h5", b"")):
                with open(os.path.join(folder, x), "wb") as f:
                    f.write(content)
            try:
                h5spec.write(main, main_path)
            except (KeyError, RuntimeError, OSError):
                if not any("Hard" in t[1] for t in ch.trace):
                    raise
                ch.observe("not writable")
                return
            os.chdir({"folder of the file": folder, "another with files of these names": os.path.join(top, "e"), "/": "/", "subfolder": os.path.join(folder, "sub")}[where])
            path = main_path if given == "absolute path" else os.path.relpath(main_path)
            full = punx.h5tree.Hdf5TreeView(path).report(True)
            bare = punx.h5tree.Hdf5TreeView(path).report(False)
        finally:
            os.chdir(cwd)
        tree.judge(files, path, full, bare, ch.fail)
        ch.observe(full[1:])


HARNESSES = dict(Links=Links)


def run(ctx):
    import punx.h5tree  # noqa
    ctx.explore(Links(), 2 if ctx.thorough else 1)
    ctx.assumptions.append("a missing external file is missing for HDF5: no file of that name in the current directory either (HDF5 itself looks there last)")
