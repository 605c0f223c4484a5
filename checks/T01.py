"""T01: the tree view shows every item of an HDF5 file once, in its place."""
import os

import numpy

from checks import V01
from mc import sut, tree, worlds
from mc.deep import Deep
from mc.explore import Cost
from mc.h5spec import D, Ext, Files, G, Hard, Soft, T, Val, n, s


class View:
    batch = 24
    limit = 60

    def execute(self, ch):
        import punx.h5tree
        files = self.build(ch)
        try:
            ctx = sut.written(files, "main.h5", **self.options)
            path = ctx.__enter__()
        except (KeyError, RuntimeError, OSError):
            if not any("Hard" in t[1] for t in ch.trace):
                raise
            ch.observe("not writable")     # a hard link to nothing
            return
        try:
            with open(os.path.join(os.path.dirname(path), "bad.txt"), "w") as f:
                f.write("not HDF5")
            view = punx.h5tree.Hdf5TreeView(path)
            first = view.report(True)
            bare = view.report(False)
            again = view.report(True)
            if again != first:
                ch.fail("repeated", "two reports of one view differ")
            other = punx.h5tree.Hdf5TreeView(path).report(False)
            if other != bare:
                ch.fail("repeated", "reports of two views differ")
        finally:
            ctx.__exit__(None, None, None)
        tree.judge(files, path, first, bare, ch.fail)
        ch.observe(first[1:])

    options = {}


class Totality(View):
    """the file of V01: any value, object or name replaced"""

    def __init__(self, deep=0):
        self.args = [deep]
        self.inner = V01.Totality(deep)

    def build(self, ch):
        return self.inner.build(ch)


class Nested(View):
    """groups in groups, fields and links between them, in all orders of kinds and names"""

    def __init__(self, deep=0):
        self.args = [deep]
        self.deep = deep

    def build(self, ch):
        def kid(label, depth):
            menu = [None, D([1, 2], {"q": n(1)}), G(None, {"k": s("v")}), T({"t": n(2)})]
            if depth:
                menu[2:2] = ["sub"]
            menu += [Soft("/a"), Hard("/a"), Ext("o.h5", "/q"), D(n(numpy.arange(24).reshape(2, 3, 4)), {"z": n(1)}), D("text", {"u": s("w")}), G("NXentry")]
            k = ch.choose(label, [m if i == 0 else Cost(1, m) for i, m in enumerate(menu)])
            if k == "sub":
                k = G(ch.choose(label + " class", [None, "NXdata", "NXentry"]), {"at": n(1)})
                for x in ("a", "m", "z"):
                    k.kids[x] = kid(label + "/" + x, depth - 1)
            return k
        top = G()
        for x in ("a", "b", "c"):
            top.kids[x] = kid("/" + x, 2)
        opts = ch.choose("writing", [{}, Cost(1, dict(track_order=True)), Cost(1, dict(libver="latest"))])
        self.options = opts
        from mc.worlds import prune
        return Files(prune(top), {"o.h5": G(None, None, q=G("NXdata", {"signal": s("w")}, w=D([1.5, 2.5], {"target": s("/q/w")}), v=D([1], {"target": s("/q/w")})))})


class Many(View):
    """the same items many times"""
    batch = 2

    def __init__(self, deep=False):
        self.args = [deep]
        self.inner = worlds.Many("T01", deep)
        self.inner.few = (11, 101)

    def build(self, ch):
        return self.inner.build(ch, None)[0]


HARNESSES = dict(Many=Many, Totality=Totality, Nested=Nested, Deep=Deep)


def run(ctx):
    import punx.h5tree  # noqa
    ctx.explore(Totality(1 if ctx.thorough else 0), 2)
    ctx.explore(Nested(), 4 if ctx.thorough else 3)
    ctx.explore(Many(ctx.thorough), 0)
    ctx.explore(Deep("T01", [20, 600, 1100] if not ctx.thorough else [20, 300, 500, 900, 960, 970, 980, 985, 990, 995, 1000, 1005, 1100, 1500, 3000]), 1 if not ctx.thorough else 2)
    ctx.assumptions.append("order of lines within a group, and the exact text for values of types other than text, integer and real numbers, are not judged")
