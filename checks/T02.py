"""T02: previews of arrays."""
import contextlib
import io
import os
import re
import sys

import h5py
import numpy

from mc import env
from mc.explore import Cost


def tokens(text):
    return re.findall(r"[\[\]]|[^\s,\[\]'\"]+", text)


def preview(a, limit):
    """tokens of the preview of array a: all of a dimension that fits, else the first limit-2, an ellipsis and the last"""
    if a.ndim == 0:
        return [str(a[()])]
    size = a.shape[0]
    index = list(range(size)) if size <= limit else list(range(limit - 2)) + [None, size - 1]
    out = ["["]
    for i in index:
        out += ["..."] if i is None else preview(a[i], limit)
    return out + ["]"]


TYPES = ["i4", "f8", "u1", "?", ">i2", "f4", "i8", "c16", "i8 big", "u8 big", "f8 fine", "f4 fine", "i1"]


def array(shape, dtype):
    size = int(numpy.prod(shape)) if shape else 1
    if dtype == "?":
        return (numpy.arange(size) * 7 % 5 > 2).reshape(shape)
    if dtype in ("f8", "f4"):
        return (numpy.arange(size) * 1.5 - 2).astype(dtype).reshape(shape)
    if dtype.endswith(" big"):
        return (numpy.arange(size).astype(dtype[:2]) * 3 + numpy.array(2**62 + 1 if dtype[0] == "i" else 2**63 + 5, dtype[:2])).reshape(shape)
    if dtype.endswith(" fine"):
        return ((numpy.arange(size) - 3) / 7 * 10.0 ** (numpy.arange(size) % 13 - 6)).astype(dtype[:2]).reshape(shape)
    if dtype == "i1":
        return (numpy.arange(size) % 200 - 100).astype("i1").reshape(shape)
    if dtype == "c16":
        return (numpy.arange(size) + 2j).reshape(shape)
    return (numpy.arange(size) * (1 if size < 250 else 0) + 1).astype(dtype).reshape(shape)


class Arrays:
    """every shape and element type; every limit within one execution"""
    batch = 8
    limit = 120

    def __init__(self, deep=0):
        self.args = [deep]
        self.deep = deep
        small, mid, long = (6, 8, 14) if deep else (4, 6, 11)
        self.shapes = [()] + [(i,) for i in range(long + 1)] + [(i, j) for i in range(mid + 1) for j in range(mid + 1)]
        self.shapes += [(i, j, k) for i in range(small + 1) for j in range(small + 1) for k in range(small + 1)]
        self.shapes += [(1, 7, 2), (7, 1, 1), (1, 1, 9), (7, 7, 7), (2, 2, 2, 2), (1, 1, 1, 1), (6, 1, 1, 1), (2, 1, 2, 1, 2), (0, 1, 1, 1), (20,), (100,), (20, 20), (200, 1), (1, 200)]
        self.limits = list(range(-1, 10)) + [11, 20, 100, 1000]

    def execute(self, ch):
        import punx.h5tree
        import punx.main
        dtype = ch.choose("element type", [Cost(0, t) for t in TYPES])
        shape = ch.choose("shape", [Cost(0, x) for x in self.shapes])
        nexus = ch.choose("file", ["plain", "NeXus"])
        layout = ch.choose("layout", [{}, dict(chunks=True)])
        a = array(shape, dtype)
        path = os.path.join(env.workdir(), "array.h5")
        with h5py.File(path, "w") as f:
            g = f.create_group("entry")
            if nexus == "NeXus":
                g.attrs["NX_class"] = "NXentry"
            g.create_dataset("x", data=a, **(layout if a.size and a.ndim else {}))
        ch.count = 0
        for limit in self.limits:
            view = punx.h5tree.Hdf5TreeView(path)
            view.array_items_shown = limit
            full = view.report(False)
            ch.count += 1
            self.judge(ch, a, limit, full, "library")
            if shape in ((), (1,), (3,), (7,), (6, 6), (2, 7), (4, 4, 4), (11,)) and dtype in ("i4", "f8"):
                old, sys.argv = sys.argv, ["punx", "tree", "-m", str(limit), path]
                out = io.StringIO()
                try:
                    with contextlib.redirect_stdout(out):
                        punx.main.main()
                except SystemExit as exc:
                    ch.fail("command", "punx tree -m %d ends with status %r" % (limit, exc.code))
                finally:
                    sys.argv = old
                if not out.getvalue().rstrip("\n").endswith("\n".join(full[2:])):
                    ch.fail("command:preview", "punx tree -m %d shows %r, the library %r" % (limit, out.getvalue()[-200:], full[2:]))
        if punx.h5tree.Hdf5TreeView(path).array_items_shown != 5:
            ch.fail("default", "the limit of a new view is %r" % punx.h5tree.Hdf5TreeView(path).array_items_shown)
        ch.observe(dtype, shape, nexus)

    def judge(self, ch, a, limit, report, how):
        case = "%s array of shape %r, limit %d (%s)" % (a.dtype, a.shape, limit, how)
        text = "\n".join(report[2:])
        head, sep, value = text.partition(" = ")
        want = preview(a, limit) if limit > 2 else None
        kind = "rank %d" % a.ndim
        if a.shape == ():
            if tokens(value) != preview(a, limit):
                ch.fail("scalar", "%s: %r" % (case, text))
            return
        if a.shape == (1,):
            if tokens(value) != [str(a[0])]:
                ch.fail("one element", "%s: %r" % (case, text))
            return
        if a.ndim > 1 and limit > 2:
            mark, sep, value = value.partition("__array = ")
            if mark.strip() != "__array" or not sep:
                ch.fail("array mark", "%s: %r" % (case, text[:200]))
                return
        if limit <= 2:
            if tokens(value) != ["[", "...", "]"]:
                ch.fail("placeholder", "%s: %r" % (case, text[:200]))
            return
        if a.ndim > 3:
            # higher ranks: only the number of items of the first dimension
            size = a.shape[0]
            got = tokens(value)[1:-1]
            n = size if size <= limit else limit
            if len(got) != n or (n < size) != ("..." in got):
                ch.fail(kind, "%s: %r" % (case, text[:300]))
            return
        if tokens(value) != want:
            ch.fail(kind, "%s: %r, expected %r" % (case, text[:300], " ".join(want)[:300]))


HARNESSES = dict(Arrays=Arrays)


def run(ctx):
    import punx.main, punx.h5tree  # noqa
    ctx.explore(Arrays(1 if ctx.thorough else 0), 1)
    ctx.assumptions.append("arrays of rank 4 and more: only the number of entries of the first dimension is judged")
