"""
Abstract HDF5 files: the description a harness builds, the writer that makes the real file from it, and
the part of the reference model that every property shares (which items exist, where, on which class path).
Nothing here imports punx.
"""
import os
import re

import h5py
import numpy

NON_NEXUS = "non-NeXus content"
_NEG = object()


class Val:
    """a value of an attribute or dataset: how it is stored, and what text (if any) it means"""

    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value

    def __repr__(self):
        return "%s:%r" % (self.kind, self.value)

    @property
    def text(self):
        """str for a scalar string, list of str for a 1-D string array, else None"""
        if self.kind in ("s", "sa", "b", "bu"):
            return self.value
        if self.kind in ("S", "B", "SU"):
            return list(self.value)
        return None

    def create(self, make):
        """make(value, dtype, shape) -> the HDF5 attribute or dataset"""
        k, v = self.kind, self.value
        if k == "s":
            return make(v, h5py.string_dtype("utf-8"), ())
        if k == "sa":
            return make(v.encode("ascii", "replace"), h5py.string_dtype("ascii"), ())
        if k == "b":
            raw = v.encode("utf8")
            return make(numpy.array(raw, dtype="S%d" % max(1, len(raw))), None, None)
        if k == "bu":
            raw = v.encode("utf8")
            return make(numpy.array(raw, dtype=h5py.string_dtype("utf-8", max(1, len(raw)))), h5py.string_dtype("utf-8", max(1, len(raw))), ())
        if k == "S":
            a = numpy.empty(len(v), dtype=object)
            a[:] = list(v)
            return make(a, h5py.string_dtype("utf-8"), a.shape)
        if k == "B":
            raw = [x.encode("utf8") for x in v]
            n = max([1] + [len(x) for x in raw])
            return make(numpy.array(raw, dtype="S%d" % n), None, None)
        if k == "SU":
            raw = [x.encode("utf8") for x in v]
            n = max([1] + [len(x) for x in raw])
            dt = h5py.string_dtype("utf-8", n)
            return make(numpy.array(raw, dtype=dt), dt, (len(raw),))
        if k == "S2":
            a = numpy.array(v, dtype=object)
            return make(a, h5py.string_dtype("utf-8"), a.shape)
        if k == "B2":
            return make(numpy.array(v, dtype="S8"), None, None)
        if k == "np":
            return make(v, None, None)
        if k == "empty":
            return make(h5py.Empty("f8"), None, None)
        if k == "emptys":
            return make(h5py.Empty(h5py.string_dtype()), None, None)
        if k == "zs":
            return make(numpy.empty((0,), dtype=object), h5py.string_dtype("utf-8"), (0,))
        if k == "zb":
            return make(numpy.empty((0,), dtype="S4"), None, None)
        if k == "zi":
            return make(numpy.empty((0,), dtype="i4"), None, None)
        if k == "raw":     # fixed-length, not UTF-8
            return make(numpy.array(v, dtype="S%d" % max(1, len(v))), None, None)
        if k == "rawv":    # variable-length, not UTF-8
            return make(v, h5py.string_dtype("ascii"), ())
        if k == "rawu":    # variable-length, marked UTF-8, not UTF-8
            return make(v, h5py.string_dtype("utf-8"), ())
        if k == "rawa":
            a = numpy.empty(len(v), dtype=object)
            a[:] = list(v)
            return make(a, h5py.string_dtype("utf-8"), a.shape)
        if k == "cpd":
            dt = numpy.dtype([("a", "i4"), ("b", "S3")])
            return make(numpy.array((1, b"xy"), dtype=dt), None, None)
        if k == "cpda":
            dt = numpy.dtype([("a", "i4"), ("b", "f8")])
            return make(numpy.array([(1, 2.0), (3, 4.0)], dtype=dt), None, None)
        if k == "enum":
            dt = h5py.enum_dtype({"RED": 0, "GREEN": 1}, basetype="i1")
            return make(numpy.int8(1), dt, ())
        if k == "vlen":
            dt = h5py.vlen_dtype(numpy.dtype("i4"))
            a = numpy.empty(2, dtype=object)
            a[0], a[1] = numpy.array([1, 2], "i4"), numpy.array([3], "i4")
            return make(a, dt, (2,))
        if k == "opaque":
            return make(numpy.void(b"\x00\x01\x02"), None, None)
        if k == "time":    # H5T_TIME: readable, but h5py has no type for it
            return make(None, "time", ())
        if k == "ref":
            return make(v, h5py.ref_dtype, ())   # v filled in by the writer
        raise ValueError(k)


def s(text):
    return Val("s", text)


def n(value):
    return Val("np", value)


class Node:
    def __init__(self, attrs=None):
        self.attrs = dict(attrs or {})


class G(Node):
    """a group; nx is the NX_class (a str or a Val)"""

    def __init__(self, nx=None, attrs=None, **kids):
        Node.__init__(self, attrs)
        if nx is not None:
            self.attrs["NX_class"] = nx if isinstance(nx, Val) else s(nx)
        self.kids = dict(kids)

    def __repr__(self):
        return "G(%s)" % ", ".join(["@%s=%r" % kv for kv in self.attrs.items()] + ["%s=%r" % kv for kv in self.kids.items()])

    @property
    def nx(self):
        v = self.attrs.get("NX_class")
        t = v.text if v is not None else None
        return t if isinstance(t, str) and t.startswith("NX") else None


class D(Node):
    def __init__(self, val=None, attrs=None, **create):
        Node.__init__(self, attrs)
        self.val = val if isinstance(val, Val) else (s(val) if isinstance(val, str) else n([1, 2, 3] if val is None else val))
        self.create = create

    def __repr__(self):
        return "D(%s)" % ", ".join([repr(self.val)] + ["@%s=%r" % kv for kv in self.attrs.items()])


class T(Node):
    """a named (committed) datatype"""

    def __repr__(self):
        return "T(%s)" % ", ".join("@%s=%r" % kv for kv in self.attrs.items())


def stored(path):
    """a path as HDF5 keeps it in a link"""
    path = re.sub("/+", "/", path)
    return path.rstrip("/") or path


class Soft:
    def __init__(self, path):
        self.path = stored(path)

    def __repr__(self):
        return "Soft(%r)" % self.path


class Ext:
    def __init__(self, file, path):
        self.file, self.path = file, stored(path)

    def __repr__(self):
        return "Ext(%r, %r)" % (self.file, self.path)


class Hard:
    """another hard link to the object at path"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Hard(%r)" % self.path


# ------------------------------------------------------------------------------------ writing
def write(root, fname, libver=None, track_order=None, userblock=0, shuffle=None):
    kw = {}
    if libver:
        kw["libver"] = libver
    if userblock:
        kw["userblock_size"] = userblock
    hard = []

    def enc(name):
        """names with surrogate escapes stand for names that are not UTF-8"""
        try:
            name.encode("utf8")
            return name
        except UnicodeEncodeError:
            return name.encode("utf8", "surrogateescape")

    def set_attrs(obj, node):
        for name, val in node.attrs.items():
            name = enc(name)
            if val.kind == "ref":
                obj.attrs.create(name, obj.file.ref, dtype=h5py.ref_dtype)
                continue

            def make(value, dtype, shape, name=name):
                if dtype == "time":
                    raw = name if isinstance(name, bytes) else name.encode("utf8")
                    h5py.h5a.create(obj.id, raw, h5py.h5t.UNIX_D32LE, h5py.h5s.create(h5py.h5s.SCALAR))
                elif isinstance(value, h5py.Empty):
                    obj.attrs[name] = value
                elif dtype is None:
                    obj.attrs.create(name, value)
                else:
                    obj.attrs.create(name, value, dtype=dtype, shape=shape)
            val.create(make)

    def fill(group, node):
        set_attrs(group, node)
        kids = list(node.kids.items())
        if shuffle:
            kids = shuffle(kids)
        for name, kid in kids:
            name = enc(name)
            if isinstance(kid, G):
                fill(group.create_group(name, track_order=track_order), kid)
            elif isinstance(kid, D):
                if kid.val.kind == "ref":
                    ds = group.create_dataset(name, data=group.file.ref, dtype=h5py.ref_dtype)
                    set_attrs(ds, kid)
                    continue

                def make(value, dtype, shape, name=name, kid=kid):
                    if dtype == "time":
                        raw = name if isinstance(name, bytes) else name.encode("utf8")
                        return h5py.Dataset(h5py.h5d.create(group.id, raw, h5py.h5t.UNIX_D32LE, h5py.h5s.create(h5py.h5s.SCALAR)))
                    if isinstance(value, h5py.Empty):
                        return group.create_dataset(name, data=value)
                    if dtype is None:
                        return group.create_dataset(name, data=value, **kid.create)
                    return group.create_dataset(name, data=value, dtype=dtype, shape=shape, **kid.create)
                set_attrs(kid.val.create(make), kid)
            elif isinstance(kid, T):
                group[name] = numpy.dtype("f8")
                set_attrs(group[name], kid)
            elif isinstance(kid, Soft):
                group[name] = h5py.SoftLink(kid.path)
            elif isinstance(kid, Ext):
                group[name] = h5py.ExternalLink(kid.file, kid.path)
            elif isinstance(kid, Hard):
                hard.append((group, name, kid.path))
            else:
                raise TypeError(kid)

    with h5py.File(fname, "w", track_order=track_order, **kw) as f:
        fill(f, root)
        for group, name, path in hard:
            group[name] = f[path]
    return fname


# ------------------------------------------------------------------------------------ the model
class Files:
    """the files of one scenario: file name (as used in links, and the main one under None) -> root G"""

    def __init__(self, main, others=None):
        self.main = main
        self.others = dict(others or {})

    def resolve(self, root, path, base=None, depth=0):
        """the Node at path (and the root it lies in), following links; (None, None) if it does not exist"""
        if depth > 40:
            return None, None
        node, here = (root, root) if path.startswith("/") or base is None else (base, root)
        for part in path.split("/"):
            if part in ("", "."):
                continue
            if not isinstance(node, G):
                return None, None
            kid = node.kids.get(part)
            if kid is None:
                return None, None
            node, here = self.follow(here, node, kid, depth + 1)
            if node is None:
                return None, None
        return node, here

    def follow(self, root, parent, kid, depth=0):
        if isinstance(kid, (G, D, T)):
            return kid, root
        if isinstance(kid, Soft):
            return self.resolve(root, kid.path, parent, depth + 1)
        if isinstance(kid, Hard):
            return self.resolve(root, kid.path, None, depth + 1)
        if isinstance(kid, Ext):
            name = os.path.basename(kid.file)
            other = self.main if name == "main.h5" else self.others.get(name)
            if other is None:
                return None, None
            return self.resolve(other, kid.path, None, depth + 1)
        raise TypeError(kid)


class Item:
    def __init__(self, address, name, node, parent, classpath, attr=None, val=None):
        self.address, self.name, self.node, self.parent = address, name, node, parent
        self.classpath, self.attr, self.val = classpath, attr, val
        self.root = None
        self.kids = {}        # name -> Item (objects)
        self.attrs = {}       # name -> Item (attributes)
        self.broken = []
        self.descended = False

    @property
    def is_attr(self):
        return self.attr is not None

    @property
    def is_group(self):
        return not self.is_attr and isinstance(self.node, G)

    @property
    def is_dataset(self):
        return not self.is_attr and isinstance(self.node, D)

    def __repr__(self):
        return "<%s %s>" % (self.address, self.classpath)


def walk(files):
    """every object and attribute reachable from the root of the main file, parents first"""
    items = []

    def visit(address, name, node, root, parent, chain):
        if parent is None:
            cp = ""
        elif parent.classpath == NON_NEXUS:
            cp = NON_NEXUS
        elif isinstance(node, G):
            cp = NON_NEXUS if node.nx is None else parent.classpath + "/" + node.nx
        else:
            cp = parent.classpath + "/" + name
        it = Item(address, name, node, parent, cp)
        it.root = root
        items.append(it)
        for a, val in sorted(node.attrs.items()):
            ai = Item(None if cp == NON_NEXUS else address + "@" + a, a, node, it, NON_NEXUS if cp == NON_NEXUS else cp + "@" + a, attr=a, val=val)
            it.attrs[a] = ai
            items.append(ai)
        if isinstance(node, G) and not any(node is c for c in chain):
            it.descended = True
            for k, kid in node.kids.items():
                target, troot = files.follow(root, node, kid)
                if target is None:
                    it.broken.append(k)
                    continue
                it.kids[k] = visit((address if address != "/" else "") + "/" + k, k, target, troot, it, chain + [node])
        return it

    top = visit("/", "/", files.main, files.main, None, [])
    return top, items
