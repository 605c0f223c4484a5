"""Reference model of the tree view of HDF5 files."""
import re

import numpy

from . import h5spec
from .h5spec import D, Ext, Files, G, Hard, Soft, T, Val

ODD = ("raw", "rawv", "rawu")


def shown(name):
    """how a name is printed"""
    return name.encode("utf8", "surrogateescape").decode("utf8", "backslashreplace")


class Want:
    """one expected entry: what it may look like, and what lies below it (None: do not care)"""

    def __init__(self, what, test, below=(), attr=False):
        self.what, self.test, self.below, self.attr = what, test, below, attr


def attribute(name, val):
    head = "@%s = " % shown(name)
    t = val.text
    if isinstance(t, str):
        full = head + '"%s"' % t
        return Want(full, lambda e: e == full, attr=True)
    if isinstance(t, list) and t:
        full = head + "[" + ", ".join('"%s"' % x for x in t) + "]"
        return Want(full, lambda e: e == full, attr=True)
    if val.kind == "np" and numpy.asarray(val.value).dtype.kind in "iufb" and numpy.asarray(val.value).size:
        full = head + str(numpy.asarray(val.value) if numpy.ndim(val.value) else numpy.asarray(val.value)[()])
        return Want(full, lambda e: e == full, attr=True)
    return Want(head + "...", lambda e: e.startswith(head), attr=True)


def attributes(node, extra=()):
    return [attribute(a, v) for a, v in node.attrs.items()] + [attribute(a, h5spec.s(v)) for a, v in extra]


def class_label(name, node):
    """Want.test for the line of a group"""
    v = node.attrs.get("NX_class")
    head = shown(name)
    if v is None:
        return lambda e: e == head
    t = v.text
    if isinstance(t, str):
        full = head + (":" + t if t else "")
        return lambda e: e == full
    return lambda e: e == head or e.startswith(head + ":")


def text_of(x):
    return re.sub(r"\s+", "", str(x))


def dataset_test(name, node, nexus):
    head = shown(name) + ":"
    v = node.val
    t = v.text
    if v.kind == "np" and numpy.asarray(v.value).dtype.kind in "iufc":
        a = numpy.asarray(v.value)
        ty = ("NX_" + str(a.dtype).upper()) if nexus else str(a.dtype)
        shape = "" if a.shape == (1,) or a.shape == () else "[%s]" % ",".join(str(x) for x in a.shape)
        full = head + ty + shape
        value = " = " + str(a.flat[0]) if a.size == 1 and a.ndim < 2 else None
        if a.ndim == 1 and 1 < a.size <= 5:
            # the whole array is shown
            return lambda e: e.startswith(full + " = ") and text_of(e.split(" = ", 1)[1]) == text_of([x for x in a])
        return lambda e: (e == full + value or e == full + "[]" + value) if value else (e.startswith(full + " = "))
    if t is not None:
        many = [t] if isinstance(t, str) else t
        char = ("NX_" if nexus else "") + "CHAR"

        def test(e):
            kind, sep, rest = e[len(head):].partition(" = ")
            return e.startswith(head) and sep and kind.upper().startswith(char) and all(x in rest or str(x.encode("utf8"))[2:-1] in rest for x in many)
        return test
    return lambda e: e.startswith(head)


def link_to(val, own):
    """True / False / None (either is accepted): is an item with this @target shown as a link"""
    if val is None:
        return False
    if val.kind in ODD:
        return None
    t = val.text
    if not isinstance(t, str):
        return False
    if own is None:
        return None if t else False
    return t != "" and t != own


def expected(files):
    """(test of the first line's remainder, wants) for the main file; NeXus or not (None: either)"""
    root = files.main
    states = []
    for k, kid in root.kids.items():
        node, _r = files.follow(root, root, kid)
        if isinstance(node, G):
            v = node.attrs.get("NX_class")
            if v is None:
                continue
            if isinstance(v.text, str):
                states.append(v.text == "NXentry")
            elif isinstance(v.text, list):
                states.append(None)
            else:
                states.append(None if v.kind in ODD + ("S2", "B2", "rawa") else False)
    nexus = True if True in states else None if None in states else False

    def kids(node, here, own, chain, is_nexus):
        out = []
        for k, kid in node.kids.items():
            name = shown(k)
            if isinstance(kid, Soft):
                full = "%s: --> %s" % (name, kid.path)
                out.append(Want(full, lambda e, full=full: e == full))
                continue
            target, troot = files.follow(here, node, kid)
            extra = [("file", kid.file), ("path", kid.path)] if isinstance(kid, Ext) else []
            if target is None:
                full = name + ": missing external file"
                # @file and @path are printed below it
                out.append(Want(full, lambda e, full=full: e == full, [attribute(a, h5spec.s(v)) for a, v in extra]))
                continue
            mine = (own.rstrip("/") + "/" + k) if own is not None else None
            if isinstance(kid, Ext):
                mine = "/" + kid.path.lstrip("/") if not passes_links(files, kid) else None
            out.append(item(name, k, target, troot, mine, chain, is_nexus, extra))
        return out

    def item(name, k, target, troot, mine, chain, is_nexus, extra):
        tv = target.attrs.get("target")
        is_link = link_to(tv, mine)
        link = None
        if is_link is not False:
            full = "%s --> %s" % (name, tv.text) if tv.text is not None else None
            link = Want(full or name + " --> ...", (lambda e: e == full) if full else (lambda e: e.startswith(name + " --> ")))
            if is_link:
                return link
        if isinstance(target, G):
            if any(target is c for c in chain):
                w = Want(name + ": -->", lambda e: e.startswith(name) and "-->" in e)
            else:
                test = class_label(k, target)
                w = Want(name + " (group)", test, lambda: attributes(target, extra) + kids(target, troot, mine, chain + [target], is_nexus))
        elif isinstance(target, D):
            test = dataset_test(k, target, is_nexus)
            w = Want(name + " (dataset)", test, attributes(target, extra))
        else:
            w = Want(name + " (named type)", lambda e: e.startswith(name + ":"), attributes(target))
        if link is not None:
            both = w.test
            lt = link.test
            return Want(w.what, lambda e: both(e) or lt(e), None)
        return w
    return nexus, lambda is_nexus: attributes(root) + kids(root, root, "/", [root], is_nexus)


def passes_links(files, ext):
    """does the path of an external link lead through other links"""
    import os
    name = os.path.basename(ext.file)
    node = files.main if name == "main.h5" else files.others.get(name)
    for part in [p for p in ext.path.split("/") if p]:
        node = node.kids.get(part)
        if not isinstance(node, (G, D, T)):
            return True
    return False


class Entry:
    def __init__(self, text, line):
        self.text, self.line, self.below = text, line, []


def parse(report):
    """entries (list of strings) to a tree by indentation"""
    top = Entry(report[0], 0)
    stack = [(-2, None), (0, top)]
    for i, line in enumerate(report[1:], 1):
        n = len(line) - len(line.lstrip(" "))
        while stack[-1][0] >= n:
            stack.pop()
        e = Entry(line[n:], i)
        if stack[-1][1] is None:
            return None, "entry %d %r is not below the file" % (i, line)
        if n != stack[-1][0] + 2 and not e.text.startswith("__array = "):
            return None, "entry %d %r is indented by %d below one of %d" % (i, line, n, stack[-1][0])
        stack[-1][1].below.append(e)
        stack.append((n, e))
    return top, None


def judge(files, path, report, bare, fail):
    """compare the report (with attributes) and the bare one with the file"""
    for r in (report, bare):
        if not isinstance(r, list) or not r or not all(isinstance(x, str) for x in r):
            fail("no report", repr(r)[:200])
            return
    nexus, wants = expected(files)
    first = report[0]
    if not first.startswith(path):
        fail("first line", "%r does not name the file" % first)
        return
    rest = first[len(path):]
    says = rest.startswith(" : NeXus data file")
    if nexus is not None and says != nexus:
        fail("first line:NeXus", "%r for a file that %s a NeXus file" % (first, "is" if nexus else "is not"))
    if not class_label("x", files.main)("x" + rest[len(" : NeXus data file") if says else 0:]):
        fail("first line:class", first)
    top, err = parse(report)
    if err:
        fail("indentation", err)
        return
    attrs = set()

    def compare(entry, want, where, inside):
        left = list(entry.below)
        for w in want:
            found = [e for e in left if w.test(e.text)]
            if not found:
                fail("%s:%s" % ("attribute" if w.attr else "item", inside), "%s: %r is not shown; entries: %r" % (where, w.what, [e.text[:80] for e in left][:8]))
                continue
            e = found[0]
            left.remove(e)
            if w.attr:
                attrs.add(e.line)
            if w.below is None:
                rest = list(e.below)
                while rest:
                    x = rest.pop()
                    rest += x.below
                    if x.text.startswith("@"):
                        attrs.add(x.line)
                continue
            compare(e, w.below() if callable(w.below) else w.below, where + "/" + w.what, "group" if callable(w.below) else "leaf")
        for e in left:
            if e.text.startswith("__array = ") and inside == "leaf" and entry.text.endswith(" = __array"):
                continue
            fail("surplus:%s" % inside, "%s: unexpected %r" % (where, e.text[:120]))
    compare(top, wants(says), "", "group")
    full = [x for i, x in enumerate(report) if i not in attrs]
    if bare != full:
        d = [x for x in bare if x not in full] + [x for x in full if x not in bare]
        fail("attributes off", "the report without attributes is not the full one without the attribute lines: %r" % (d[:4] or "order"))
