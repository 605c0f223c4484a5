"""N02: base-class content is optional and application content required by default."""
import itertools
import os

import lxml.etree

from mc import env, h5spec, nxdldocs, nxdlref, sut, synth
from mc.explore import Cost
from mc.proc import result

VERSION = {"a4fd52d": "1.0", "v3.3": "1.0", "v2018.5": None}
CATEGORY = dict(base_classes="base", applications="application", contributed_definitions="contributed")


def defaults(manager):
    """(class, category, path, kind, default) of every item of every class"""
    out = []

    def attributes(obj, path, cls, cat):
        for k, a in obj.attributes.items():
            if not isinstance(a, str):
                out.append((cls, cat, path + "@" + k, "attribute", a.xml_attributes["optional"].default_value))

    def walk(obj, path, cls, cat):
        attributes(obj, path, cls, cat)
        for k, f in obj.fields.items():
            out.append((cls, cat, path + k, "field", f.xml_attributes["minOccurs"].default_value))
            attributes(f, path + k, cls, cat)
        for k, g in obj.groups.items():
            out.append((cls, cat, path + k, "group", g.xml_attributes["minOccurs"].default_value))
            walk(g, path + k + "/", cls, cat)
    for cls, d in manager.classes.items():
        walk(d, "/", cls, d.category)
    return out


def judge(ch, rows, label):
    for cls, cat, path, kind, value in rows:
        app = cat == "applications"
        if kind == "attribute":
            if (str(value).lower() in ("true", "1")) == app:
                ch.fail("attribute", "%s: %s (%s) %s: optional is %r by default" % (label, cls, cat, path, value))
        elif str(value) != str(int(app)):
            ch.fail(kind, "%s: %s (%s) %s: minOccurs is %r by default" % (label, cls, cat, path, value))


def check_op(ch, rows, label, path):
    """rows cover every class, and are right"""
    judge(ch, rows, label)


class Histories:
    """definitions sets loaded and used in every order; every set loaded is looked at again at the end"""
    batch = 1
    limit = 200

    def __init__(self, ops=None, length=2):
        self.args = [ops, length]
        self.ops, self.length = ops, length

    def execute(self, ch):
        seq = [ch.choose("step %d" % i, [Cost(0, o) for o in self.ops]) for i in range(self.length)]

        def job():
            import punx.nxdl_manager
            import punx.validate
            loaded = {}
            for op in seq:
                kind, name = op.split(" ")
                if kind == "load":
                    loaded[op + str(len(loaded))] = punx.nxdl_manager.NXDL_Manager(name)
                else:
                    v = punx.validate.Data_File_Validator(name)
                    v.validate(DATA)
                    v.close()
                    loaded[op + str(len(loaded))] = v.manager
            return {k: defaults(m) for k, m in loaded.items()}
        got = result(ch, job)
        if got is None:
            return
        for k, rows in got.items():
            judge(ch, rows, "%s, in %s" % (k, seq))
            name = k.split(" ")[1][:-1]
            if len(rows) != SIZES[name]:
                ch.fail("number", "%s: %d items, %d expected" % (k, len(rows), SIZES[name]))
        ch.observe(seq, {k: len(r) for k, r in got.items()})


CONTENT = [
    "<field name='a'/>",
    "<field name='a'><attribute name='k'/></field><attribute name='top'/>",
    "<group type='NXx'/>",
    "<group type='NXx' name='g'><field name='a'/><group type='NXy'><field name='b'><attribute name='k'/></field><attribute name='q'/></group></group>",
    "<group type='NXentry' name='entry'><field name='definition'/><attribute name='k'/></group>",
    "<field name='a' minOccurs='1'/><field name='b' minOccurs='0'/><group type='NXx' minOccurs='0' maxOccurs='2'/><group type='NXy' minOccurs='1'/><attribute name='k' optional='false'/><attribute name='m' optional='true'/>",
    "<field name='a'/><group type='NXx'/><group type='NXx'/><attribute name='k'/>",
]


class Sets:
    """made-up sets of several classes: every choice of contents and categories"""
    batch = 4
    limit = 60

    def __init__(self, classes=2):
        self.args = [classes]
        self.classes = classes

    def execute(self, ch):
        files = {}
        base = ch.choose("schema", [Cost(0, b) for b in VERSION])
        for i in range(self.classes):
            cat = ch.choose("category %d" % i, [Cost(0, c) for c in nxdlref.CATEGORIES])
            body = ch.choose("content %d" % i, [Cost(0, c) for c in CONTENT])
            files[cat, "NXc%d.nxdl.xml" % i] = nxdldocs.document(CATEGORY[cat], body, version=VERSION[base], name="NXc%d" % i).encode()
        again = ch.choose("loaded again", [Cost(0, x) for x in (False, True)])
        nxdldocs.make_set("n02-" + base, files, base=base)
        import punx.nxdl_manager
        m = punx.nxdl_manager.NXDL_Manager("n02-" + base)
        first = defaults(m)
        judge(ch, first, repr(files))
        if again:
            m2 = punx.nxdl_manager.NXDL_Manager("n02-" + base)
            judge(ch, defaults(m2), "second load")
            judge(ch, defaults(m), "first load, after the second")
            if defaults(m2) != first:
                ch.fail("number", "another load differs: %r, %r" % (first, defaults(m2)))
        ch.observe(sorted(files.items()), base)


class Documents:
    """documents of all features (as for N01)"""
    batch = 8
    limit = 60

    def __init__(self, rich=False):
        self.args = [rich]
        self.rich = rich

    def execute(self, ch):
        cat = ch.choose("category", [Cost(0, c) for c in nxdlref.CATEGORIES])
        doc = nxdldocs.Document(ch, CATEGORY[cat], 1, None, self.rich)
        if not nxdldocs.valid(doc.text, os.path.join(nxdlref.CACHE, "v2018.5")):
            return
        nxdldocs.make_set("doc-n02", {(cat, "NXdoc.nxdl.xml"): doc.text})
        import punx.nxdl_manager
        m = punx.nxdl_manager.NXDL_Manager("doc-n02")
        judge(ch, defaults(m), doc.text.decode("utf8", "replace"))
        ch.observe(doc.text)


class Wide:
    """classes of many items in one place, of each kind, on each level"""
    batch = 4
    limit = 60

    def __init__(self, most=40):
        self.args = [most]
        self.most = most

    def execute(self, ch):
        cat = ch.choose("category", [Cost(0, c) for c in nxdlref.CATEGORIES])
        kind = ch.choose("kind", [Cost(0, k) for k in ("field", "group", "attribute", "attribute of field", "unnamed group", "mixed", "nested group")])
        n = ch.choose("number", [Cost(0, k) for k in (2, 3, 5, 9, 10, 17, self.most)])
        level = ch.choose("level", [Cost(0, k) for k in range(4)])
        one = {"field": "<field name='f%d'/>", "group": "<group type='NXx' name='g%d'/>", "attribute": "<attribute name='a%d'/>", "attribute of field": "<attribute name='a%d'/>", "unnamed group": "<group type='NXx'/><!--%d-->",
               "mixed": "<field name='f%d'><attribute name='k'/></field>", "nested group": "<group type='NXx' name='g%d'><field name='q'/></group>"}[kind]
        attributes, body = "", "".join(one % i for i in range(n))
        if kind == "attribute of field":
            body = "<field name='home'>" + body + "</field>"
        if kind == "mixed":
            body += "".join("<group type='NXx' name='g%d'/>" % i for i in range(n))
            attributes = "".join("<attribute name='a%d'/>" % i for i in range(n))
        body = "<field name='first'/>" + body + attributes + ("" if kind == "attribute" else "<attribute name='last'/>")
        for i in range(level):
            body = "<group type='NXy' name='level%d'>%s</group><field name='after%d'/>" % (i, body, i)
            body = "<field name='before%d'/>" % i + body
        text = nxdldocs.document(CATEGORY[cat], body, name="NXwide").encode()
        nxdldocs.make_set("n02-wide", {(cat, "NXwide.nxdl.xml"): text})
        import punx.nxdl_manager
        rows = defaults(punx.nxdl_manager.NXDL_Manager("n02-wide"))
        judge(ch, rows, "%d times %s on level %d" % (n, kind, level))
        if len(rows) < n:
            ch.fail("number", "%d items of %s on level %d: %d" % (n, kind, level, len(rows)))
        ch.observe(cat, kind, n, level)


HARNESSES = dict(Wide=Wide, Histories=Histories, Sets=Sets, Documents=Documents)
DATA = None
SIZES = {}


def size(c):
    n = len(c["attrs"])
    for f in c["fields"].values():
        n += 1 + len(f["attrs"])
    for g in c["groups"].values():
        n += 1 + size(g)
    return n


def setup():
    global DATA
    import logging
    import h5py
    import punx.validate, punx.validations.application_definition, punx.validations.default_plot  # noqa
    logging.disable(logging.CRITICAL)
    synth.standard()
    DATA = os.path.join(env.SCRATCH, "n02.h5")
    with h5py.File(DATA, "w") as f:
        e = f.create_group("entry")
        e.attrs["NX_class"] = "NXentry"
        e["definition"] = "NXapp"
        d = e.create_group("data")
        d.attrs["NX_class"] = "NXdata"
        d.attrs["signal"] = "x"
        d["x"] = [1, 2]
    for name in nxdlref.BUNDLED + ("synth", "synth1"):
        SIZES[name] = sum(size(c) for c in synth.ref(name).classes.values())


def run(ctx):
    setup()
    big = ["load v2018.5", "load a4fd52d", "load v3.3", "use v2018.5", "load synth"]
    small = ["load synth", "load synth1", "use synth", "use synth1", "load v3.3"]
    ctx.explore(Histories(big, 3 if ctx.thorough else 2), 0)
    ctx.explore(Histories(small, 4 if ctx.thorough else 3), 0)
    ctx.explore(Sets(2), 0)
    if ctx.thorough:
        ctx.explore(Sets(3), 0)
    ctx.explore(Wide(400 if ctx.thorough else 40), 0)
    ctx.explore(Documents(), 3 if ctx.thorough else 2)
    ctx.explore(Documents(True), 2 if ctx.thorough else 1)
