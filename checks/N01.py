"""N01: NXDL definitions are read completely and without name clashes."""
import itertools
import os
import shutil

from mc import env, nxdldocs, nxdlref, synth
from mc.explore import Cost
from mc.proc import result

VERSION = {"a4fd52d": "1.0", "v3.3": "1.0", "v2018.5": None}
CATEGORY = dict(base="base_classes", application="applications", contributed="contributed_definitions")


def read(name):
    """the classes of a set as punx reads them"""
    from punx import nxdl_manager
    m = nxdl_manager.NXDL_Manager(name)
    return {k: nxdldocs.dump_class(d) for k, d in m.classes.items()}


def compare(ch, path, got, label):
    ref = nxdlref.NXDLRef(path).classes
    want = {k: nxdldocs.strip(c) for k, c in ref.items()}
    for place, text in itertools.islice(nxdldocs.differences(want, got), 5):
        parts = place.split("/")
        if parts[-2:-1] == ["attrs"] and parts[-4:-3] == ["groups"] and text == "is missing" and parts[-1] in at(ref, parts[1:-2])["xml"]:
            ch.fail("shadowed", "%s: %s %s" % (label, place, text))  # an XML attribute of the group took its place
            continue
        ch.fail("differs:%s" % text.split(",")[0].split(" ")[1], "%s: %s %s" % (label, place, text))


def at(x, keys):
    for k in keys:
        x = x[k]
    return x


OWN = ["minOccurs", "maxOccurs", "deprecated"]


class Shadowed:
    """groups that declare an attribute with the name of one of their XML attributes"""
    limit = 60

    def execute(self, ch):
        name = ch.choose("attribute", [Cost(0, n) for n in OWN])
        given = ch.choose("XML attributes", [Cost(0, x) for x in ("", "minOccurs='0'", "maxOccurs='2'", "deprecated='y'", "minOccurs='1' maxOccurs='2' deprecated='y'")])
        text = nxdldocs.document("base", "<group type='NXnote' %s><attribute name='%s'/><attribute name='x'/></group>" % (given, name)).encode()
        path = nxdldocs.make_set("doc", {("base_classes", "NXdoc.nxdl.xml"): text})
        ch.observe(name, given)
        if nxdldocs.valid(text, os.path.join(nxdlref.CACHE, "v2018.5")):
            got = result(ch, lambda: read("doc"))
            if got is not None:
                compare(ch, path, got, text.decode())


class Installed:
    """every class of the sets that come with punx"""
    limit = 100

    def execute(self, ch):
        name = ch.choose("set", [Cost(0, s) for s in nxdlref.BUNDLED])
        path = os.path.join(nxdlref.CACHE, name)
        got = result(ch, lambda: read(name))
        if got is not None:
            compare(ch, path, got, name)
            ch.count = len(got)
            ch.observe(name, len(got))


class Clash:
    """sequences of items of one level, with few names"""
    batch = 1
    limit = 200
    ITEMS = [("group", "NXa", "<group type='NXa'/>"), ("group", "a", "<group type='NXz' name='a'/>"), ("group", "a1", "<group type='NXz' name='a1'/>"), ("field", "a", "<field name='a'/>"),
             ("field", "a1", "<field name='a1'/>"), ("field", "a2", "<field name='a2'/>"), ("link", "a", "<link name='a' target='/e/a'/>"), ("link", "a1", "<link name='a1' target='/e/b'/>")]
    chunk = 64

    def __init__(self, length=3):
        self.args = [length]
        self.length = length

    def execute(self, ch):
        first = ch.choose("first", [Cost(0, i) for i in range(len(self.ITEMS))])
        n = ch.choose("length", [Cost(0, i) for i in range(1, self.length + 1)])
        tails = itertools.product(range(len(self.ITEMS)), repeat=n - 1)
        tails = [(first,) + t for t in tails]
        k = ch.choose("part", [Cost(0, i) for i in range((len(tails) + self.chunk - 1) // self.chunk)])
        files = {}
        for seq in tails[k * self.chunk:(k + 1) * self.chunk]:
            body = "".join(self.ITEMS[i][2] for i in seq)
            name = "NXs" + "".join(map(str, seq))
            files["base_classes", name + ".nxdl.xml"] = nxdldocs.document("base", body, name=name).encode()
            files["applications", name + "n.nxdl.xml"] = nxdldocs.document("application", "<group type='NXentry'>%s</group>" % body, name=name + "n").encode()
        path = nxdldocs.make_set("clash", files)
        got = read("clash")
        compare(ch, path, got, "sequences")
        ch.count = len(files)
        ch.observe(sorted(got))


class Documents:
    """one document of each category, all features"""
    batch = 8
    limit = 60

    def __init__(self, deep=2, rich=False):
        self.args = [deep, rich]
        self.deep, self.rich = deep, rich

    def execute(self, ch):
        cat = ch.choose("category", ["base", "application", "contributed"])
        base = ch.choose("schema", ["v2018.5", "a4fd52d", "v3.3"])
        doc = nxdldocs.Document(ch, cat, self.deep, VERSION[base], self.rich)
        ch.observe(cat, base, doc.text)
        fname = ch.choose("file", ["NXdoc.nxdl.xml", "NXdoc.v2.nxdl.xml"])
        where = ch.choose("directory", [CATEGORY[cat], "contributed_definitions"])
        path = os.path.join(nxdldocs.own_cache(), "doc-" + base)
        files = {(where, fname): doc.text}
        extra = ch.choose("other files", [None, "not NXDL", "directory"])
        if extra == "not NXDL":
            files[where, "README.xml"] = files[where, "NXno.xml"] = b"junk"
        path = nxdldocs.make_set("doc-" + base, files, base=base)
        if not nxdldocs.valid(doc.text, os.path.join(nxdlref.CACHE, base)):
            ch.observe("invalid")
            return
        if extra == "directory":
            os.makedirs(os.path.join(path, where, "sub"))
            with open(os.path.join(path, where, "sub", "NXinner.nxdl.xml"), "wb") as f:
                f.write(doc.text)
        got = read("doc-" + base)
        compare(ch, path, got, doc.text.decode("utf8", "replace"))


HARNESSES = {"Installed": Installed, "Shadowed": Shadowed, "Clash": Clash, "Documents": Documents, "Documents, all kinds of items": Documents}


def setup():
    import logging
    import punx.nxdl_manager, punx.cache_manager, punx.schema_manager  # noqa
    logging.disable(logging.CRITICAL)


def run(ctx):
    setup()
    ctx.explore(Installed(), 0)
    ctx.explore(Shadowed(), 0)
    ctx.explore(Clash(5 if ctx.thorough else 4), 0)
    ctx.explore(Documents(), 4 if ctx.thorough else 3)
    ctx.explore(Documents(2, True), 2 if ctx.thorough else 1, "Documents, all kinds of items")
    ctx.explore(Documents(0, True), 2, "Documents, all kinds of items")
    ctx.assumptions.append("attributes of one element that share a name are not judged (punx refuses them)")
    ctx.assumptions.append("items below <choice> are not part of the class")
    ctx.assumptions.append("items of one level: groups come before fields before links")
