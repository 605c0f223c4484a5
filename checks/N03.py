"""N03: NXDL files are accepted exactly when valid against their own set's schema."""
import os
import re
import shutil

from mc import cli, env, nxdldocs, nxdlref, synth
from mc.explore import Cost
from mc.proc import result

CATEGORY = dict(base="base_classes", application="applications", contributed="contributed_definitions")


def sub(path, old, new):
    t = open(path, encoding="utf8").read()
    assert old in t, (path, old)
    with open(path, "w", encoding="utf8") as f:
        f.write(t.replace(old, new, 1))


def make_schemas(cache):
    """sets with schemas of their own"""
    for name, base in (("b2016", "a4fd52d"), ("b2017", "v3.3"), ("b2018", "v2018.5"), ("lax", "v2018.5"), ("strict", "v2018.5"), ("types", "v2018.5")):
        nxdldocs.make_set(name, {}, base=base, cache=cache)
    xsd = os.path.join(cache, "lax", "nxdl.xsd")
    sub(xsd, '<xs:attribute name="long_name"', '<xs:attribute name="color"/><xs:attribute name="long_name"')
    sub(xsd, '<xs:element name="link" type="nx:linkType"', '<xs:element name="other" type="nx:docType" minOccurs="0" maxOccurs="unbounded"/><xs:element name="link" type="nx:linkType"')
    xsd = os.path.join(cache, "strict", "nxdl.xsd")
    sub(xsd, '<xs:attribute name="long_name"', '<xs:attribute name="long_name" use="required"')
    for f in ("nxdlTypes.xsd",):
        sub(os.path.join(cache, "types", f), "nxdl:NX_UINT\n", "\n")
        sub(os.path.join(cache, "types", f), "nxdl:NX_ANGLE\n", "\n")


class Damaged:
    """choices -> a document: that of N01 or one with a special feature or damage"""
    SPECIAL = [
        None,
        ("attribute of some schemas", lambda t: t.replace("<field ", "<field color='red' ", 1)),
        ("attribute of some schemas, nested", lambda t: t.replace("</definition>", "<group type='NXx'><field name='q' color='red' long_name='x'/></group></definition>")),
        ("element of some schemas", lambda t: t.replace("</definition>", "<other>x</other></definition>")),
        ("type of some schemas", lambda t: t.replace("</definition>", "<field name='q' long_name='q' type='NX_UINT'/></definition>")),
        ("units of some schemas", lambda t: t.replace("</definition>", "<field name='q' long_name='q' units='NX_ANGLE'/></definition>")),
        ("required attribute", lambda t: t.replace("<field ", "<field long_name='x' ")),
        ("version", lambda t: t.replace(' type="group"', ' version="1.0" type="group"', 1)),
        ("choice", lambda t: t.replace("</definition>", synth.choice("c", "<group type='NXdata'/>", "<group type='NXlog'/>") + "</definition>")),
        ("choice of one", lambda t: t.replace("</definition>", synth.choice("c", "<group type='NXdata'/>") + "</definition>")),
        ("attribute with dimensions", lambda t: t.replace("</definition>", "<attribute name='q'><dimensions rank='1'/></attribute></definition>")),
        ("unknown element", lambda t: t.replace("</definition>", "<fields/></definition>")),
        ("unknown attribute", lambda t: t.replace(' type="group"', ' kind="x" type="group"', 1)),
        ("no name", lambda t: t.replace('name="NXdoc"', "", 1)),
        ("no type", lambda t: t.replace('type="group"', "", 1)),
        ("wrong category", lambda t: re.sub('category="[a-z]*"', 'category="other"', t)),
        ("no category", lambda t: re.sub('category="[a-z]*"', '', t)),
        ("bad field name", lambda t: t.replace("</definition>", "<field name='a b' long_name='x'/></definition>")),
        ("bad group type", lambda t: t.replace("</definition>", "<group type='data'/></definition>")),
        ("bad unit", lambda t: t.replace("</definition>", "<field name='q' long_name='q' units='mm'/></definition>")),
        ("bad type", lambda t: t.replace("</definition>", "<field name='q' long_name='q' type='float'/></definition>")),
        ("text", lambda t: t.replace("</definition>", "some text</definition>")),
        ("symbols last", lambda t: t.replace("</definition>", "<field name='q' long_name='q'/><symbols/></definition>")),
        ("group without type", lambda t: t.replace("</definition>", "<group name='q'/></definition>")),
        ("nested definition", lambda t: t.replace("</definition>", "<definition/></definition>")),
        ("cut", lambda t: t[:-14]),
        ("cut in the middle", lambda t: t[:len(t) // 2]),
        ("empty", lambda t: ""),
        ("blank", lambda t: "\n"),
        ("junk", lambda t: "this is no XML"),
        ("binary", lambda t: "\x00\x01\x02" + t),
        ("after the end", lambda t: t + "<x/>"),
        ("other namespace", lambda t: t.replace("nxdl/3.1", "nxdl/3.2")),
        ("no namespace", lambda t: t.replace(' xmlns="%s"' % nxdldocs.NS, "")),
        ("other root", lambda t: t.replace("<definition", "<group").replace("</definition>", "</group>")),
        ("HTML", lambda t: "<html><body>404</body></html>"),
        ("schema location", lambda t: t.replace("../nxdl.xsd", "/none/other.xsd")),
        ("no schema location", lambda t: re.sub(r'xsi:schemaLocation="[^"]*"', "", t)),
        ("repeated attribute", lambda t: t.replace(' type="group"', ' type="group" type="group"', 1)),
        ("entity", lambda t: t.replace("</definition>", "<doc>&unknown;</doc></definition>")),
        ("wrong encoding", lambda t: t.replace("UTF-8", "UTF-16")),
        ("not UTF-8", lambda t: t.replace("</definition>", "<doc>\udcff</doc></definition>")),
        ("XML 1.1", lambda t: t.replace('version="1.0" enc', 'version="1.1" enc')),
        ("no declaration", lambda t: t.partition("?>")[2]),
        ("blank first", lambda t: " " + t),
    ]

    def __init__(self, ch, category):
        doc = nxdldocs.Document(ch, category, 1, None)
        text = doc.text
        self.label, self.text = "document", text
        special = ch.choose("special", [None] + [Cost(1, i) for i in range(1, len(self.SPECIAL))])
        if special is not None:
            self.label, f = self.SPECIAL[special]
            try:
                t = text.decode("utf8")
            except UnicodeDecodeError:
                return
            self.text = f(t).encode("utf8", "surrogateescape")


BASIC = """<?xml version="1.0" encoding="UTF-8"?>
<definition xmlns="%s" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="%s ../nxdl.xsd" category="base" name="NXdoc" type="group" extends="NXobject">
<field name="f"/></definition>""" % (nxdldocs.NS, nxdldocs.NS)
SETS = ["b2018", "b2016", "b2017", "lax", "strict", "types"]


class Load:
    """the definitions set with the document is loaded"""
    batch = 8
    limit = 60

    def __init__(self, deep=0):
        self.args = [deep]

    def execute(self, ch):
        name = ch.choose("set", [Cost(0, s) for s in SETS])
        cat = ch.choose("category", ["base", "application", "contributed"])
        newest = ch.choose("newest set", [None, "lax", "strict", "b2016"])
        before = ch.choose("before", [None, "select v3.3", "select newest", "load lax", "load strict", "load default", "schema of b2016"])
        doc = Damaged(ch, cat)
        cache = nxdldocs.own_cache()
        if not os.path.isdir(os.path.join(cache, "types")):
            make_schemas(cache)
        top = os.path.join(cache, "newest")
        if newest:
            shutil.copytree(os.path.join(cache, newest), top)
            sub(os.path.join(top, "__github_info__.json"), "2001-01-01", "2099-01-01")
        import punx
        from punx import cache_manager, nxdl_manager, schema_manager
        path = nxdldocs.make_set(name, {(CATEGORY[cat], "NXdoc.nxdl.xml"): doc.text}, cache=cache)
        want = nxdldocs.valid(doc.text, path)
        try:
            if before:
                cm = cache_manager.CacheManager()
                op, _s, what = before.partition(" ")
                if op == "select":
                    cm.select_NXDL_file_set(None if what == "newest" else what)
                elif op == "load":
                    try:
                        nxdl_manager.NXDL_Manager(None if what == "default" else what)
                    except Exception:
                        pass
                else:
                    schema_manager.SchemaManager(os.path.join(cache, "b2016"))
            refused = None
            try:
                m = nxdl_manager.NXDL_Manager(name)
            except Exception as exc:
                refused = exc
            if want and refused is not None:
                ch.fail("refused", "%s: valid under the schema of %s, but refused: %s\n%s" % (doc.label, name, refused, doc.text.decode("utf8", "replace")))
            elif not want and refused is None:
                ch.fail("accepted", "%s: not valid under the schema of %s, but accepted\n%s" % (doc.label, name, doc.text.decode("utf8", "replace")))
            elif want and "NXdoc" not in m.classes:
                ch.fail("lost", "%s: accepted, but there is no class" % doc.label)
            elif not want and "NXdoc.nxdl.xml" not in str(refused):
                ch.fail("message", "%s: the error does not name the file: %r" % (doc.label, refused))
            ch.observe(name, newest, before, doc.text, want)
        finally:
            nxdldocs.make_set(name, {}, cache=cache)
            if newest:
                shutil.rmtree(top)


class Replaced:
    """a set of the same name with another schema was there before"""
    batch = 1
    limit = 200
    SETS = {}

    def __init__(self, deep=0):
        self.args = [deep]

    def execute(self, ch):
        name = ch.choose("name", ["mine", "v2018.5", "a4fd52d"])
        first = ch.choose("before", [Cost(0, s) for s in SETS + [None]])
        second = ch.choose("set", [Cost(0, s) for s in SETS])
        op = ch.choose("used before for", ["load", "schema", "nothing"])
        how = ch.choose("replaced by", ["another directory", "other files"])
        source = os.path.join(env.SCRATCH, "cmd-None", "punx")
        cfg = os.path.join(env.workdir(), "replaced")
        path = os.path.join(cfg, "punx", name)
        docs = {}
        for label, f in Damaged.SPECIAL[1:12]:
            text = f(BASIC).encode()
            docs[label] = text, nxdldocs.valid(text, os.path.join(source, second))

        def job():
            import logging
            logging.disable(logging.CRITICAL)
            os.environ["XDG_CONFIG_HOME"] = cfg
            os.makedirs(os.path.dirname(path))
            from punx import cache_manager, nxdl_manager
            if first:
                put(first, "another directory")
            if op == "load":
                nxdl_manager.NXDL_Manager(name)
            elif op == "schema":
                cache_manager.CacheManager().select_NXDL_file_set(name).schema_manager
            put(second, how)
            got = {}
            for label in docs:
                with open(os.path.join(path, "base_classes", "NXdoc.nxdl.xml"), "wb") as f:
                    f.write(docs[label][0])
                try:
                    nxdl_manager.NXDL_Manager(name)
                    got[label] = None
                except Exception as exc:
                    got[label] = repr(exc)
            return got

        def put(what, how):
            if os.path.isdir(path) and how == "another directory":
                shutil.rmtree(path)
            shutil.copytree(os.path.join(source, what), path, dirs_exist_ok=True)
            info = os.path.join(path, "__github_info__.json")
            sub(info, '"%s"' % what, '"%s"' % name)
        got = result(ch, job)
        shutil.rmtree(cfg)
        for label, (text, want) in docs.items():
            if got is not None and (got[label] is None) != want:
                ch.fail("accepted after replacement" if not want else "refused after replacement",
                        "%s was %s (%s), then %s (by %s): %s: %s\n%s" % (name, first, op, second, how, label, got[label], text.decode()))
        ch.observe(name, first, second, op, how)


class Command:
    """punx validate with the document"""
    batch = 4
    limit = 100
    where = None

    def __init__(self, deep=0):
        self.args = [deep]

    def execute(self, ch):
        name = ch.choose("set", [Cost(0, s) for s in SETS + [None]])
        newest = ch.choose("default set", [None, "lax", "strict", "b2016"])
        doc = Damaged(ch, "base")
        fname = ch.choose("file", ["NXdoc.nxdl.xml", "other.nxdl.xml", "with blank.nxdl.xml", "missing"])
        xdg = os.path.join(env.SCRATCH, "cmd-%s" % newest)
        folder = os.path.join(env.workdir(), "docs")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, fname)
        if fname != "missing":
            with open(path, "wb") as f:
                f.write(doc.text)
            schema = os.path.join(xdg, "punx", name) if name else os.path.join(xdg, "punx", "newest") if newest else os.path.join(nxdlref.CACHE, "v2018.5")
            want = nxdldocs.valid(doc.text, schema)
        else:
            want = False
            path += ".nxdl.xml"
        r = cli.run(["validate", path] + (["-f", name] if name else []), xdg=xdg)
        if r.status is None or r.traceback:
            ch.fail("crash", "%s: %r" % (doc.label, r))
        elif want and r.status != 0:
            ch.fail("command:refused", "%s: valid under the schema of %s, but %r\n%s" % (doc.label, name, r, doc.text))
        elif not want and r.status == 0:
            ch.fail("command:accepted", "%s: not valid under the schema of %s, but %r\n%s" % (doc.label, name, r, doc.text))
        elif path not in r.said:
            ch.fail("command:message", "%s: the message does not name the file: %r" % (doc.label, r))
        ch.observe(name, newest, fname, doc.text, want)
        if fname != "missing":
            os.unlink(path)


class Near:
    """punx validate with documents that lie in the directories of a set"""
    batch = 1
    limit = 200

    def __init__(self, deep=0):
        self.args = [deep]

    def execute(self, ch):
        name = ch.choose("set", [Cost(0, s) for s in SETS + [None]])
        near = ch.choose("near", [Cost(0, s) for s in SETS])
        where = ch.choose("where", ["base_classes", "applications", "contributed_definitions", ".", "base_classes/sub", "other"])
        way = ch.choose("way", ["absolute", "relative", "in the directory"])
        xdg = os.path.join(env.SCRATCH, "cmd-None")
        folder = os.path.join(env.workdir(), "near")
        shutil.copytree(os.path.join(xdg, "punx", near), folder)
        home = os.path.normpath(os.path.join(folder, where))
        os.makedirs(home, exist_ok=True)
        path = os.path.join(home, "NXdoc.nxdl.xml")
        said, cwd = dict(absolute=(path, None), relative=(os.path.relpath(path, env.workdir()), env.workdir())).get(way, ("NXdoc.nxdl.xml", home))
        schema = os.path.join(xdg, "punx", name) if name else os.path.join(nxdlref.CACHE, "v2018.5")
        for label, f in Damaged.SPECIAL[1:12]:
            text = f(BASIC).encode()
            with open(path, "wb") as fd:
                fd.write(text)
            want = nxdldocs.valid(text, schema)
            r = cli.run(["validate", said] + (["-f", name] if name else []), xdg=xdg, cwd=cwd)
            if r.status is None or r.traceback or want != (r.status == 0):
                ch.fail("near:refused" if want else "near:accepted", "%s, in %s of %s (%s), with %s: %svalid, but %r" % (label, where, near, way, name, "" if want else "not ", r))
        shutil.rmtree(folder)
        ch.observe(name, near, where, way)


HARNESSES = dict(Load=Load, Replaced=Replaced, Command=Command, Near=Near)


def setup():
    import logging
    cli.preload()
    logging.disable(logging.CRITICAL)
    for newest in (None, "lax", "strict", "b2016"):
        cache = os.path.join(env.SCRATCH, "cmd-%s" % newest, "punx")
        os.makedirs(cache)
        make_schemas(cache)
        if newest:
            shutil.copytree(os.path.join(cache, newest), os.path.join(cache, "newest"))
            t = os.path.join(cache, "newest", "__github_info__.json")
            sub(t, "2001-01-01", "2099-01-01")
            sub(t, '"%s"' % newest, '"newest"')


def run(ctx):
    setup()
    ctx.explore(Load(), 3 if ctx.thorough else 2)
    ctx.explore(Replaced(), 2 if ctx.thorough else 1)
    ctx.explore(Near(), 2 if ctx.thorough else 0)
    ctx.explore(Command(), 2 if ctx.thorough else 1)
