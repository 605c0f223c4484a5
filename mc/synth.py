"""
Made-up definitions sets, installed in the private user cache: shapes of NXDL that the bundled sets do not
contain but that another release of the NeXus definitions may.
"""
import json
import os
import shutil

from . import env, nxdlref

HEAD = """<?xml version="1.0" encoding="UTF-8"?>
<definition xmlns="http://definition.nexusformat.org/nxdl/3.1" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"
  category="%s" xsi:schemaLocation="http://definition.nexusformat.org/nxdl/3.1 ../nxdl.xsd"
  name="%s" type="group"%s>
"""
CATEGORY = dict(base_classes="base", applications="application", contributed_definitions="contributed")


def E(*values):
    return "<enumeration>%s</enumeration>" % "".join('<item value="%s"/>' % v for v in values)


def attr(name, enum=(), **kw):
    return "<attribute name='%s'%s>%s</attribute>" % (name, "".join(" %s='%s'" % i for i in kw.items()), E(*enum) if enum else "")


def field(name, enum=(), inner="", **kw):
    return "<field name='%s'%s>%s%s</field>" % (name, "".join(" %s='%s'" % i for i in kw.items()), E(*enum) if enum else "", inner)


def group(cls, name=None, inner="", **kw):
    return "<group type='%s'%s%s>%s</group>" % (cls, " name='%s'" % name if name else "", "".join(" %s='%s'" % i for i in kw.items()), inner)


def link(name, target):
    return "<link name='%s' target='%s'/>" % (name, target)


def choice(name, *groups):
    return "<choice name='%s'>%s</choice>" % (name, "".join(groups))


DEFN = field("definition", ["NXx"])


def classes(data_min="0"):
    b, a, c = "base_classes", "applications", "contributed_definitions"
    return {
        (b, "NXobject"): attr("name"),
        (b, "NXroot"): attr("NX_class", ["NXroot"]) + attr("default") + attr("mode", ["r", "w", "r+"]) + attr("mode_s") + group("NXentry"),
        (b, "NXentry"): attr("default") + attr("target") + attr("signal") + attr("kind", ["raw", "reduced", ""]) + group("NXdata", minOccurs=data_min) + field("title")
        + group("NXsubentry") + group("NXcollection") + group("NXfoo", "foo") + field("definition"),
        (b, "NXsubentry"): attr("default") + group("NXdata") + field("title") + field("definition"),
        (b, "NXdata"): attr("signal") + attr("axes") + attr("target") + attr("AXISNAME_indices") + attr("default") + field("DATA") + field("counts"),
        (b, "NXcollection"): "",
        (b, "NXfoo"): attr("units", ["mm", "cm", "m"]) + attr("one", ["1"]) + attr("signal", ["a", "b"]) + field("a") + field("a_b") + field("A") + field("counts")
        + group("NXfoo") + group("NXbar", "a_group") + group("NXbar") + link("z", "/x/y"),
        (b, "NXbar"): field("definition") + group("NXentry", "entry", field("title")),   # a base class whatever its content
        (b, "NXfoobar"): field("entry") + group("NXentry"),
        # application definitions
        (a, "NXapp"): group("NXentry", "entry", field("title") + field("definition", ["NXapp"]) + field("mode", ["one", "two", "3", ""]) + field("mod") + group("NXdata", None, field("inner"))),
        (a, "NXapp2"): group("NXsubentry", "first", field("title") + field("definition", ["NXapp2", "NXapp"])) + group("NXentry", "entry", field("second")),
        (a, "NXapp3"): "",
        (a, "NXapp4"): group("NXentry", None, field("start_time") + field("definition", ["NXapp4"]) + field("start_time") + group("NXdata", "x") + field("x")),
        # contributed definitions of every shape
        (c, "NXc_empty"): "",
        (c, "NXc_entry"): group("NXentry", "entry", field("title")),
        (c, "NXc_entry_def"): group("NXentry", "entry", field("title") + field("definition", ["NXc_entry_def"])),
        (c, "NXc_anon_def"): group("NXentry", None, field("definition", ["NXc_anon_def"])),
        (c, "NXc_anon"): group("NXentry", None, field("title")),
        (c, "NXc_two"): group("NXdata") + group("NXlog"),
        (c, "NXc_one"): group("NXdata"),
        (c, "NXc_field"): field("x") + field("definition"),
        (c, "NXc_field_def"): field("x") + group("NXentry", "entry", DEFN),
        (c, "NXc_link_def"): group("NXentry", "entry", DEFN + field("w")) + link("y", "/entry/data"),
        (c, "NXc_two_def"): group("NXentry", "entry", DEFN) + group("NXnote", "note"),
        (c, "NXc_def_two"): group("NXnote", "note") + group("NXentry", "entry", DEFN + field("q")),
        (c, "NXc_data_def"): group("NXdata", "data", field("definition")),
        (c, "NXc_deep_def"): group("NXentry", "entry", group("NXsubentry", "sub", DEFN)),
        (c, "NXc_def_group"): group("NXentry", "entry", group("NXnote", "definition") + field("x")),
    }


PATTERNS = ["[A-Z][A-Za-z0-9_]*", "[a-zA-Z_]+[.][a-z0-9]+", "[a-z_][a-z0-9_]*", "[0-9]+_", "NX_class"]


def install(name, date, content, patterns=None, classname=None, base="v2018.5", cache=None, extra=None):
    """write a definitions set into the user cache; returns its path"""
    cache = cache or env.user_cache()
    src = os.path.join(nxdlref.CACHE, base)
    path = os.path.join(cache, name)
    os.makedirs(path)
    for f in ("nxdl.xsd", "nxdlTypes.xsd"):
        shutil.copy(os.path.join(src, f), path)
    if patterns:
        fn = os.path.join(path, "nxdl.xsd")
        t = open(fn, encoding="utf8").read()
        old = [p for p in nxdlref.NXDLRef(src).item_patterns]
        head, sep, tail = t.partition('name="validItemName"')
        assert sep and len(old) == 1 and tail.count('<xs:pattern value="%s"' % old[0]) >= 1
        tail = tail.replace('<xs:pattern value="%s"' % old[0], "".join('<xs:pattern value="%s"/>' % p for p in patterns[:-1]) + '<xs:pattern value="%s"' % patterns[-1], 1)
        open(fn, "w", encoding="utf8").write(head + sep + tail)
    if classname:
        fn = os.path.join(path, "nxdl.xsd")
        t = open(fn, encoding="utf8").read()
        head, sep, tail = t.partition('name="validNXClassName"')
        assert sep and 'value="NX.+"' in tail
        open(fn, "w", encoding="utf8").write(head + sep + tail.replace('value="NX.+"', 'value="%s"' % classname, 1))
    for cat in nxdlref.CATEGORIES:
        os.makedirs(os.path.join(path, cat))
        xsl = os.path.join(src, cat, "nxdlformat.xsl")
        if os.path.exists(xsl):
            shutil.copy(xsl, os.path.join(path, cat))
    for (cat, cls), inner in content.items():
        ext = "" if cls == "NXobject" else ' extends="NXobject"'
        with open(os.path.join(path, cat, cls + ".nxdl.xml"), "w", encoding="utf8") as f:
            f.write(HEAD % (CATEGORY[cat], cls, ext) + inner + "\n</definition>\n")
    with open(os.path.join(path, "__github_info__.json"), "w") as f:
        json.dump(dict(ref=name, sha="0123456789abcdef", zip_url="http://none/" + name, last_modified=date, **(extra or {})), f)
    return path


def standard():
    """the made-up sets that the validation checks use; older than every bundled set, so never the default"""
    install("synth", "2001-01-01 00:00:00", classes("0"))
    install("synth1", "2001-01-02 00:00:00", classes("1"), patterns=PATTERNS)
    return ("synth", "synth1")


def ref(name):
    path = os.path.join(nxdlref.CACHE, name)
    if not os.path.isdir(path):
        path = os.path.join(env.user_cache(), name)
    return nxdlref.NXDLRef(path)
