"""
NXDL documents by enumeration, made-up definitions sets that hold them, and what punx read from them.
"""
import json
import os
import shutil

import lxml.etree

from . import env, nxdlref, synth
from .explore import Cost

NS = "http://definition.nexusformat.org/nxdl/3.1"
_SCHEMA = {}


def schema(path):
    """the XML Schema of a set, by itself"""
    if path not in _SCHEMA:
        _SCHEMA[path] = lxml.etree.XMLSchema(lxml.etree.parse(os.path.join(path, "nxdl.xsd")))
    return _SCHEMA[path]


def valid(text, path):
    """is the document (bytes) well-formed and valid under the schema of the set?"""
    try:
        doc = lxml.etree.fromstring(text).getroottree()
    except lxml.etree.XMLSyntaxError:
        return False
    return schema(path).validate(doc)


def own_cache():
    """a user cache of this process (before its first use)"""
    path = os.path.join(env.SCRATCH, "cfg%d" % os.getpid())
    if os.environ["XDG_CONFIG_HOME"] != path:
        os.environ["XDG_CONFIG_HOME"] = path
        os.makedirs(os.path.join(path, "punx"), exist_ok=True)
    return os.path.join(path, "punx")


def make_set(name, files, base="v2018.5", date="2001-01-01 00:00:00", cache=None):
    """a definitions set with these files {(category, file name): bytes}"""
    path = os.path.join(cache or own_cache(), name)
    if not os.path.isdir(path):
        synth.install(name, date, {}, base=base, cache=cache or own_cache())
    for cat in nxdlref.CATEGORIES:
        for f in os.listdir(os.path.join(path, cat)):
            if not f.endswith(".xsl"):
                p = os.path.join(path, cat, f)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    for (cat, f), text in files.items():
        with open(os.path.join(path, cat, f), "wb") as fd:
            fd.write(text)
    return path


# ------------------------------------------------------------------ what punx read

def _attr(a):
    return dict(name=a.name, enums=list(a.enumerations))


def _attrs(obj):
    return {k: _attr(a) for k, a in obj.attributes.items() if not isinstance(a, str)}


def dump(obj):
    """a class (or group) as read by punx, in the shape of nxdlref"""
    out = dict(attrs=_attrs(obj), groups={}, fields={}, links={})
    for k, g in obj.groups.items():
        out["groups"][k] = d = dump(g)
        d["name"] = g.name
    for k, f in obj.fields.items():
        dims = None
        if f.dimensions is not None:
            dims = dict(rank=f.dimensions.rank, dims={i: {n: getattr(x, n) for n in ("index", "value", "ref", "refindex", "incr")} for i, x in f.dimensions.dims.items()})
        out["fields"][k] = dict(name=f.name, enums=list(f.enumerations), dims=dims, attrs=_attrs(f))
    for k, l in obj.links.items():
        out["links"][k] = dict(name=l.name, target=l.target)
    return out


def dump_class(d):
    out = dump(d)
    out.update(name=d.title, category=d.category, symbols=list(d.symbols))
    return out


def strip(ref):
    """the reference without what punx does not record"""
    out = {k: v for k, v in ref.items() if k not in ("type", "xml")}
    out["groups"] = {k: strip(g) for k, g in ref["groups"].items()}
    return out


def ordered(x):
    """with the order of dictionaries"""
    if isinstance(x, dict):
        return [(k, ordered(v)) for k, v in x.items()]
    if isinstance(x, list):
        return [ordered(v) for v in x]
    return x


def differences(want, got, path=""):
    """places where two descriptions differ"""
    if isinstance(want, dict) and isinstance(got, dict):
        for k in want:
            if k not in got:
                yield (path + "/" + str(k), "is missing")
            else:
                yield from differences(want[k], got[k], path + "/" + str(k))
        for k in got:
            if k not in want:
                yield (path + "/" + str(k), "is not declared")
    elif want != got:
        yield (path, "is %r, declared %r" % (got, want))


# ------------------------------------------------------------------ documents

def document(cat, body, extends=True, version=None, name="NXdoc"):
    t = synth.HEAD % (cat, name, ' extends="NXobject"' if extends else "")
    if version:
        t = t.replace(" type=", ' version="%s" type=' % version, 1)
    return t + body + "\n</definition>\n"


class Document:
    """choices -> one NXDL document (bytes); some are not valid"""

    def __init__(self, ch, category="base", deep=2, version=None, rich=False):
        self.ch = ch
        self.version = version
        self.rich = rich      # where the enumeration starts: nothing, or one of everything
        body = self.items("top", deep)
        symbols = ch.choose("symbols", ["", "<symbols/>", "<symbols><doc>d</doc><symbol name='n'><doc>n</doc></symbol><symbol name='m'/></symbols>",
                                        "<symbols>text<symbol name='n'/> and <symbol/> more</symbols>", "<symbols><!-- c --><symbol name='n'/></symbols>",
                                        "<symbols><?pi x?><symbol name='n'/></symbols>", "<symbols><symbol name='a'/><symbol name='a'/></symbols>"])
        body = symbols + body
        noise = ch.choose("noise", [None, "<!-- c <field name='zz'/> -->", "<?pi field name='zz'?>"])
        if noise:
            places = [i + 1 for i, c in enumerate(body) if c == ">"] or [0]
            at = ch.choose("noise at", [Cost(0, p) for p in places])
            body = body[:at] + noise + body[at:]
        text = document(category, body, version=version)
        form = ch.choose("form", ["plain", "utf-16", "latin-1", "bom", "prefix", "entity", "one line", "crlf", "cdata"])
        if form == "utf-16":
            raw = text.replace("UTF-8", "UTF-16").encode("utf-16")
        elif form == "latin-1":
            raw = text.replace("UTF-8", "ISO-8859-1").replace("</definition>", "<!-- \xe9 --></definition>").encode("latin-1")
        elif form == "bom":
            raw = b"\xef\xbb\xbf" + text.encode()
        elif form == "prefix":
            import re
            t = re.sub(r"<(/?)(?=[a-z])", r"<\1nx:", text).replace("xmlns=", "xmlns:nx=")
            raw = t.encode()
        elif form == "entity":
            raw = text.replace("<definition", "<!DOCTYPE definition [<!ENTITY e 'value'>]>\n<definition").replace("value='u'", "value='&e;'").encode()
        elif form == "one line":
            raw = text.replace("\n", " ").encode()
        elif form == "crlf":
            raw = text.replace("\n", "\r\n").encode()
        elif form == "cdata":
            raw = text.replace("</definition>", "<doc><![CDATA[<field name='zz'/>]]></doc></definition>").encode()
        else:
            raw = text.encode()
        self.text = raw

    def pick(self, label, menu, rich):
        if self.rich:
            menu = [menu[rich]] + menu[:rich] + menu[rich + 1:]
        return self.ch.choose(label, menu)

    def enum(self, label):
        return self.pick(label + " enumeration", ["", synth.E("u"), synth.E("a", "b", "a"), "<enumeration><item value='a'><doc>x</doc></item></enumeration>",
                                                       "<enumeration><item value=''/><item value=' b '/></enumeration>", "<enumeration/>"], 2)

    def attribute(self, label):
        n = self.ch.choose(label + " name", ["k", "K_1", "units", "name", "type"])
        x = self.ch.choose(label + " form", ["", " type='NX_INT'", " optional='false'", " deprecated='yes'", " type='NX_BOOLEAN' optional='true'"])
        return "<attribute name='%s'%s>%s%s</attribute>" % (n, x, self.ch.choose(label + " doc", ["", "<doc>the attribute</doc>"]), self.enum(label))

    def attributes(self, label):
        out = ""
        if self.pick(label + " attribute", [False, True], 1):
            out += self.attribute(label + " attribute")
            if self.pick(label + " attribute 2", [False, True], 1):
                out += "<attribute name='other'>%s</attribute>" % self.enum(label + " attribute 2")
        return out

    NAMES = ["x", "data", "a1", "x1", "AXISNAME_indices", "Entry", "NX", "_1", "a_NX"]

    def field(self, label):
        n = self.ch.choose(label + " name", self.NAMES)
        x = self.ch.choose(label + " form", ["", " type='NX_FLOAT' units='NX_ANY'", " minOccurs='1'", " signal='1' axes='a:b'", " nameType='any'", " deprecated='x'", " minOccurs='0' maxOccurs='unbounded'"])
        dims = self.pick(label + " dimensions", ["", "<dimensions/>", "<dimensions rank='2'><dim index='1' value='n'/><dim index='2' value='m' ref='x' refindex='1' incr='2'/></dimensions>",
                                                      "<dimensions rank='dataRank'><doc>d</doc><dim index='0' value='3' required='false'/></dimensions>",
                                                      "<dimensions rank='1'><dim index='1' value='n'><doc>d</doc></dim></dimensions>",
                                                      "<dimensions rank='1'><dim index='2' value='b'/><dim index='1' value='a'/></dimensions>",
                                                      "<dimensions rank='0'/><dimensions rank='1'/>"], 2)
        order = self.ch.choose(label + " order", [0, 1, 2])
        parts = [dims, self.attributes(label), self.enum(label)]
        parts = parts[order:] + parts[:order]
        return "<field name='%s'%s>%s</field>" % (n, x, "".join(parts))

    def group(self, label, deep):
        t = self.ch.choose(label + " type", ["NXdata", "NXx", "NXentry", "NXa1", "NXXray", "NXN", "NXaNXb", "NX_1"])
        n = self.ch.choose(label + " name", ["", " name='x'", " name='data'", " name='a1'"])
        x = self.ch.choose(label + " form", ["", " minOccurs='1'", " deprecated='y'", " minOccurs='0' maxOccurs='unbounded'"])
        return "<group type='%s'%s%s>%s</group>" % (t, n, x, self.attributes(label) + (self.items(label, deep - 1) if deep else ""))

    def link(self, label):
        n = self.ch.choose(label + " name", self.NAMES)
        return "<link name='%s' target='%s'>%s</link>" % (n, self.ch.choose(label + " target", ["/entry/data", "/NXentry/NXdata/x", "/a:NXb/c", "x", ""]), self.ch.choose(label + " doc", ["", "<doc>l</doc>"]))

    def items(self, label, deep):
        kinds = [None, "field", "group", "link", "attribute", "choice", "doc"]
        out = ""
        for i in (1, 2, 3):
            k = self.pick("%s %d" % (label, i), kinds, i)
            here = "%s/%d" % (label, i)
            if k is None:
                break
            if k == "field":
                out += self.field(here)
            elif k == "group":
                out += self.group(here, deep)
            elif k == "link":
                out += self.link(here)
            elif k == "attribute":
                out += "<attribute name='top%d'>%s</attribute>" % (i, self.enum(here))
            elif k == "choice":
                out += synth.choice("c", "<group type='NXdata'/>", "<group type='NXlog'>%s</group>" % synth.field("q"))
            elif k == "doc":
                out += "<doc>field name='zz' &lt;field/&gt; <b>bold</b></doc>"
        return out
