"""N04: the schema description of a set depends only on that set's schema files."""
import itertools
import os
import re
import shutil

from mc import env, nxdldocs, nxdlref, synth, xsdref
from mc.explore import Cost
from mc.proc import result


def flag(a):
    return a["default"].lower() in ("true", "y", "1") if a["type"] == "nx:NX_BOOLEAN" and a["default"] is not None else a["default"]


# ------------------------------------------------------------------ SchemaManager

def manager(path):
    """what punx.schema_manager reads"""
    from punx import schema_manager
    root = schema_manager.SchemaManager(path).nxdl

    def attr(a):
        return dict(type=a.type, required=a.required, default=a.default_value, enum=list(a.enum), patterns=list(a.patterns))

    def element(e, stack):
        return dict(attrs={k: attr(a) for k, a in e.attrs.items()}, elements={k: "..." if k == "group" and "group" in stack else element(c, stack + (k,)) for k, c in e.children.items()})
    top = element(root, ())
    pats = {k: (p.base, list(p.re_list), None if p.maxLength == -1 else p.maxLength) for k, p in root.patterns.items()}
    types = {k: dict(restriction=t.restriction, union=None if t.union is None else list(t.union), values=None if t.values is None else list(t.values)) for k, t in root.types.items()}
    return dict(top, patterns=pats, types=types, units=list(root.units))


def manager_ref(path):
    s = xsdref.Schema(path)

    def attr(a):
        return dict(type=a["type"] or "str", required=a["required"], default=flag(a), enum=a["enum"], patterns=a["patterns"])

    def content(attrs, elements):
        if attrs == xsdref.MARK:
            return "..."
        return dict(attrs={k: attr(a) for k, a in attrs.items()}, elements={k: content(e["attrs"], e["elements"]) if e["type"] else dict(attrs={n: attr(a) for n, a in e["attrs"].items()}, elements={}) for k, e in elements.items()})
    types, units = s.types()
    return dict(content(*s.definition()), types=types, units=units, patterns={k: v for k, v in s.simple().items() if k.startswith("valid")})


# ------------------------------------------------------------------ NXDL_Summary

def summary(path):
    """what punx.nxdl_schema reads"""
    from punx import nxdl_schema
    s = nxdl_schema.NXDL_Summary(os.path.join(path, "nxdl.xsd"))

    def attr(a):
        return dict(type=a.type.lstrip("_"), required=a.required, default=a.default_value)

    def attrs(o):
        return {k: attr(a) for k, a in o.attributes.items()}

    def element(o, stack):
        return dict(attrs=attrs(o), elements={k: "..." if k == "group" and "group" in stack else element(c, stack + (k,)) for k, c in o.components.items()})
    out = dict(definition=attrs(s.definition), group=attrs(s.group), items=sorted(s.group.components))
    for n in ("attribute", "field", "link", "symbols", "doc"):
        out[n] = element(getattr(s, n), (n,))
    if "choice" in s.group.components:
        out["choice"] = element(s.group.components["choice"], ("choice", "group"))
    out["simple"] = {k: (v.base, list(v.patterns), v.maxLength) for k, v in s.simpleType.items() if not k.startswith("Line")}
    return out


def summary_ref(path):
    s = xsdref.Schema(path)
    top, elements = s.definition()

    def attr(a):
        return dict(type=xsdref.local(a["type"] or "nx:NX_CHAR"), required=a["required"], default=a["default"])

    def element(e, stack):
        return dict(attrs={k: attr(a) for k, a in e["attrs"].items()}, elements={k: "..." if k == "group" and "group" in stack else element(c, stack + (k,)) for k, c in e["elements"].items()})
    g = elements["group"]
    out = dict(definition={k: attr(a) for k, a in top.items()}, group={k: attr(a) for k, a in g["attrs"].items()}, items=sorted(g["elements"]))
    for n in ("attribute", "field", "link", "doc"):
        out[n] = element(g["elements"][n], (n,))
    out["symbols"] = element(elements["symbols"], ("symbols",))
    if "choice" in g["elements"]:
        out["choice"] = element(g["elements"]["choice"], ("choice", "group"))
    out["simple"] = s.simple()
    return out


READERS = dict(manager=(manager, manager_ref), summary=(summary, summary_ref))


def judge(ch, kind, got, want, label):
    for place, text in itertools.islice(nxdldocs.differences(want, got), 6):
        ch.fail("%s:%s" % (kind, re.sub(r"[^a-z/]", "", place)[:40]), "%s, read by %s: %s %s" % (label, kind, place, text))


class Histories:
    """all schemas, read in every order"""
    batch = 2
    limit = 100

    def __init__(self, sets, length):
        self.args = [sets, length]
        self.sets, self.length = sets, length

    def execute(self, ch):
        seq = []
        for i in range(self.length):
            seq.append((ch.choose("set %d" % i, [Cost(0, s) for s in self.sets]), ch.choose("reader %d" % i, [Cost(0, r) for r in READERS])))

        def job():
            return [READERS[r][0](PATHS[s]) for s, r in seq]
        got = result(ch, job)
        if got is None:
            return
        for (s, r), g in zip(seq, got):
            if (s, r) not in WANT:
                WANT[s, r] = READERS[r][1](PATHS[s])
            judge(ch, r, g, WANT[s, r], "%s in %s" % (s, seq))
        ch.observe(seq)


WANT = {}
PATHS = {}

# ------------------------------------------------------------------ variants of a schema


def between(text, start, stop, f):
    i = text.index(start)
    j = text.index(stop, i) + len(stop)
    return text[:i] + f(text[i:j]) + text[j:]


def oneline(t):
    return re.sub(r">\s+<", "><", re.sub(r"<xs:documentation>.*?</xs:documentation>", "<xs:documentation/>", t, flags=re.S)).replace("\n", " ")


EDITS = [
    ("new attribute of fields", "nxdl.xsd", lambda t: t.replace('<xs:attribute name="long_name"', '<xs:attribute name="color" type="nx:NX_CHAR" default="red"/><xs:attribute name="long_name"', 1)),
    ("new attribute of groups", "nxdl.xsd", lambda t: between(t, '<xs:complexType name="groupType">', '<xs:attribute name="type"', lambda p: p.replace('<xs:attribute name="type"', '<xs:attribute name="recommended" type="nx:NX_BOOLEAN" default="true"/><xs:attribute name="type"'))),
    ("new attribute of links", "nxdl.xsd", lambda t: t.replace('<xs:attribute name="napimount"', '<xs:attribute name="follow" use="required"/><xs:attribute name="napimount"', 1)),
    ("new attribute of attributes", "nxdl.xsd", lambda t: t.replace('<xs:attribute name="optional"', '<xs:attribute name="recommended" type="nx:NX_BOOLEAN" default="false"/><xs:attribute name="optional"', 1)),
    ("new attribute of definitions", "nxdl.xsd", lambda t: t.replace('<xs:attribute name="restricts"', '<xs:attribute name="also" use="required" type="nx:validItemName"/><xs:attribute name="restricts"', 1)),
    ("new attribute of all items", "nxdl.xsd", lambda t: t.replace('<xs:attribute name="deprecated"', '<xs:attribute name="since" default="2020"/><xs:attribute name="deprecated"', 1)),
    ("new attribute of dim", "nxdl.xsd", lambda t: t.replace('<xs:attribute name="refindex"', '<xs:attribute name="label" default="x"/><xs:attribute name="refindex"', 1)),
    ("new attribute of dimensions", "nxdl.xsd", lambda t: t.replace('<xs:attribute name="rank"', '<xs:attribute name="order" default="C"/><xs:attribute name="rank"', 1)),
    ("new attribute of item", "nxdl.xsd", lambda t: between(t, '<xs:element name="item"', '<xs:attribute name="value"', lambda p: p.replace('<xs:attribute name="value"', '<xs:attribute name="label"/><xs:attribute name="value"'))),
    ("minOccurs of groups", "nxdl.xsd", lambda t: between(t, '<xs:complexType name="groupType">', 'default="0"', lambda p: p.replace('default="0"', 'default="2"'))),
    ("minOccurs of fields", "nxdl.xsd", lambda t: between(t, '<xs:complexType name="fieldType">', 'default="0"', lambda p: p.replace('default="0"', 'default="3"'))),
    ("maxOccurs of fields", "nxdl.xsd", lambda t: re.sub(r'(name="maxOccurs" use="optional"\s+default=)"1"', r'\1"unbounded"', t)),
    ("optional attributes", "nxdl.xsd", lambda t: t.replace('name="optional" type="nx:NX_BOOLEAN" default="true"', 'name="optional" type="nx:NX_BOOLEAN" default="false"')),
    ("ignoreExtra", "nxdl.xsd", lambda t: t.replace('name="ignoreExtraFields" use="optional" type="nx:NX_BOOLEAN" default="false"', 'name="ignoreExtraFields" use="optional" type="nx:NX_BOOLEAN" default="true"')),
    ("type of fields required", "nxdl.xsd", lambda t: t.replace('name="type" type="nx:NAPI" default="NX_CHAR"', 'name="type" type="nx:NAPI" use="required"')),
    ("prohibited attribute", "nxdl.xsd", lambda t: re.sub('(<xs:attribute name="(long_name|restricts)")( use="optional")?', r'\1 use="prohibited"', t)),
    ("explicitly optional", "nxdl.xsd", lambda t: re.sub('(<xs:attribute name="(stride|long_name)")(?! use)', r'\1 use="optional"', t)),
    ("name optional", "nxdl.xsd", lambda t: between(t, '<xs:complexType name="basicComponent">', 'use="required"', lambda p: p.replace('use="required"', 'use="optional"'))),
    ("item name pattern", "nxdl.xsd", lambda t: between(t, '<xs:simpleType name="validItemName">', '</xs:restriction>', lambda p: re.sub(r'<xs:pattern value="[^"]*"', '<xs:pattern value="[a-z]+"/><xs:pattern value="[A-Z]{2}"', p))),
    ("item name length", "nxdl.xsd", lambda t: between(t, '<xs:simpleType name="validItemName">', '</xs:restriction>', lambda p: p.replace('value="63"', 'value="127"'))),
    ("class name pattern", "nxdl.xsd", lambda t: between(t, '<xs:simpleType name="validNXClassName">', '</xs:restriction>', lambda p: p.replace('NX.+', 'N[XY].+'))),
    ("target name pattern", "nxdl.xsd", lambda t: between(t, '<xs:simpleType name="validTargetName">', '</xs:restriction>', lambda p: re.sub(r'<xs:pattern value="[^"]*"', '<xs:pattern value="/.*"', p))),
    ("new name type", "nxdl.xsd", lambda t: t.replace('<xs:complexType name="definitionType">', '<xs:simpleType name="validOther"><xs:restriction base="xs:token"><xs:pattern value="o+"/><xs:maxLength value="3"/></xs:restriction></xs:simpleType><xs:complexType name="definitionType">', 1)),
    ("new element of groups", "nxdl.xsd", lambda t: t.replace('<xs:element name="link" type="nx:linkType"', '<xs:element name="alias" type="nx:linkType" minOccurs="0" maxOccurs="unbounded"/><xs:element name="link" type="nx:linkType"', 1)),
    ("new element first in groups", "nxdl.xsd", lambda t: between(t, '<xs:group name="groupGroup">', '<xs:sequence>', lambda p: p + '<xs:element name="note" type="nx:docType" minOccurs="0"/>')),
    ("element of groups with groups", "nxdl.xsd", lambda t: t.replace('<xs:element name="attribute" type="nx:attributeType" minOccurs="0" maxOccurs="unbounded">', '<xs:element name="oneof" type="nx:oneofType" minOccurs="0"/><xs:element name="attribute" type="nx:attributeType" minOccurs="0" maxOccurs="unbounded">', 1)
     .replace('<xs:complexType name="definitionType">', '<xs:complexType name="oneofType"><xs:sequence><xs:element name="group" type="nx:groupType" maxOccurs="3"/></xs:sequence><xs:attribute name="name" use="required" type="nx:validItemName"/></xs:complexType><xs:complexType name="definitionType">', 1)),
    ("new element of fields", "nxdl.xsd", lambda t: between(t, '<xs:complexType name="fieldType">', '<xs:sequence>', lambda p: p + '<xs:element name="unit" type="nx:docType"/>')),
    ("new element of symbols", "nxdl.xsd", lambda t: between(t, '<xs:complexType name="symbolsType"', '<xs:sequence>', lambda p: p + '<xs:element name="index" minOccurs="0"><xs:complexType><xs:attribute name="a" default="1"/><xs:attribute name="b"/></xs:complexType></xs:element>')),
    ("enumeration of categories", "nxdl.xsd", lambda t: t.replace('<xs:enumeration value="contributed"', '<xs:enumeration value="draft"/><xs:enumeration value="contributed"', 1)),
    ("one line", "nxdl.xsd", oneline),
    ("CRLF", "nxdl.xsd", lambda t: t.replace("\n", "\r\n")),
    ("UTF-16", "nxdl.xsd", lambda t: t.replace("UTF-8", "UTF-16")),
    ("order of declarations", "nxdl.xsd", lambda t: (lambda g: t.replace(g, "").replace("</xs:schema>", g + "</xs:schema>"))(re.search(r'<xs:simpleType name="validItemName">.*?</xs:simpleType>', t, re.S).group())),
    ("new type", "nxdlTypes.xsd", lambda t: t.replace('<xs:simpleType name="NAPI">', '<xs:simpleType name="NX_COMPLEX"><xs:restriction base="nxdl:NX_FLOAT"/></xs:simpleType><xs:simpleType name="NAPI">', 1)),
    ("new type in the list", "nxdlTypes.xsd", lambda t: t.replace("nxdl:NX_UINT\n", "nxdl:NX_UINT nxdl:NX_CHAR_OR_NUMBER\n", 1).replace('<xs:simpleType name="NAPI">', '<xs:simpleType name="NX_CHAR_OR_NUMBER"><xs:union memberTypes="nxdl:NX_CHAR nxdl:NX_NUMBER"/></xs:simpleType><xs:simpleType name="NAPI">', 1)),
    ("new unit", "nxdlTypes.xsd", lambda t: t.replace("nxdl:NX_ANGLE\n", "nxdl:NX_COUNT nxdl:NX_ANGLE\n", 1).replace('<xs:simpleType name="NAPI">', '<xs:simpleType name="NX_COUNT"><xs:restriction base="xs:string"/></xs:simpleType><xs:simpleType name="NAPI">', 1)),
    ("units listed", "nxdlTypes.xsd", lambda t: between(t, '<xs:simpleType name="anyUnitsAttr">', '</xs:simpleType>', lambda p: '<xs:simpleType name="anyUnitsAttr"><xs:restriction base="xs:string"><xs:enumeration value="NX_ANGLE"/><xs:enumeration value="NX_MORE"/></xs:restriction></xs:simpleType>')),
    ("values of a type", "nxdlTypes.xsd", lambda t: between(t, '<xs:simpleType name="NX_ANGLE">', '</xs:simpleType>', lambda p: '<xs:simpleType name="NX_ANGLE"><xs:restriction base="xs:string"><xs:enumeration value="deg"/><xs:enumeration value="rad"/></xs:restriction></xs:simpleType>')),
    ("one line", "nxdlTypes.xsd", oneline),
]


class Variants:
    """a bundled schema with edits"""
    batch = 8
    limit = 60

    def __init__(self, deep=0):
        self.args = [deep]

    def execute(self, ch):
        base = ch.choose("schema", [Cost(0, b) for b in ("v2018.5", "v3.3", "a4fd52d")])
        src = os.path.join(nxdlref.CACHE, base)
        texts = {f: open(os.path.join(src, f), encoding="utf8").read() for f in ("nxdl.xsd", "nxdlTypes.xsd")}
        names, last = [], -1
        for i in (1, 2, 3):
            k = ch.choose("edit %d" % i, [None] + list(range(last + 1, len(EDITS))))
            if k is None:
                break
            last = k
            name, f, edit = EDITS[k]
            try:
                new = edit(texts[f])
            except (ValueError, AttributeError):      # not in this schema
                new = texts[f]
            if base == "v2018.5" and new == texts[f] and not names:
                raise RuntimeError("edit without effect: " + name)
            texts[f] = new
            names.append(name)
        noise = ch.choose("noise", [None] + [Cost(2, n) for n in ("<!-- c -->", "<?pi x?>")])
        if noise:
            f = ch.choose("noise in", [Cost(0, f) for f in texts])
            plain = re.sub(r"<!--.*?-->|<\?.*?\?>|<xs:documentation>.*?</xs:documentation>", lambda m: "x" * len(m.group()), texts[f], flags=re.S)
            places = [m.end() for m in re.finditer(">", plain)][:-1]
            at = ch.choose("noise at", [Cost(0, p) for p in places])
            texts[f] = texts[f][:at] + noise + texts[f][at:]
        path = os.path.join(env.workdir(), "schema-%d" % os.getpid())
        os.makedirs(path, exist_ok=True)
        for f, t in texts.items():
            with open(os.path.join(path, f), "wb") as fd:
                fd.write(t.encode("utf-16" if "UTF-16" in names and f == "nxdl.xsd" else "utf8"))
        try:
            import lxml.etree
            try:
                lxml.etree.XMLSchema(lxml.etree.parse(os.path.join(path, "nxdl.xsd")))
            except lxml.etree.XMLSchemaParseError:
                if base == "v2018.5" and len(names) == 1 and noise is None:
                    raise RuntimeError("edit gives no schema: %s" % names)
                ch.observe("no schema", names)
                return       # edits that do not go together
            for r, (read, ref) in READERS.items():
                judge(ch, r, read(path), ref(path), "%s with %s, %s" % (base, names, noise))
        finally:
            shutil.rmtree(path)
        ch.observe(base, names, noise, noise and at)


HARNESSES = dict(Histories=Histories, Variants=Variants)


def setup():
    import logging
    import punx.schema_manager, punx.nxdl_schema  # noqa
    logging.disable(logging.CRITICAL)
    synth.standard()
    for s in nxdlref.BUNDLED:
        PATHS[s] = os.path.join(nxdlref.CACHE, s)
    PATHS["synth1"] = os.path.join(env.user_cache(), "synth1")
    p = PATHS["other"] = os.path.join(env.user_cache(), "other")
    os.makedirs(p)
    for f in ("nxdl.xsd", "nxdlTypes.xsd"):
        t = open(os.path.join(nxdlref.CACHE, "v3.3", f), encoding="utf8").read()
        for name, g, edit in EDITS:
            if g == f and name in ("new attribute of fields", "new element of groups", "new attribute of definitions", "new type", "new unit"):
                t = edit(t)
        with open(os.path.join(p, f), "w", encoding="utf8") as fd:
            fd.write(t)


def run(ctx):
    setup()
    ctx.explore(Histories(list(PATHS), 3), 0)
    if ctx.thorough:
        ctx.explore(Histories(["a4fd52d", "v2018.5", "other"], 4), 0)
    ctx.explore(Variants(), 2 if not ctx.thorough else 3)
    ctx.assumptions.append("content of a group within a group, and the elements within elements of unnamed types (symbol, item, dim), are not judged")
