"""An independent reading of a set's XML Schema files (nxdl.xsd, nxdlTypes.xsd)."""
import os
import xml.etree.ElementTree as ET

XS = "{http://www.w3.org/2001/XMLSchema}"
MARK = "..."     # below a group in a group


def local(name):
    return name.split(":")[-1]


class Schema:
    def __init__(self, path):
        self.root = ET.parse(os.path.join(path, "nxdl.xsd")).getroot()
        self.types_root = ET.parse(os.path.join(path, "nxdlTypes.xsd")).getroot()
        self.named = {}
        for node in self.root:
            if node.get("name") is not None and node.tag != XS + "element":
                self.named[node.get("name")] = node

    # -- nxdlTypes.xsd
    def types(self):
        out = {}
        for t in self.types_root.findall(XS + "simpleType"):
            d = dict(restriction=None, union=None, values=None)
            r, u, l = t.find(XS + "restriction"), t.find(XS + "union"), t.find(XS + "list")
            if r is not None:
                d["restriction"] = local(r.get("base"))
                d["values"] = [e.get("value") for e in r.findall(XS + "enumeration")]
            if u is not None:
                d["union"] = [local(m) for m in u.get("memberTypes").split()]
            if l is not None:
                d["values"] = [local(l.get("itemType"))]
            out[t.get("name")] = d
        units = out.pop("anyUnitsAttr")
        out.pop("primitiveType")
        return out, units["values"] or units["union"]

    # -- simple types of nxdl.xsd
    def simple(self):
        raw = {}
        for t in self.root.findall(XS + "simpleType"):
            r = t.find(XS + "restriction")
            if r is None:
                raw[t.get("name")] = (None, [], None)
                continue
            m = r.find(XS + "maxLength")
            raw[t.get("name")] = (local(r.get("base")), [p.get("value") for p in r.findall(XS + "pattern")], None if m is None else int(m.get("value")))
        out = {}
        for k, (base, pats, m) in raw.items():
            if base in raw:
                base, more, m = raw[base][0], raw[base][1], raw[base][2]
                pats = pats + more
            out[k] = (base, pats, m)
        return out

    # -- elements and attributes
    def attribute(self, a):
        r = a.find("%ssimpleType/%srestriction" % (XS, XS))
        return a.get("name"), dict(type=a.get("type"), required=a.get("use") == "required", default=a.get("default"),
                                   enum=[] if r is None else [e.get("value") for e in r.findall(XS + "enumeration")],
                                   patterns=[] if r is None else [e.get("value") for e in r.findall(XS + "pattern")])

    def content(self, node, stack):
        """(attributes, elements) of a complexType, attributeGroup, group or extension node"""
        attrs, elements = {}, {}
        for x in node:
            if x.tag == XS + "attribute":
                k, v = self.attribute(x)
                attrs[k] = v
            elif x.tag in (XS + "attributeGroup", XS + "group"):
                a, e = self.content(self.named[local(x.get("ref"))], stack)
                attrs.update(a)
                elements.update(e)
            elif x.tag == XS + "complexContent":
                for ext in x.findall(XS + "extension"):
                    base = self.named[local(ext.get("base"))]
                    for a, e in (self.content(base, stack), self.content(ext, stack)):
                        attrs.update(a)
                        elements.update(e)
            elif x.tag == XS + "sequence":
                for y in x:
                    if y.tag == XS + "element":
                        elements[y.get("name")] = self.element(y, stack)
                    elif y.tag == XS + "group":
                        a, e = self.content(self.named[local(y.get("ref"))], stack)
                        elements.update(e)
        return attrs, elements

    def element(self, node, stack):
        t = node.get("type")
        out = dict(type=t, minOccurs=node.get("minOccurs"), maxOccurs=node.get("maxOccurs"))
        if t is None:
            inner = node.find(XS + "complexType")
            out["attrs"], out["elements"] = self.content(inner, stack) if inner is not None else ({}, {})
        elif local(t) == "groupType" and "groupType" in stack:
            out["attrs"] = out["elements"] = MARK
        else:
            ref = self.named.get(local(t))
            out["attrs"], out["elements"] = self.content(ref, stack + (local(t),)) if ref is not None and ref.tag == XS + "complexType" else ({}, {})
        return out

    def definition(self):
        node = self.root.find(XS + "element")
        return self.content(self.named[local(node.get("type"))], ())
