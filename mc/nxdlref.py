"""
An independent reading of a definitions set: NXDL classes and the name patterns of nxdl.xsd.
Used as the reference model's knowledge of NeXus; imports nothing of punx.
"""
import os
import re
import xml.etree.ElementTree as ET

NX = "{http://definition.nexusformat.org/nxdl/3.1}"
XS = "{http://www.w3.org/2001/XMLSchema}"
CATEGORIES = ("base_classes", "applications", "contributed_definitions")
CACHE = "/repo/punx/cache"
BUNDLED = ("a4fd52d", "v3.3", "v2018.5")


def _enums(node):
    return [i.get("value") for e in node.findall(NX + "enumeration") for i in e.findall(NX + "item")]


def _attribute(node):
    return dict(name=node.get("name"), enums=[v for v in _enums(node) if v is not None])


def _field(node):
    dims = node.findall(NX + "dimensions")
    d = None
    if len(dims) == 1:
        d = dict(rank=dims[0].get("rank"),
                 dims={x.get("index"): {k: x.get(k) for k in ("index", "value", "ref", "refindex", "incr")} for x in dims[0].findall(NX + "dim")})
    return dict(name=node.get("name"), enums=_enums(node), dims=d,
                attrs={a["name"]: a for a in map(_attribute, node.findall(NX + "attribute"))})


def _link(node):
    return dict(name=node.get("name"), target=node.get("target"))


def _container(node):
    """groups, then fields, then links; a name already used on this level gets the first free number"""
    out = dict(groups={}, fields={}, links={}, attrs={a["name"]: a for a in map(_attribute, node.findall(NX + "attribute"))})
    used = []

    def unique(name):
        new, i = name, 1
        while new in used:
            new = name + str(i)
            i += 1
        used.append(new)
        return new

    for g in node.findall(NX + "group"):
        d = _container(g)
        d["type"] = g.get("type")
        d["xml"] = {k: v for k, v in g.attrib.items() if k not in ("name", "type")}
        d["name"] = unique(g.get("name") or g.get("type")[2:])
        out["groups"][d["name"]] = d
    for f in node.findall(NX + "field"):
        d = _field(f)
        d["name"] = unique(d["name"])
        out["fields"][d["name"]] = d
    for l in node.findall(NX + "link"):
        d = _link(l)
        d["name"] = unique(d["name"])
        out["links"][d["name"]] = d
    return out


def read_nxdl(fname):
    root = ET.parse(fname).getroot()
    d = _container(root)
    d["name"] = os.path.basename(fname).split(".")[0]
    d["category"] = os.path.basename(os.path.dirname(fname))
    d["symbols"] = [x.get("name") for sy in root.findall(NX + "symbols") for x in sy.findall(NX + "symbol") if x.get("name") is not None]
    return d


class NXDLRef:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)
        self.classes = {}
        for cat in CATEGORIES:
            folder = os.path.join(path, cat)
            for f in sorted(os.listdir(folder)):
                if f.endswith(".nxdl.xml"):
                    c = read_nxdl(os.path.join(folder, f))
                    self.classes[c["name"]] = c
        xsd = ET.parse(os.path.join(path, "nxdl.xsd")).getroot()
        self.item_patterns = []
        self.class_patterns = []
        for st in xsd.findall(XS + "simpleType"):
            pats = [p.get("value") for p in st.findall("%srestriction/%spattern" % (XS, XS))]
            if st.get("name") == "validItemName":
                self.item_patterns = pats
            if st.get("name") == "validNXClassName":
                self.class_patterns = pats

    def strict(self, name):
        return re.fullmatch(r"[a-z_][a-z0-9_]*", name) is not None

    def relaxed(self, name):
        return any(re.fullmatch(p, name) is not None for p in self.item_patterns)

    def is_base(self, cls):
        """may the class be the NX_class of a group?"""
        c = self.classes.get(cls)
        if c is None or c["category"] == "applications":
            return False
        if c["category"] == "base_classes":
            return True
        entry = c["groups"].get("entry")
        return entry is None or "definition" not in entry["fields"]


def bundled(name):
    return NXDLRef(os.path.join(CACHE, name))
