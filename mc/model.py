"""
The reference model of validation: what must be found in an abstract file (h5spec.Files) judged by a
definitions set (nxdlref.NXDLRef).  Each function compares one property with the findings of a real run
and calls fail(key, message) for every disagreement.
"""
import collections

from . import h5spec
from .h5spec import NON_NEXUS, G


class View:
    """the abstract file, walked once, and the findings of the run, indexed"""

    def __init__(self, files, ref, result):
        self.files, self.ref, self.result = files, ref, result
        self.top, self.items = h5spec.walk(files)
        self.objects = [i for i in self.items if not i.is_attr]
        self.at = collections.OrderedDict((i.address, i) for i in self.objects)
        self.find = {}
        for a, t, s, c in result.findings:
            self.find.setdefault((a, t), []).append((s, c))

    def get(self, address, test, skip=("TODO",)):
        return [x for x in self.find.get((address, test), []) if x[0] not in skip]

    def optional(self, item):
        """a link to a group that contains it: listed or not, as punx likes"""
        return item.is_group and not item.descended

    def inside_optional(self, item):
        while item is not None:
            if self.optional(item):
                return True
            item = item.parent
        return False

    def judged(self):
        """NeXus objects that are certainly in the catalogue"""
        return [i for i in self.objects if not self.inside_optional(i)]


def in_collection(item):
    """is it an NXcollection group or (as NeXus content) in one?"""
    if item.classpath == NON_NEXUS:
        return False
    while item is not None:
        if item.is_group and item.parent is not None and item.node.nx == "NXcollection":
            return True
        item = item.parent
    return False


def in_classes(item, *classes):
    """is it a group of the last class, directly in one of the class before, ... in the root"""
    for c in reversed(classes):
        if item is None or item.parent is None or not item.is_group or item.node.nx != c:
            return False
        item = item.parent
    return item is not None and item.parent is None


def resolve(view, item, path):
    """does the name exist as a child of the group? None: cannot say"""
    if path in item.broken:
        return None
    return path in item.kids


# ------------------------------------------------------------------------------------ V02
def catalogue(view, fail):
    r = view.result
    must, may = collections.Counter(), set()
    paths = {}
    for i in view.items:
        owner = i.parent if i.is_attr else i
        if i.address is None:
            continue
        if view.inside_optional(owner):
            may.add(i.address)
            continue
        must[i.address] += 1
        paths[i.address] = i.classpath
    have = collections.Counter(r.addresses)
    for a in must:
        if have[a] != 1:
            fail("catalogue:missing", "%r is %d times in the catalogue" % (a, have[a]))
    for a in have:
        if a not in must and a not in may:
            fail("catalogue:extra", "%r is in the catalogue, no such item" % a)
    got = {}
    for cp, addrs in r.classpaths.items():
        for a in addrs:
            if a is None:
                if cp != NON_NEXUS:
                    fail("classpath:none", "item without address filed under %r" % cp)
                continue
            got.setdefault(a, []).append(cp)
    for a, cp in paths.items():
        if got.get(a) != [cp]:
            fail("classpath", "%r is filed under %r, expected %r" % (a, got.get(a), cp))
    for a in got:
        if a not in paths and a not in may:
            fail("classpath:extra", "%r is filed under %r, no such item" % (a, got[a]))
    for i in view.judged():
        if not i.is_group:
            continue
        notes = view.get(i.address, "NeXus_group")
        if i.classpath == NON_NEXUS:
            if [s for s, _c in notes] != ["OK"]:
                fail("non-nexus:report", "%s: %r for a group that is not NeXus" % (i.address, notes))
            for test in ("known NXDL", "NeXus base class", "NXDL field in data file", "NXDL group in data file"):
                if view.get(i.address, test, ()):
                    fail("non-nexus:compared", "%s is not NeXus, yet: %s %r" % (i.address, test, view.get(i.address, test, ())))
        elif notes:
            fail("nexus:report", "%s: %r for a NeXus group" % (i.address, notes))


# ------------------------------------------------------------------------------------ V04
def target_is_elsewhere(item):
    """True / False: is the item linked to another address; None: not for this model to say"""
    v = item.node.attrs.get("target")
    if v is None:
        return False
    if not isinstance(v.text, str):
        return None
    return v.text != item.address


def name_status(view, name):
    if view.ref.strict(name):
        return "OK"
    return "NOTE" if view.ref.relaxed(name) else "ERROR"


def names(view, fail):
    for i in view.judged():
        if i.parent is not None and (i.is_group or i.is_dataset):
            want = "WARN" if in_collection(i) else name_status(view, i.name)
            got = [s for s, _c in view.get(i.address, "validItemName", ())]
            if got != [want]:
                fail("name:%s" % ("group" if i.is_group else "field"), "%r (%s): %r, expected %s" % (i.address, i.classpath, got, want))
        for a in i.attrs.values():
            if a.attr == "NX_class" or a.address is None or i.parent is None and False:
                continue
            if not (i.is_group or i.is_dataset):
                continue
            linked = target_is_elsewhere(i)
            got = [s for s, _c in view.get(a.address, "validItemName", ())]
            if linked is None:
                continue
            want = [] if linked else ["OK" if name_status(view, a.attr) != "ERROR" else "ERROR"]
            if got != want:
                fail("name:attribute", "%r: %r, expected %r" % (a.address, got, want))


# ------------------------------------------------------------------------------------ V05
def nx_class(view, fail):
    for i in view.judged():
        if not i.is_group or i.classpath == NON_NEXUS:
            continue
        cls = "NXroot" if i.parent is None else i.node.nx
        known, base = cls in view.ref.classes, view.ref.is_base(cls)
        got = [s for s, c in view.get(i.address, "known NXDL") if c.startswith(cls + ":")]
        if "definition" not in i.kids and got != ["OK" if known else "ERROR"]:
            fail("class:known", "%s, class %s: known NXDL %r" % (i.address, cls, got))
        got = [s for s, _c in view.get(i.address, "NeXus base class")]
        if got != ["OK" if base else "ERROR"]:
            fail("class:base", "%s, class %s (base class: %s): %r" % (i.address, cls, base, got))
        a = i.attrs.get("NX_class")
        if a is not None and i.parent is not None:
            got = [s for s, _c in view.get(a.address, "attribute value")]
            if got != ["OK" if base else "ERROR"]:
                fail("class:attribute", "%s, class %s (base class: %s): %r" % (a.address, cls, base, got))


# ------------------------------------------------------------------------------------ V06
def said(comment):
    """('found', '/entry/title') of 'found: /entry/title' """
    head, _s, tail = comment.partition(": ")
    return head.strip(), tail.strip()


def content(view, fail):
    for i in view.judged():
        if not i.is_group or i.classpath == NON_NEXUS:
            continue
        cls = view.ref.classes.get("NXroot" if i.parent is None else i.node.nx)
        if cls is None:
            continue
        for kind, test in (("fields", "NXDL field in data file"), ("groups", "NXDL group in data file")):
            got = collections.Counter()
            for s, c in view.get(i.address, test, ()):
                word, what = said(c)
                got[(what.split("/")[-1], s, word)] += 1
            want = collections.Counter()
            for name in cls[kind]:
                e = resolve(view, i, name)
                if e is None:
                    for s, w in (("OK", "found"), ("OPTIONAL", "not found")):
                        if (name, s, w) in got:
                            want[(name, s, w)] += 1
                    continue
                want[(name, "OK", "found") if e else (name, "OPTIONAL", "not found")] += 1
            if got != want:
                fail("content:%s" % kind, "%s (%s): unexpected %r, missing %r" % (i.address, cls["name"], dict(got - want), dict(want - got)))
        for name, kid in i.kids.items():
            if view.optional(kid):
                continue
            f = view.get(kid.address, "field in base class", ())
            g = view.get(kid.address, "group in base class", ())
            if kid.is_dataset:
                want = ("defined" if name in cls["fields"] else "not defined")
                if [said(c)[0] for _s, c in f] != [want] or g:
                    fail("content:child field", "%s: %r %r, expected %s by %s" % (kid.address, f, g, want, cls["name"]))
            elif kid.is_group:
                want = ("defined" if name in cls["groups"] else "not defined")
                if [said(c)[0] for _s, c in g] != [want] or f:
                    fail("content:child group", "%s: %r %r, expected %s by %s" % (kid.address, f, g, want, cls["name"]))
        for name, a in i.attrs.items():
            spec = cls["attrs"].get(name)
            want = "known" if spec is not None or name == "NX_class" else "unknown"
            got = [said(c)[0] for _s, c in view.get(a.address, "known attribute", ())]
            if got != [want]:
                fail("content:attribute", "%s: %r, expected %s in %s" % (a.address, got, want, cls["name"]))
            got = [s for s, _c in view.get(a.address, "attribute value enumeration", ())]
            if spec is None or not spec["enums"]:
                if got:
                    fail("content:no enumeration", "%s: %r, no enumeration in %s" % (a.address, got, cls["name"]))
                continue
            if isinstance(a.val.text, str):
                ok = [a.val.text in spec["enums"]]
            elif a.val.kind in ("S", "B", "SU") and len(a.val.value) == 1:
                ok = [True, False]
            elif a.val.kind == "np" or a.val.text is None:
                ok = [True, False] if any(str(a.val.value) == e for e in spec["enums"]) else [False]
            else:
                ok = [False]
            if got not in [["OK" if o else "ERROR"] for o in ok]:
                fail("content:enumeration", "%s = %r: %r, listed: %r" % (a.address, a.val, got, spec["enums"]))


# ------------------------------------------------------------------------------------ V07
def signal_one(val):
    """does the value of a field's @signal say 1?  None: cannot say"""
    if val is None:
        return False
    if isinstance(val.text, str):
        return True if val.text == "1" else (None if val.text.strip() == "1" else False)
    if val.kind == "np":
        v = val.value
        if getattr(v, "shape", ()) == () and not isinstance(v, (list, tuple)):
            return bool(v == 1) if isinstance(v, (int,)) and not isinstance(v, bool) or "int" in str(getattr(v, "dtype", "")) else (None if v == 1 else False)
        return None
    return None if val.kind in ("S", "B", "SU", "enum") else False


def default_plot(view, fail):
    """the verdict; returns None where the model leaves it open"""
    verdicts = view.get("/", "NeXus default plot", ())
    if len(verdicts) != 1:
        fail("plot:count", "%d default plot findings" % len(verdicts))
        return
    status, comment = verdicts[0]
    datas = [i for i in view.judged() if in_classes(i, "NXentry", "NXdata") and "signal" in i.attrs]
    good, misleading, unsure, paths = [], [], False, []
    for i in datas:
        t = i.attrs["signal"].val.text
        if not isinstance(t, str):
            misleading.append(i)
            if not (i.attrs["signal"].val.kind == "np"):
                unsure = True
            continue
        if t in i.kids and not view.optional(i.kids[t]):
            if i.kids[t].is_dataset:
                good.append(i)
                entry = i.parent
                d1, d2 = entry.parent.attrs.get("default"), entry.attrs.get("default")
                if d1 is not None and d2 is not None and d1.val.text == entry.name and d2.val.text == i.name:
                    paths.append(i)
        elif "/" in t or t == "." or t in i.broken or t in i.kids:
            unsure = True
            misleading.append(i)
        else:
            misleading.append(i)
    if unsure:
        return
    ones = {}
    for i in view.judged():
        if i.is_dataset and i.classpath != NON_NEXUS and "signal" in i.attrs:
            one = signal_one(i.attrs["signal"].val)
            if one is None:
                return
            if one:
                ones.setdefault(i.parent.address, []).append(i)
    for i in misleading:
        if not any(s == "ERROR" for (a, _t), fs in view.find.items() if a == i.address + "@signal" for s, _c in fs):
            fail("plot:misleading", "%s@signal = %r names nothing and is not reported as ERROR" % (i.address, i.attrs["signal"].val))
    v3 = bool(good) and not misleading
    if not v3:
        for addr, fields in ones.items():
            errs = [s for (a, t), fs in view.find.items() if a == addr and t.startswith("NeXus default plot") and t != "NeXus default plot" for s, _c in fs if s == "ERROR"]
            if (len(fields) > 1) != bool(errs):
                fail("plot:multiple", "%s: %d fields with @signal=1, errors: %r" % (addr, len(fields), errs))
    v2 = any(len(f) == 1 for f in ones.values())
    if v3 or v2:
        if status != "OK":
            fail("plot:verdict", "%s (%s), expected OK: %s" % (status, comment, "NXdata@signal" if v3 else "field with @signal=1"))
            return
        if v3:
            names = {i.address + "/" + i.attrs["signal"].val.text for i in good} | {i.address + "@signal" for i in good}
            if len(paths) == 1:
                i = paths[0]
                names = {i.address + "@signal", i.address + "/" + i.attrs["signal"].val.text}
                got = [s for s, _c in view.get(i.address + "@signal", "NeXus default plot v3 NIAC2014", ())]
                if got != ["OK"]:
                    fail("plot:NIAC2014", "%s is the only complete path, %r" % (i.address, got))
            elif any(t == "NeXus default plot v3 NIAC2014" for _a, t in view.find):
                fail("plot:NIAC2014", "there are %d complete paths, yet one is reported" % len(paths))
        else:
            names = {f[0].address for f in ones.values() if len(f) == 1}
        if not any(comment.endswith(" " + x) for x in names):
            fail("plot:named", "%r, expected one of %r" % (comment, sorted(names)))
        return
    entry = any(i.is_group and i.node.nx == "NXentry" and i.classpath != NON_NEXUS for i in view.judged())
    req = view.ref.classes["NXentry"]["groups"]["data"]["xml"].get("minOccurs", "0")
    want = "ERROR" if not entry or int(req) > 0 else "NOTE"
    if status != want:
        fail("plot:none", "%s (%s), expected %s: there is no default plot%s" % (status, comment, want, "" if entry else " and no NXentry"))


# ------------------------------------------------------------------------------------ V08
def dangling(view, path):
    """is the address that of a link to nothing?"""
    head, _s, last = path.rpartition("/")
    node, _root = view.files.resolve(view.files.main, head or "/")
    return isinstance(node, G) and last in node.kids and view.files.resolve(view.files.main, path)[0] is None


def references(view, fail):
    ref = view.ref
    for i in view.judged():
        if i.classpath == NON_NEXUS or not (i.is_group or i.is_dataset):
            continue
        cls = ref.classes.get("NXroot" if i.parent is None else i.node.nx) if i.is_group else None
        for name, a in i.attrs.items():
            t = a.val.text
            if i.is_group and name == "signal" and i.parent is not None:
                if not isinstance(t, str) or "/" in t or t in (".", "") or t in i.broken:
                    if t != "" and not (a.val.kind == "np"):
                        continue
                    want = "ERROR"
                else:
                    want = "OK" if t in i.kids else "ERROR"
                got = [s for s, _c in view.get(a.address, "attribute value")]
                if got != [want]:
                    fail("ref:signal", "%s = %r: %r, expected %s" % (a.address, a.val, got, want))
                if cls is not None and "signal" in cls["attrs"]:
                    got = [s for s, _c in view.get(a.address, "value of @signal")]
                    if got != [want]:
                        fail("ref:signal (class)", "%s = %r: %r, expected %s" % (a.address, a.val, got, want))
            elif i.is_group and name == "axes":
                for ax in ([t] if isinstance(t, str) else t if isinstance(t, list) else []):
                    if ax == "." :
                        bad = [f for (ad, _t), fs in view.find.items() if ad == a.address and "'.'" in _t for f in fs if f[0] != "OK"]
                        if bad:
                            fail("ref:axes placeholder", "%s = %r: %r" % (a.address, a.val, bad))
                        continue
                    if "/" in ax or ax == "" or ax in i.broken or "'" in ax or "\\" in ax:
                        continue
                    want = "OK" if ax in i.kids else "ERROR"
                    got = {s for s, _c in view.get(a.address, "axes['%s'] exists" % ax)}
                    if got != {want}:
                        fail("ref:axes", "%s = %r, %r: %r, expected %s" % (a.address, a.val, ax, got, want))
            elif i.is_group and name == "default" and i.classpath in ("", "/NXentry", "/NXentry/NXsubentry"):
                if cls is None or "default" not in cls["attrs"]:
                    continue
                if isinstance(t, str) and ("/" in t or t in i.broken or t == "."):
                    continue
                if not isinstance(t, str) and a.val.kind != "np":
                    continue
                want = "OK" if isinstance(t, str) and t in i.kids else "ERROR"
                got = [s for s, _c in view.get(a.address, "value of @default")]
                if got != [want]:
                    fail("ref:default", "%s = %r: %r, expected %s" % (a.address, a.val, got, want))
            elif name == "target":
                if isinstance(t, str) and dangling(view, t):
                    continue
                if t == "/" or isinstance(t, list) or a.val.kind not in ("s", "sa", "b", "bu", "np"):
                    continue
                if isinstance(t, str) and t.startswith("/"):
                    parts = t[1:].split("/")
                    valid = all(ref.strict(p) or ref.relaxed(p) for p in parts)
                    node, _root = view.files.resolve(view.files.main, t)
                    want = "OK" if valid and node is not None else "ERROR"
                else:
                    want = "ERROR"
                got = [s for s, _c in view.get(a.address, "attribute value")]
                if got != [want]:
                    fail("ref:target", "%s = %r: %r, expected %s" % (a.address, a.val, got, want))


# ------------------------------------------------------------------------------------ V09
def first_text(item):
    v = item.node.val
    if isinstance(v.text, str):
        return v.text
    if isinstance(v.text, list) and v.text:
        return v.text[0]
    if v.kind in ("S2", "B2"):
        return v.value[0][0]
    return None


def application(view, fail):
    ref = view.ref
    groups = [i for i in view.judged() if i.is_group and i.classpath in ("/NXentry", "/NXentry/NXsubentry")
              and i.kids.get("definition") is not None and i.kids["definition"].is_dataset]
    others = {i.address for i in view.judged() if i.is_group} - {i.address for i in groups}
    for (a, t), fs in view.find.items():
        if t == "NeXus application definition" and a in others and not ("definition" in view.at[a].kids):
            fail("app:where", "%s %s: %r" % (a, t, fs))
    for i in groups:
        name = first_text(i.kids["definition"])
        cls = ref.classes.get(name) if name is not None else None
        verdict = [f for f in view.get(i.address, "known NXDL") if name is None or f[1].startswith(name + ":")]
        own = [f for f in view.get(i.address, "known NXDL")]
        app = [s for s, _c in view.get(i.address, "NeXus application definition")]
        if cls is None:
            if not any(s == "ERROR" for s, _c in (verdict if name is not None else own)) or "OK" in app:
                fail("app:unknown", "%s/definition = %r is unknown: %r %r" % (i.address, name, own, app))
            continue
        want = "ERROR" if cls["category"] == "base_classes" else "OK"
        if app != [want]:
            fail("app:category", "%s/definition = %s (%s): %r, expected %s" % (i.address, name, cls["category"], app, want))
        if not any(s == "OK" for s, _c in verdict):
            fail("app:known", "%s/definition = %s is known: %r" % (i.address, name, own))
        if want == "ERROR" or not cls["groups"]:
            continue
        entry = list(cls["groups"].values())[0]
        for field, spec in entry["fields"].items():
            addr = i.address + "/" + field
            e = resolve(view, i, field)
            if e is None:
                continue
            got = [s for s, _c in view.get(addr, "NXDL field")]
            if got != ["OK" if e else "ERROR"]:
                fail("app:field", "%s as %s: %r, %s" % (addr, name, got, "present" if e else "not present"))
            got = [s for s, _c in view.get(addr, "NXDL field enumerations")]
            enums = [x for x in spec["enums"]]
            if not enums:
                if got:
                    fail("app:no enumeration", "%s as %s: %r" % (addr, name, got))
                continue
            if not e or not i.kids[field].is_dataset:
                ok = False
            else:
                v = first_text(i.kids[field])
                if v is None:
                    val = i.kids[field].node.val
                    if val.kind == "np" and any(str(x) in enums for x in [getattr(val.value, "flat", [val.value])[0] if not isinstance(val.value, list) else val.value[0]]):
                        continue
                ok = v in enums
            if got != ["OK" if ok else "ERROR"]:
                fail("app:enumeration", "%s as %s: %r, listed %r" % (addr, name, got, enums))


ALL = dict(V02=catalogue, V04=names, V05=nx_class, V06=content, V07=default_plot, V08=references, V09=application)
