"""T04: the NXDL tree view covers the whole definition."""
import collections
import os
import shutil
import xml.etree.ElementTree as ET

from mc import env, nxdlref, synth
from mc.explore import Cost
from mc.nxdlref import NX
from mc.proc import result

CATS = dict(base="base_classes", application="applications", contributed="contributed_definitions")
LABEL = dict(base="base class", application="application definition", contributed="contributed definition")


def wanted(node):
    """Counter of (path of labels) of everything declared (not below <choice>)"""
    out = collections.Counter()

    def walk(x, path):
        for a in x.findall(NX + "attribute"):
            out[path + ("@" + a.get("name"),)] += 1
        for f in x.findall(NX + "field"):
            p = path + (f.get("name") + ":" + f.get("type", "NX_CHAR"),)
            out[p] += 1
            for a in f.findall(NX + "attribute"):
                out[p + ("@" + a.get("name"),)] += 1
        for l in x.findall(NX + "link"):
            out[path + ("%s --> %s" % (l.get("name"), l.get("target")),)] += 1
        for g in x.findall(NX + "group"):
            p = path + ((g.get("name") + ":" if g.get("name") is not None else "") + g.get("type"),)
            out[p] += 1
            walk(g, p)
    walk(node, ())
    return out


def got(lines):
    out = collections.Counter()
    stack = [(0, ())]
    for line in lines:
        n = len(line) - len(line.lstrip(" "))
        text = line[n:]
        if text.startswith("("):
            continue       # remarks of the style sheet
        while stack[-1][0] >= n:
            stack.pop()
            if not stack:
                return None
        if ":" in text and " --> " not in text and text.endswith("]"):
            text = text.split("[")[0]
        p = stack[-1][1] + (text,)
        out[p] += 1
        stack.append((n, p))
    return out


def judge(ch, fname, report, style, marker=None):
    root = ET.parse(fname).getroot()
    name = os.path.basename(fname)
    if not isinstance(report, list) or len(report) < 3 or report[0] != "file: " + fname:
        ch.fail("head", "%s: %r" % (fname, report[:2] if report else report))
        return
    if report[1] != "XSLT: " + style:
        ch.fail("style sheet", "%s: %r, expected %s" % (fname, report[1], style))
    lines = report[2:]
    if marker:
        if lines[0] != marker:
            ch.fail("style sheet:output", "%s: made by %r, expected %r" % (name, lines[0], marker))
        lines = lines[1:]
    if lines[0] != "%s (%s)" % (root.get("name"), LABEL[root.get("category")]):
        ch.fail("name", "%s: %r" % (name, lines[0]))
    want, have = wanted(root), got(lines[1:])
    if have is None:
        ch.fail("nesting", "%s: %r" % (name, lines[:5]))
        return
    for p in want:
        if have[p] < want[p]:
            ch.fail("missing:" + ("attribute" if p[-1].startswith("@") else "item"), "%s: %s is shown %d times, declared %d times" % (name, "/".join(p), have[p], want[p]))
    for p in have:
        if p not in want:
            ch.fail("surplus", "%s: %s is not declared" % (name, "/".join(p)))


def user_dir(name):
    return os.path.join(env.SCRATCH, "cfg-" + name)


def make_config(name):
    """a user cache; (directory of the default set, marker of its style sheets)"""
    cache = os.path.join(user_dir(name), "punx")
    bundled = os.path.join(nxdlref.CACHE, "v2018.5")
    if name == "none":
        return bundled, False
    if not os.path.isdir(cache):
        os.makedirs(cache)
        dates = {"older": "2015-01-01 00:00:00", "newer": "2030-01-01 00:00:00", "partial": "2030-01-01 00:00:00"}
        p = synth.install("mine", dates[name], synth.classes("0"), cache=cache)
        for cat in nxdlref.CATEGORIES:
            f = os.path.join(p, cat, "nxdlformat.xsl")
            t = open(f, encoding="utf8").read()
            head, sep, tail = t.rpartition('<xsl:template match="nx:definition">')
            assert sep
            open(f, "w", encoding="utf8").write(head + sep + "STYLE %s<xsl:text>\n</xsl:text>" % cat + tail)
        if name == "partial":
            os.unlink(os.path.join(p, "applications", "nxdlformat.xsl"))
    return (os.path.join(cache, "mine"), True) if name != "older" else (bundled, False)


def use(name):
    """the user cache for this (new) process"""
    os.environ["XDG_CONFIG_HOME"] = user_dir(name)
    os.makedirs(user_dir(name), exist_ok=True)


FILES = []


class Installed:
    """every NXDL file of every set, with several default sets"""
    batch = 1
    chunk = 16
    limit = 200

    def execute(self, ch):
        config = ch.choose("user cache", [Cost(0, c) for c in ("none", "older", "newer", "partial")])
        k = ch.choose("files", [Cost(0, i) for i in range((len(FILES) + self.chunk - 1) // self.chunk)])
        part = FILES[k * self.chunk:(k + 1) * self.chunk]
        base, marked = make_config_once(config)

        def job():
            import punx.nxdltree
            use(config)
            out = []
            for f in part:
                try:
                    out.append(punx.nxdltree.NxdlTreeView(f).report())
                except ValueError as exc:
                    out.append(str(exc))
            return out
        res = result(ch, job)
        ch.count = len(part)
        for f, r in zip(part, res or []):
            cat = CATS[ET.parse(f).getroot().get("category")]
            style = os.path.join(base, cat, "nxdlformat.xsl")
            if not os.path.exists(style):
                if not isinstance(r, str) or style not in r:
                    ch.fail("no style sheet", "%s: %r" % (f, r))
            elif isinstance(r, str):
                ch.fail("refused", "%s: %s" % (f, r))
            else:
                judge(ch, f, r, style, "STYLE " + cat if marked else None)
        ch.observe(config, res)


def make_config_once(name):
    return CONFIGS[name]


CONFIGS = {}


class Documents:
    """made-up documents: category, items, nesting"""
    batch = 16
    limit = 60

    def __init__(self, deep=0):
        self.args = [deep]
        self.deep = deep

    def execute(self, ch):
        f, g, a, l = synth.field, synth.group, synth.attr, synth.link
        cat = ch.choose("category", ["base", "application", "contributed", None, "", "Base", "bases", "base_classes", "application ", "definition"])
        dims = "<dimensions rank='2'><dim index='1' value='n'/><dim index='2' value='m'/></dimensions>"
        menu = ["", f("x"), f("x") + f("y", ["a"]), f("x", type="NX_FLOAT", inner=a("u")), f("x", type="NX_INT", inner=dims), g("NXdata"), g("NXdata", "d"), g("NXdata") + g("NXdata"), a("k"), a("k", ["1", "2"]), l("z", "/a/b"),
                "<doc>field name</doc>", "<!-- x -->", "<symbols><symbol name='n'><doc>n</doc></symbol></symbols>", synth.choice("c", g("NXdata"), g("NXlog")), f("x") + g("NXlog", "x"), "<enumeration/>"]

        def items(label, depth):
            a1 = ch.choose(label + " 1", menu + (["sub"] if depth else []))
            if a1 == "sub":
                a1 = g(ch.choose(label + " class", ["NXdata", "NXentry", "NXsubentry"]), ch.choose(label + " name", [None, "nm"]), items(label + "/sub", depth - 1))
            return a1 + ch.choose(label + " 2", menu)
        entry = ch.choose("entry", [None, "NXentry", "NXsubentry", "both", "two"])
        body = items("top", 2)
        if entry in ("NXentry", "NXsubentry"):
            body += g(entry, None, items("entry", 1))
        elif entry == "both":
            body += g("NXentry", "e", f("t")) + g("NXsubentry", None, f("t"))
        elif entry == "two":
            body += g("NXentry", "e1", f("t")) + g("NXentry", "e2", f("t"))
        damage = ch.choose("damage", [None, "cut", "empty", "binary", "other root", "no namespace"])
        text = synth.HEAD % (cat, "NXmine", ' extends="NXobject"') + body + "\n</definition>\n"
        if cat is None:
            text = text.replace(' category="None"', "").replace('  category="None"', "")
        if damage == "cut":
            text = text[:-15]
        elif damage == "empty":
            text = ""
        elif damage == "binary":
            text = "\x00\x01" + text
        elif damage == "other root":
            text = "<other/>"
        elif damage == "no namespace":
            text = '<definition category="base" name="NXmine"/>'
        fn = ch.choose("file name", ["NXmine.nxdl.xml", "other.nxdl.xml", "é ü.nxdl.xml", "NXmine.xml"])
        path = os.path.join(env.workdir(), fn)
        with open(path, "w", encoding="utf8") as fd:
            fd.write(text)
        import punx.nxdltree
        known = damage in (None,) and cat in CATS
        try:
            r = punx.nxdltree.NxdlTreeView(path).report()
        except ValueError as exc:
            if known or (damage == "no namespace"):
                ch.fail("refused", "%s\n%s" % (exc, text))
            elif path not in str(exc):
                ch.fail("message", "the message %r does not name the file" % str(exc))
            ch.observe("refused", cat, damage)
            return
        finally:
            os.unlink(path)
        if damage == "no namespace":
            return       # XML with a category, but no NXDL
        if not known:
            ch.fail("accepted", "category %r, damage %r: %r" % (cat, damage, r))
            return
        with open(path, "w", encoding="utf8") as fd:
            fd.write(text)
        judge(ch, path, r, os.path.join(nxdlref.CACHE, "v2018.5", CATS[cat], "nxdlformat.xsl"))
        os.unlink(path)
        ch.observe(r[2:])


class Histories:
    """views in one process, while definitions sets and documents change"""
    batch = 8
    limit = 100
    OPS = ["view base", "view application", "view contributed", "latest set", "other latest set", "old set", "no set", "change style", "other content", "select other", "validate"]

    def __init__(self, length):
        self.args = [length]
        self.length = length

    def execute(self, ch):
        ops = [ch.choose("op %d" % i, [Cost(0, o) for o in self.OPS]) for i in range(self.length)]
        cfg = os.path.join(env.workdir(), "cfg")
        shutil.rmtree(cfg, ignore_errors=True)
        os.makedirs(os.path.join(cfg, "punx"))
        docs = os.path.join(env.workdir(), "docs")
        os.makedirs(docs, exist_ok=True)
        bodies = [synth.field("x") + synth.group("NXdata", "d", synth.attr("k", ["1"])), synth.group("NXentry", None, synth.link("z", "/a/b") + synth.field("w", ["q"]))]
        path = {c: os.path.join(docs, "NX%s.nxdl.xml" % c) for c in CATS}

        def write(k):
            for c in CATS:
                with open(path[c], "w", encoding="utf8") as fd:
                    fd.write(synth.HEAD % (c, "NX%s%d" % (c, k), ' extends="NXobject"') + bodies[k] + "\n</definition>\n")

        def style(d, cat, text):
            f = os.path.join(d, cat, "nxdlformat.xsl")
            with open(os.path.join(nxdlref.CACHE, "v2018.5", cat, "nxdlformat.xsl"), encoding="utf8") as fd:
                head, sep, tail = fd.read().rpartition('<xsl:template match="nx:definition">')
            with open(f, "w", encoding="utf8") as fd:
                fd.write(head + sep + text + " " + cat + "<xsl:text>\n</xsl:text>" + tail)

        def job():
            os.environ["XDG_CONFIG_HOME"] = cfg
            import punx.nxdltree
            from punx import cache_manager, nxdl_manager
            sets, marks, content, n, out = {}, {}, 0, 0, []
            write(0)
            for o in ops + ["view base", "view application", "view contributed"]:
                if o.startswith("view"):
                    cat = CATS[o[5:]]
                    top = max(sets, key=sets.get) if sets and max(sets.values()) > "2019" else None
                    base = os.path.join(cfg, "punx", top) if top else os.path.join(nxdlref.CACHE, "v2018.5")
                    f = path[o[5:]]
                    shown = os.path.join(docs, "shown-%d.nxdl.xml" % len(out))
                    shutil.copyfile(f, shown)
                    try:
                        r = punx.nxdltree.NxdlTreeView(f).report()
                    except ValueError as exc:
                        r = str(exc)
                    out.append((f, shown, r, os.path.join(base, cat, "nxdlformat.xsl"), "%s %s" % (marks[top], cat) if top else None))
                elif o.endswith(" set") and o != "no set":
                    name = {"latest set": "mine", "other latest set": "more", "old set": "aged"}[o]
                    n += 1
                    sets[name] = {"aged": "2001-01-01 00:00:%02d"}.get(name, "2090-01-01 00:00:%02d") % n
                    d = os.path.join(cfg, "punx", name)
                    shutil.rmtree(d, ignore_errors=True)
                    shutil.copytree(TINY, d)
                    info = os.path.join(d, "__github_info__.json")
                    t = open(info).read().replace('"tiny"', '"%s"' % name).replace("2001-01-01 00:00:00", sets[name])
                    open(info, "w").write(t)
                    marks[name] = "STYLE%d" % n
                    for c in nxdlref.CATEGORIES:
                        style(d, c, marks[name])
                elif o == "no set":
                    for name in sets:
                        shutil.rmtree(os.path.join(cfg, "punx", name))
                    sets.clear()
                elif o == "change style":
                    for name in sets:
                        n += 1
                        marks[name] = "STYLE%d" % n
                        for c in nxdlref.CATEGORIES:
                            style(os.path.join(cfg, "punx", name), c, marks[name])
                elif o == "other content":
                    content = 1 - content
                    write(content)
                elif o == "select other":
                    cache_manager.CacheManager().select_NXDL_file_set("v3.3")
                elif o == "validate":
                    nxdl_manager.NXDL_Manager("aged" if "aged" in sets else "a4fd52d")
            return out
        for f, shown, r, sheet, marker in result(ch, job) or []:
            if isinstance(r, str):
                ch.fail("history:refused", "%s: %s" % (ops, r))
                continue
            if r[0] == "file: " + f:
                r[0] = "file: " + shown
            judge(ch, shown, r, sheet, marker)
        ch.observe(ops)


TINY = None


HARNESSES = dict(Installed=Installed, Documents=Documents, Histories=Histories)


def setup():
    import logging
    import punx.nxdltree, punx.cache_manager  # noqa
    global TINY
    TINY = synth.install("tiny", "2001-01-01 00:00:00", synth.classes("0"), cache=os.path.join(env.SCRATCH, "tiny"))
    logging.disable(logging.CRITICAL)
    for c in ("none", "older", "newer", "partial"):
        CONFIGS[c] = make_config(c)
    for s in nxdlref.BUNDLED:
        for cat in nxdlref.CATEGORIES:
            d = os.path.join(nxdlref.CACHE, s, cat)
            FILES.extend(os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".nxdl.xml"))
    d = os.path.join(user_dir("newer"), "punx", "mine")
    for cat in nxdlref.CATEGORIES:
        FILES.extend(os.path.join(d, cat, f) for f in sorted(os.listdir(os.path.join(d, cat))) if f.endswith(".nxdl.xml"))


def run(ctx):
    setup()
    ctx.explore(Installed(), 0)
    ctx.explore(Histories(3 if ctx.thorough else 2), 0)
    ctx.explore(Documents(), 4 if ctx.thorough else 3)
    ctx.assumptions.append("items below <choice> are not judged (the style sheets of NeXus do not show them)")
