"""M02: tree and validate end with status 0 and a report, or with a message and another status."""
import os
import re
import shutil

import numpy

from mc import cache, cli, env, h5spec, nxdldocs, nxdlref, report, synth
from mc.explore import Cost
from mc.h5spec import D, Ext, Files, G, Hard, Soft, T, Val, n, s
from mc.proc import forked
from checks import C02

CONFIG = None
SETS = ["v2018.5", "v3.3", "a4fd52d", "mine"]
KINDS = {}          # name of the kind: ("hdf5" | "nxdl" | "bad" | "missing", maker(path), suffix)
DIR = None


def full_file():
    data = G("NXdata", {"signal": s("counts"), "axes": Val("S", ["x"])}, counts=D(n(numpy.arange(6).reshape(2, 3)), {"units": s("counts"), "target": s("/entry/data/counts")}), x=D(n([1.5, 2.5])))
    return G(None, {"default": s("entry"), "file_name": s("x"), "NX_class": s("NXroot")}, entry=G("NXentry", {"default": s("data")}, data=data, title=D("a title"), bad_name=D(1, {"a b": s("1")}),
             link=Soft("/entry/data/counts"), gone=Soft("/nowhere"), ext=Ext("none.h5", "/a"), same=Hard("/entry/data/counts"), loop=Soft("/entry"), **{"1 x": D("q"), "definition": D("NXsas")}), plain=G(None, None, sub=G("NXlog")))


def values():
    """files with one value of each kind"""
    out = {}
    for kind, v in dict(s="text", s0="", s2="l1\nl2\ttab\x1b", su="\u00e4\u65e5", sa="a", b="x", bu="\u00fc", S=["a", "b"], S0=["a"], B=["a", "bc"], SU=["\u00e4"], S2=[["a", "b"], ["c", "d"]], B2=[["a", "b"]], empty=None, emptys=None,
                        zs=None, zb=None, zi=None, raw=b"\xff\xfe", rawv=b"\xe4", rawu=b"\xe4", rawa=[b"\xe4", b"b"], cpd=None, cpda=None, enum=None, vlen=None, opaque=None, time=None).items():
        out[kind] = Val(re.sub("[0-2u]$", "", kind) if kind not in ("S2", "B2", "bu", "rawu") else kind, v)
    for name, x in dict(i=1, f=1.5, nan=numpy.nan, inf=-numpy.inf, u8=numpy.uint64(2 ** 64 - 1), bool=True, c=1 + 2j, f2=numpy.float16(0.1), a=[1, 2, 3], a2=numpy.zeros((3, 3)), a3=numpy.zeros((2, 2, 2)), a4=numpy.zeros((1, 2, 1, 2)), one=[7], z=numpy.zeros((0, 2))).items():
        out["n" + name] = Val("np", x)
    return out


def hdf5(root, **opts):
    return lambda path: h5spec.write(root, path, **opts)


def raw(content):
    def make(path):
        with open(path, "wb") as f:
            f.write(content)
    return make


def nxdl(category="base", name="NXdoc", inner="<field name='x'/>"):
    return (synth.HEAD % (category, name, ' extends="NXobject"') + inner + "\n</definition>\n").encode()


def setup():
    global CONFIG, DIR
    C02.setup()
    CONFIG = os.path.join(env.SCRATCH, "config")
    DIR = os.path.join(env.SCRATCH, "files")
    os.makedirs(os.path.join(DIR, "sub"))
    cache.put_set(CONFIG, "mine", C02.CONTENT["one"], date="2099-01-01 00:00:00")
    k = KINDS
    for name, root, opts in (("full", full_file(), {}), ("full, latest format", full_file(), dict(libver="latest")), ("full, user block", full_file(), dict(userblock=512)), ("nothing in it", G(), {}), ("one group", G(None, None, a=G()), {}),
                             ("attributes", G(None, {"default": s("no"), "x": n(1)}, entry=G("NXentry", {"default": Val("S", ["a", "b"])})), {}),
                             ("classes", G(None, None, a=G("NXnone"), b=G(Val("S", ["NXdata", "x"])), c=G(n(1)), d=G(Val("empty")), e=G("NXdata"), f=G("")), {}),
                             ("old style", G(None, None, entry=G("NXentry", None, data=G("NXdata", None, y=D(None, {"signal": n(1), "axes": s("x")}), x=D()))), {}),
                             ("loops", G(None, None, a=G("NXentry", None, up=Hard("/"), me=Soft("/a"), again=Soft("again"))), {}),
                             ("other file", G(None, None, a=Ext("full.h5", "/entry"), b=Ext("full.h5", "/none"), c=Ext("full.h5", "/")), {}),
                             ("named type", G(None, None, t=T({"k": s("v")})), {}), ("compressed", G(None, None, d=D(n(numpy.arange(100)), None, chunks=(10,), compression="gzip")), {})):
        k[name] = ("hdf5", hdf5(root, **opts), ".h5")
    for kind, v in values().items():
        k["value " + kind] = ("hdf5", hdf5(G(None, {"a": v}, entry=G("NXentry", {"default": v}, d=D(v, {"units": v}), data=G("NXdata", {"signal": v}, x=D(v)))) if kind != "time" else G(None, {"a": v}, d=D(v))), ".h5")
    for i, name in enumerate(["x", "a b", "\u00e4", "\udce4", "a\nb", "a\tb", "=", "a@b", "@a", "a=b", ":", "\x01", "\u2028", "a" * 300, "..", "(x)", "[1]", "-->", "NXdata", "'", '"', "\\", "%s", "{0}", "===", "--"]):
        k["name %d" % i] = ("hdf5", hdf5(G(None, {name: s("v")}, entry=G("NXentry", None, **{name: D(1, {name: s("v")})}), **{name + "g": G("NXdata")})), ".h5")
    for suffix in (".nxs", ".hdf5", ".xml", ".h5.nxdl.xml.h5", "", ".NXDL.xml", ".nxdl.XML", ".nxdl", ".nxdl.xml~", ".nxdl.xml.nxs", "_nxdl.xml", ".nxdl_xml", ".xsd", ".nxdl.xmls"):
        k["full as *" + suffix] = ("hdf5", hdf5(full_file()), suffix)
    tmp = os.path.join(env.SCRATCH, "whole.h5")
    h5spec.write(full_file(), tmp)
    whole = open(tmp, "rb").read()
    for name, content in dict({"empty": b"", "text": b"hello\n", "start only": whole[:8], "PDF": b"%PDF-1.4\n%\xff", "zeros": bytes(4096), "signature moved": b"x" + whole, "HDF4": b"\x0e\x03\x13\x01" + bytes(100), "NXDL without its suffix": nxdl()},
                              **{"first %d bytes" % m: whole[:m] for m in list(range(0, 200, 8)) + list(range(200, len(whole), max(1, (len(whole) - 200) // 30))) + [len(whole) - 1]}).items():
        k[name] = ("bad", raw(content), ".h5")
    k["directory"] = ("bad", os.mkdir, ".h5")
    k["missing"] = ("missing", lambda path: None, ".h5")
    k["missing, directory too"] = ("missing", lambda path: None, "/x.h5")
    k["dangling"] = ("missing", lambda path: os.symlink("nowhere", path), ".h5")
    k["link"] = ("hdf5", lambda path: os.symlink(tmp, path), ".h5")
    for cat in ("base", "application", "contributed"):
        k["nxdl " + cat] = ("nxdl", raw(nxdl(cat)), ".nxdl.xml")
    for name, content in {
            "nxdl of v2018.5": open(os.path.join(nxdlref.CACHE, "v2018.5", "applications", "NXsas.nxdl.xml"), "rb").read(),
            "nxdl with rich content": nxdl("base", "NXdoc", "<group type='NXdata' name='g'><field name='y'><attribute name='k'/></field></group><attribute name='q'/><link name='l' target='/a/b'/><choice name='c'><group type='NXlog'/></choice>"),
            "nxdl not valid": nxdl(inner="<nonsense/>"), "nxdl bad name": nxdl(inner="<field/>"), "nxdl no category": nxdl().replace(b'category="base"', b""), "nxdl other category": nxdl("other"),
            "nxdl other namespace": nxdl().replace(b"nxdl/3.1", b"nxdl/9.9"), "nxdl other root": nxdl().replace(b"<definition", b"<definitio").replace(b"</definition", b"</definitio"),
            "nxdl with unicode": nxdl(inner="<doc>\u00e4\u65e5</doc><field name='x'><doc>\u00e4</doc></field>".encode().decode("latin-1")).decode().encode("latin-1") if False else nxdl(inner="<doc>\u00e4\u65e5</doc>"),
            "nxdl twice": nxdl() + nxdl(), "nxdl comment first": b"<!-- x -->" + nxdl().split(b"?>", 1)[1], "nxdl ill-formed": nxdl().replace(b"</definition>", b"</definitio>"), "nxdl cut": nxdl()[:-20],
            "nxdl encoding": b'<?xml version="1.0" encoding="none"?>' + nxdl().split(b"?>", 1)[1], "nxdl bytes": nxdl(inner="<doc>@</doc>").replace(b"@", b"\xff"), "nxdl empty": b"", "nxdl text": b"hello", "nxdl blank": b" \n", "nxdl HDF5": whole, "nxdl zeros": bytes(64),
            "nxdl undefined entity": nxdl(inner="<doc>&none;</doc>"), "nxdl entity": nxdl(inner="<doc>&e;</doc>").replace(b"<definition", b"<!DOCTYPE definition [<!ENTITY e 'v'>]><definition", 1), "nxdl missing entity file": nxdl(inner="<doc>&e;</doc>").replace(b"<definition", b"<!DOCTYPE definition [<!ENTITY e SYSTEM 'none.txt'>]><definition", 1)}.items():
        k[name] = ("nxdl", raw(content), ".nxdl.xml")
    k["nxdl directory"] = ("nxdl", os.mkdir, ".nxdl.xml")
    k["nxdl missing"] = ("missing", lambda path: None, ".nxdl.xml")
    k["nxdl dangling"] = ("missing", lambda path: os.symlink("nowhere", path), ".nxdl.xml")
    other = os.path.join(env.SCRATCH, "x.nxdl.xml")
    raw(nxdl())(other)
    k["nxdl link"] = ("nxdl", lambda path: os.symlink(other, path), ".nxdl.xml")


def category(text):
    import lxml.etree
    try:
        root = lxml.etree.fromstring(text)
    except (lxml.etree.XMLSyntaxError, ValueError):
        return None
    return root.get("category") if root.tag.endswith("}definition") else None


def library(path, argv):
    """what the library reports about an HDF5 file"""
    def job():
        os.environ["XDG_CONFIG_HOME"] = CONFIG
        import contextlib
        import io
        import logging
        logging.disable(logging.CRITICAL)
        if argv[0] == "tree":
            from punx import h5tree
            t = h5tree.Hdf5TreeView(os.path.abspath(path))
            t.array_items_shown = int(argv[argv.index("-m") + 1]) if "-m" in argv else 5
            return "\n".join(t.report("-a" not in argv))
        from punx import cache_manager, validate
        name = argv[argv.index("-f") + 1] if "-f" in argv else cache_manager.CacheManager().select_NXDL_file_set().ref
        v = validate.Data_File_Validator(name)
        v.validate(path)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            v.print_report()
        v.close()
        return buf.getvalue()
    kind, res = forked(job, 100)
    return res if kind == "ok" else None


FIRST = ["full", "nothing in it", "first 8 bytes", "missing", "directory", "nxdl base", "nxdl application", "nxdl not valid", "nxdl ill-formed", "nxdl missing", "nxdl of v2018.5"]
COMMANDS = [["tree"], ["validate"]]
OPTIONS = dict(tree=[[], ["-a"], ["-m", "0"], ["-m", "1"], ["-m", "100"], ["-m", "-1"], ["-a", "-m", "2"], ["--max_array_items", "3"]],
               validate=[[], ["-f", "v3.3"], ["-f", "a4fd52d"], ["-f", "mine"], ["-f", "none"], ["-f", "v2018.5"], ["-f", ""], ["--file_set_name", "V3.3"], ["--file_set_name=v2018.5"], ["-f", "v3"]])
PLACES = ["relative", "absolute", "./", "sub/..", "blank", "unicode", "quotes", "dash"]


class Run:
    """one command on one file"""
    batch = 6
    limit = 300

    def __init__(self, which="first", deep=0):
        self.args = [which, deep]
        self.which, self.deep = which, deep

    def execute(self, ch):
        cmd = ch.choose("command", [Cost(0, c) for c in COMMANDS])[0]
        name = ch.choose("file", [Cost(0 if self.which == "all" or x in FIRST else 1, x) for x in sorted(KINDS, key=lambda x: x not in FIRST)])
        opts = ch.choose("options", OPTIONS[cmd])
        place = ch.choose("place", PLACES)
        kind, make, suffix = KINDS[name]
        base = os.path.join(env.workdir(), "m%d" % Run.n)
        Run.n += 1
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(os.path.join(base, "sub"))
        if "other file" in name:
            h5spec.write(full_file(), os.path.join(base, "full.h5"))
        stem = {"blank": "a file", "unicode": "\u00e4\u65e5", "quotes": "a'b\"c", "dash": "-x"}.get(place, "NXdoc")
        path = os.path.join(base, stem + suffix)
        make(path)
        given = {"absolute": path, "./": "./" + stem + suffix, "sub/..": "sub/../" + stem + suffix}.get(place, stem + suffix)
        argv = [cmd] + opts + (["--"] if place == "dash" else []) + [given]
        environ = ch.choose("environment", cli.ENVIRONS)
        out = cli.run(argv, xdg=CONFIG, cwd=base, environ=environ)
        label = "%s (%s) %s" % (" ".join(argv), name, environ or "")
        wrong_set = [o for o in (opts[1:2] if opts[:1] in (["-f"], ["--file_set_name"]) else []) if o not in SETS]
        status, says = 0, None
        if kind in ("bad", "missing"):
            status, says = 1, [given]
        elif kind == "nxdl":
            text = open(path, "rb").read() if os.path.isfile(path) else b""
            if cmd == "tree":
                ok = category(text) in ("base", "application", "contributed")
                if not ok and text and b"nxdl" in text and name in ("nxdl other root", "nxdl other namespace"):
                    shutil.rmtree(base)
                    return        # a document that is no definition but says it were
            else:
                used = os.path.join(nxdlref.CACHE, next((o for o in [o.split("=")[-1] for o in opts] if o in SETS and o != "mine"), "../../mine"))
                if "mine" in used:
                    used = os.path.join(CONFIG, "punx", "mine")
                ok = nxdldocs.valid(text, used)
            if not ok:
                status, says = 1, [given]
        if wrong_set:
            status, says = 1, (says or []) + wrong_set
        if out.killed is not None:
            ch.fail("killed", "%s: %r" % (label, out))
        elif out.traceback:
            ch.fail("traceback", "%s: %r" % (label, out))
        elif (out.status != 0) != (status != 0):
            ch.fail("status", "%s: expected status %s: %r" % (label, "0" if status == 0 else "not 0", out))
        elif status:
            said = out.said.replace("\\\\", "\\")
            if not any(x in said or os.path.join(base, x) in said or os.path.normpath(os.path.join(base, x)) in said for x in says):
                ch.fail("message", "%s: message names none of %s: %r" % (label, says, out))
            if report.findings(out.out) is not None or ":NXentry" in out.out:
                ch.fail("report", "%s: a report in spite of the error: %r" % (label, out))
        elif kind == "hdf5":
            here = os.getcwd()
            os.chdir(base)
            want = library(given, [cmd] + [x for o in opts for x in o.replace("--max_array_items", "-m").replace("--file_set_name=", "-f\n").split("\n")])
            os.chdir(here)
            if want is None or cmd == "tree" and not out.out.endswith(want + "\n") or cmd == "validate" and want not in out.out:
                ch.fail("not the report", "%s: printed %s\nthe library reports %s" % (label, out.out, want))
        elif cmd == "tree":
            if "file: " not in out.out or stem + suffix not in out.out or len(out.out.splitlines()) < 5:
                ch.fail("no report", "%s: %r" % (label, out))
        elif "validates" not in out.out or given not in out.out:
            ch.fail("no report", "%s: %r" % (label, out))
        ch.observe(cmd, name, opts, out.status)
        shutil.rmtree(base)


Run.n = 0


class Arguments:
    """command lines that are not understood"""
    batch = 4

    def __init__(self):
        self.args = []

    def execute(self, ch):
        words = ch.choose("words", [Cost(0, w) for w in ([], ["tree"], ["validate"], ["tree", "-m", "x", "d.h5"], ["tree", "--none", "d.h5"], ["validate", "d.h5", "d.h5"], ["tree", "d.h5", "-m"], ["validate", "d.h5", "-f"], ["validate", "-f"], ["--none"], ["tree", "-m", "1.5", "d.h5"],
                                                        ["validate", "d.h5", "--report"], ["tree", ""], ["validate", ""], ["tree", "d.h5", "-f", "v3.3"], ["validate", "-a", "d.h5"], ["-x", "tree", "d.h5"], ["configuration", "x"])])
        base = env.workdir()
        h5spec.write(full_file(), os.path.join(base, "d.h5"))
        out = cli.run(words, xdg=CONFIG, cwd=base)
        if out.status in (0, None) or out.traceback or not out.said.replace("!!! WARNING: this program is not ready for distribution.", "").strip() or ":NXentry" in out.out or report.findings(out.out) is not None:
            ch.fail("arguments", "%s: %r" % (words, out))
        ch.observe(words, out.status)


class Information:
    """asking for help and the version"""
    batch = 4

    def __init__(self):
        self.args = []

    def execute(self, ch):
        words = ch.choose("words", [Cost(0, w) for w in (["-h"], ["--help"], ["-v"], ["--version"], ["tree", "-h"], ["validate", "--help"], ["install", "-h"], ["configuration", "-h"], ["demonstrate", "-h"], ["configuration"])])
        out = cli.run(words, xdg=CONFIG, cwd=env.workdir())
        import punx
        if out.status != 0 or out.traceback or (punx.__version__ if words[0] in ("-v", "--version") else "main" if words == ["configuration"] and False else "") not in out.out or len(out.out.strip()) < 60:
            ch.fail("information", "%s: %r" % (words, out))
        ch.observe(words, out.status)


HARNESSES = dict(Run=Run, Arguments=Arguments, Information=Information)


def run(ctx):
    setup()
    ctx.explore(Run("all" if ctx.thorough else "first"), 1)
    ctx.explore(Arguments(), 0)
    ctx.explore(Information(), 0)
    if ctx.thorough:
        ctx.explore(Run(), 2)
