"""V12: the findings do not depend on how HDF5 stores the content, nor on the locale."""
import itertools
import json
import os
import subprocess
import sys

import h5py
import numpy

from mc import env, explore, h5spec, sut, worlds
from mc.explore import Cost
from mc.h5spec import D, Ext, Files, G, Hard, Soft, T, Val, n, s

PADS = dict(null=h5py.h5t.STR_NULLPAD, term=h5py.h5t.STR_NULLTERM, space=h5py.h5t.STR_SPACEPAD)


class Fixed(Val):
    """fixed-length string of another length, padding and character set"""

    def __init__(self, text, pad, utf8, more=0):
        Val.__init__(self, "fixed-" + pad + ("-utf8" if utf8 else "") + "+%d" % more, text)
        self.pad, self.utf8, self.more = pad, utf8, more

    @property
    def text(self):
        return self.value

    def create(self, make):
        many = isinstance(self.value, list)
        raw = [t.encode("utf8") for t in (self.value if many else [self.value])]
        size = max(len(r) for r in raw) + self.more + (self.pad == "term")
        tid = h5py.h5t.C_S1.copy()
        tid.set_size(max(1, size))
        tid.set_strpad(PADS[self.pad])
        tid.set_cset(h5py.h5t.CSET_UTF8 if self.utf8 else h5py.h5t.CSET_ASCII)
        a = numpy.array(raw if many else raw[0], dtype=h5py.string_dtype("utf-8" if self.utf8 else "ascii", max(1, size)))
        return make(a, h5py.Datatype(tid), a.shape)


def forms(val):
    """other ways to store the same value"""
    k, v = val.kind, val.value
    if k == "s" and v:
        out = [Val("bu", v), Val("b", v)]
        if v.isascii():
            out.append(Val("sa", v))
        out += [Fixed(v, "space", False), Fixed(v, "term", True, 3), Fixed(v, "null", False, 5), Fixed(v, "space", True, 2)]
        return out
    if k == "S":
        return [Val("SU", v), Val("B", v), Fixed(list(v), "space", False, 1), Fixed(list(v), "term", False), Fixed(list(v), "null", True, 4)]
    if k == "np":
        a = numpy.asarray(v)
        if a.dtype.kind == "i":
            return [n(a.astype(t)) for t in (">i4", "i1", "u8", ">u2")]
        if a.dtype.kind == "f":
            return [n(a.astype(t)) for t in (">f8", "f4")]
    return []


def base_nexus():
    x = D([0.0, 1.0, 2.0], {"units": s("mm"), "axis": n(1), "primary": n(1)})
    counts = D([4, 5, 6], {"units": s("counts"), "target": s("/entry/data/counts"), "long_name": s("é ü")})
    data = G("NXdata", {"signal": s("counts"), "axes": Val("S", ["x", "."]), "x_indices": n(0), "target": s("/entry/data")}, counts=counts, x=x, lnk=Soft("/entry/data/x"))
    inst = G("NXinstrument", {"default": s("det")}, name=D(s("ünit")), det=G("NXdetector", None, data=Hard("/entry/data/counts"), tr=G("NXtransformations", {"x": n(1)}, a=D(1.5, {"transformation_type": s("rotation"), "vector": n([0, 0, 1])}))))
    entry = G("NXentry", {"default": s("data")}, title=D(s("täst")), start_time=D(s("2020-01-01")), data=data, instrument=inst, definition=D(s("NXarpes")), Odd=D(1), zzz=G("NXnone", {"k": s("v")}),
              plain=G(None, {"k": s("v")}, f=D(1)), coll=G("NXcollection", None, anything=D(s("a"))), first=Ext("o.h5", "/q"))
    return G(None, {"default": s("entry"), "NeXus_version": s("4"), "file_name": s("f")}, entry=entry), ("v2018.5", "a4fd52d")


def base_old():
    d1 = G("NXdata", None, y=D([1, 2], {"signal": n(1), "axes": s("x:z")}), x=D([1.0, 2.0], {"axis": n(1)}), bad=D([1], {"signal": s("1")}))
    d2 = G("NXdata", {"signal": s("nothing"), "axes": Val("S", ["b", "c"])}, b=D([1], {"signal": n(2)}))
    e1 = G("NXentry", {"default": s("nowhere")}, d1=d1, d2=d2, sub=G("NXsubentry", {"default": s("d")}, definition=D(Val("S", ["NXsas", "other"])), d=G("NXdata"), title=D(s("t"))))
    return G(None, {"default": s("e2"), "Strange Attr": n(3)}, e1=e1, e2=G("NXentry", None, definition=D(s("NXunknown")), d=G("NXdata", {"signal": s("y")}, y=D([1, 2]), z=Soft("/none")))), ("v3.3", "v2018.5")


def base_synth():
    foo = G("NXfoo", {"units": s("mm"), "one": s("a"), "signal": s("a")}, a=D(1), a_b=D(2), bar=G("NXbar"))
    app = G("NXentry", {"kind": s("raw")}, definition=D(s("NXapp")), title=D(s("x")), mode=D(s("one")), mod=D(s("one")), foo=foo)
    return G(None, {"mode": s("r"), "default": s("entry")}, entry=app, two=G("NXentry", {"kind": s("other")}, definition=D(s("NXcon")), foo=G("NXfoo", {"units": s("zz")}))), ("synth", "synth1")


BASES = dict(nexus=base_nexus, old=base_old, synth=base_synth)
OTHER = G(None, None, q=G("NXdata", {"signal": s("w")}, w=D([1.0])))


def slots(node, path=""):
    """(node, attribute name or None, value) wherever a value is stored"""
    for a, v in node.attrs.items():
        yield path + "@" + a, node, a, v
    if isinstance(node, D):
        yield path, node, None, node.val
    for k, kid in getattr(node, "kids", {}).items():
        if isinstance(kid, (G, D)):
            yield from slots(kid, path + "/" + k)


REF = {}


def findings(root, definitions, **options):
    with sut.written(Files(root, {"o.h5": OTHER}), "main.h5", **options) as path:
        return sorted(sut.validate(path, definitions).findings, key=repr)


class Storage:
    """each value and the file as a whole stored in other ways"""
    batch = 24
    limit = 60

    def __init__(self, deep=0):
        self.args = [deep]
        self.deep = deep

    def execute(self, ch):
        base = ch.choose("file", [Cost(0, b) for b in BASES])
        root, sets = BASES[base]()
        definitions = ch.choose("set", [Cost(0, x) for x in sets])
        group_opts = ch.choose("order", [None, "creation order tracked", "created in reverse", "reverse, tracked"])
        options = ch.choose("file format", [{}, dict(libver="latest"), dict(libver=("v108", "v108")), dict(userblock=512), dict(libver=("earliest", "v110"))])
        every = ch.choose("all values", [None] + [Cost(1, k) for k in range(7)])
        for where, node, attr, val in list(slots(root)):
            alt = forms(val)
            if not alt:
                continue
            if every is not None:
                v = alt[every % len(alt)]
            else:
                # two values at a time only for the first form (thorough: two forms)
                v = ch.choose(where, [val] + [Cost(1 if i < 1 + self.deep else 2, a) for i, a in enumerate(alt)])
            if attr is None:
                node.val = v
            else:
                node.attrs[attr] = v
        layout = ch.choose("dataset storage", [None, dict(chunks=True), dict(chunks=True, compression="gzip", shuffle=True), dict(fletcher32=True), dict(maxshape=(None,))])
        if layout:
            for _w, node, attr, val in slots(root):
                if attr is None and val.kind in ("np", "B", "SU") and numpy.ndim(val.value) == 1:
                    node.create.update(layout)
        opts = dict(options)
        if group_opts:
            opts["track_order"] = True if "tracked" in group_opts else None
            if "reverse" in group_opts:
                opts["shuffle"] = lambda kids: kids[::-1]
                for _w, node, _a, _v in slots(root):
                    node.attrs = dict(sorted(node.attrs.items(), reverse=True))
        got = findings(root, definitions, **opts)
        want = REF[base, definitions]
        if got != want:
            new = [f for f in got if f not in want]
            lost = [f for f in want if f not in got]
            ch.fail("storage:%s" % (new + lost + [("", "multiplicity")])[0][1], "%s: %r: findings only in this storage: %r; only in the plain one: %r" % (base, ch.trace, new[:4], lost[:4]))
        ch.observe(base, definitions, ch.trace)


CHANGES = {
    "blank after": lambda x: x + " ", "blank before": lambda x: " " + x, "blanks around": lambda x: "  " + x + "  ", "line end": lambda x: x + "\n", "tab": lambda x: x + "\t", "upper": lambda x: x.upper(),
    "not ASCII": lambda x: x + "\u00e9", "long": lambda x: x + "x" * 300, "quoted": lambda x: "b'%s'" % x, "slash": lambda x: x + "/", "blank": lambda x: " ", "backslash": lambda x: x + "\\x20",
}


class Texts:
    """a text of the file is another one, plain and in each form of storage"""
    batch = 2
    limit = 200

    def __init__(self, deep=0):
        self.args = [deep]

    def execute(self, ch):
        base = ch.choose("file", [Cost(0, b) for b in BASES])
        sets = BASES[base]()[1]
        definitions = sets[0] if self.args[0] == 0 else ch.choose("set", [Cost(0, x) for x in sets])
        places = [w for w, _n, _a, v in slots(BASES[base]()[0]) if v.kind in ("s", "S")]
        where = ch.choose("text", [Cost(0, p) for p in places])
        change = ch.choose("is", [Cost(0, c) for c in CHANGES])

        def made(i):
            root = BASES[base]()[0]
            for w, node, attr, v in slots(root):
                if w == where:
                    f = CHANGES[change]
                    v = s(f(v.value)) if v.kind == "s" else Val("S", [f(x) for x in v.value])
                    alt = [a for a in forms(v) if not (isinstance(a, Fixed) and a.pad == "space" and any(x.endswith(" ") for x in ([a.value] if isinstance(a.value, str) else a.value)))]
                    if i is not None and i >= len(alt):
                        return None
                    v = v if i is None else alt[i]
                    if attr is None:
                        node.val = v
                    else:
                        node.attrs[attr] = v
                    break
            return root, v
        want = findings(made(None)[0], definitions)
        i = 0
        while made(i):
            root, v = made(i)
            got = findings(root, definitions)
            if got != want:
                new = [f for f in got if f not in want]
                lost = [f for f in want if f not in got]
                ch.fail("text:%s" % (new + lost + [("", "multiplicity")])[0][1], "%s: %s, %s, as %s: findings only in this storage: %r; only in the plain one: %r" % (base, where, change, v.kind, new[:4], lost[:4]))
            i += 1
        ch.count = i + 1
        ch.observe(base, definitions, where, change)


HARNESSES = dict(Storage=Storage, Texts=Texts)

SCRIPT = r"""
import json, sys
import punx.validate
out = {}
for path in sys.argv[3:]:
    v = punx.validate.Data_File_Validator(sys.argv[2])
    v.validate(path)
    out[path] = sorted([f.h5_address or "", f.test_name, str(f.status), f.comment] for f in v.validations)
    v.close()
with open(sys.argv[1], "w", encoding="ascii") as f:
    json.dump(out, f)
"""

LOCALES = [dict(LC_ALL="C.UTF-8"), dict(LC_ALL="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0"), dict(LC_ALL="POSIX", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0", LANG="POSIX"), dict(LC_ALL="C"),
           dict(LC_ALL="xx_YY.nothing", PYTHONUTF8="0"), dict(PYTHONUTF8="1", LC_ALL="C")]
STREAMS = [None, "ascii", "latin-1:strict", "utf-8", "cp437:replace"]


def locale_run(job):
    i, loc, stream, cwd, definitions, paths = job
    e = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHONUTF8", "PYTHONIOENC", "PYTHONCOERCE"))}
    e.update(loc, PYTHONPATH=env.REPO)
    if stream:
        e["PYTHONIOENCODING"] = stream
    out = os.path.join(env.SCRATCH, "locale%d.json" % i)
    p = subprocess.run([sys.executable, "-c", SCRIPT, out, definitions] + paths, env=e, cwd=cwd, capture_output=True, timeout=240)
    if p.returncode:
        return job[:4], None, p.stderr.decode("utf8", "replace")[-1500:]
    return job[:4], json.load(open(out)), ""


def locales(ctx):
    folder = os.path.join(env.SCRATCH, "loc")
    os.makedirs(os.path.join(folder, "elsewhere"), exist_ok=True)
    paths = []
    for b, make in BASES.items():
        if b != "synth":
            p = os.path.join(folder, b + ".h5")
            h5spec.write(make()[0], p)
            paths.append(p)
    h5spec.write(OTHER, os.path.join(folder, "o.h5"))
    h5spec.write(G(None, {"ä": s("ö")}, entry=G("NXentry", None, raw=D(Val("raw", b"\xff\xe9")), **{"naïve": D(s("日本"), {"é": Val("b", "é")}), "\udcff": D(1)})), os.path.join(folder, "bytes.h5"))
    paths.append(os.path.join(folder, "bytes.h5"))
    jobs = []
    for loc, stream in itertools.product(LOCALES, STREAMS if ctx.thorough else STREAMS[:3]):
        for cwd in ([folder, os.path.join(folder, "elsewhere"), "/"] if ctx.thorough else [folder]):
            jobs.append((len(jobs), loc, stream, cwd, "v2018.5", paths))
    results = explore.pmap(locale_run, jobs, ctx.seed)
    want = None
    for (i, loc, stream, cwd), got, err in results:
        want = want or got
        case = dict(locale=loc, stream=stream, cwd=cwd)
        if got is None:
            ctx.fail("locale", "%r: %s" % (case, err), case)
        elif got != want:
            diff = [f for p in want for f in got.get(p, []) if f not in want[p]]
            ctx.fail("locale", "%r: findings differ from those of %r: %r" % (case, LOCALES[0], diff[:4]), case)
    ctx.add("locales", len(jobs), len(jobs), [json.dumps([j[1], j[2], j[3]]) for j in jobs], [dict(jobs[1][1], stream=jobs[1][2])], note="each in a new process")


def setup():
    worlds.prepare()
    for b in BASES:
        for d in BASES[b]()[1]:
            REF[b, d] = findings(BASES[b]()[0], d)


def run(ctx):
    setup()
    ctx.explore(Storage(1 if ctx.thorough else 0), 2)
    ctx.explore(Texts(1 if ctx.thorough else 0), 0)
    locales(ctx)
    ctx.assumptions.append("equal content is what the writer of this check stores in two ways; the plain form (variable-length UTF-8, native numbers) is the reference")
