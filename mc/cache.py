"""Caches of definitions sets, archives to be installed, and what a process finds in a cache."""
import hashlib
import io
import json
import os
import shutil
import zipfile

from . import cli, env, nxdlref, synth
from .proc import forked

INFO = "__github_info__.json"
CATEGORIES = nxdlref.CATEGORIES


# ------------------------------------------------------------------ contents

def real_content(version, extra=()):
    """{path: bytes} of a small definitions set that is complete"""
    src = os.path.join(nxdlref.CACHE, "v2018.5")
    out = {f: open(os.path.join(src, f), "rb").read() for f in ("nxdl.xsd", "nxdlTypes.xsd")}
    out["nxdlTypes.xsd"] += b"<!-- %s -->\n" % version.encode()
    for cat in CATEGORIES:
        out[cat + "/nxdlformat.xsl"] = open(os.path.join(src, cat, "nxdlformat.xsl"), "rb").read()
    classes = {("base_classes", c): "<doc>%s</doc>" % version + "".join(g) for c, g in dict(
        NXobject=[], NXroot=[synth.group("NXentry")], NXentry=[synth.group("NXdata"), synth.field("title")], NXdata=[synth.field("x")]).items()}
    classes["base_classes", "NX" + version] = "<doc/>"
    classes["applications", "NXapp"] = synth.group("NXentry", "entry", synth.field("definition", ["NXapp"]))
    classes["contributed_definitions", "NXcon"] = "<doc>%s</doc>" % version
    for (cat, c), inner in classes.items():
        out["%s/%s.nxdl.xml" % (cat, c)] = (synth.HEAD % (synth.CATEGORY[cat], c, "" if c == "NXobject" else ' extends="NXobject"') + inner + "\n</definition>\n").encode()
    out.update(extra)
    return out


def tiny_content(version):
    """the files of a set, with next to no content"""
    v = version.encode()
    return {"nxdl.xsd": b"<a>" + v + b"</a>", "nxdlTypes.xsd": b"<b>" + v + b"</b>", "base_classes/NXa.nxdl.xml": b"<c>" + v * 20 + b"</c>",
            "applications/NXb.nxdl.xml": b"<d/>", "contributed_definitions/NXc.nxdl.xml": b"<e/>", "base_classes/nxdlformat.xsl": b"<f>" + v + b"</f>"}


NOISE = {"README.md": b"# read me\n", "Makefile": b"all:\n", "manual/source/index.rst": b"=\n", "utils/nxdl.py": b"pass\n", "manual/nxdlformat.xml": b"<no/>",
         "base_classes/Makefile": b"no\n", "applications/README.txt": b"no\n", "base_classes/old/NXold.nxdl.xml": b"<old/>", "xslt/a.xsl": b"<no/>"}


def wanted(path, top="."):
    """is the file of an archive part of a definitions set?"""
    parent, _s, name = path.rpartition("/")
    return os.path.splitext(name)[1] in (".xsd", ".xml", ".xsl") and (parent == "" or parent.rpartition("/")[2] in CATEGORIES)


def archive(content, top="definitions-main", sha="f" * 40, dates=None, directories=True, reverse=False, compress=True):
    """a ZIP file as GitHub makes them"""
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED if compress else zipfile.ZIP_STORED) as z:
        names = sorted(content)
        if directories:
            dirs = {""}
            for n in names:
                parts = n.split("/")[:-1]
                for i in range(len(parts)):
                    dirs.add("/".join(parts[:i + 1]) + "/")
            names += dirs
        names = sorted(names)
        if reverse:
            names.reverse()
            if directories:
                names.remove("")
                names.insert(0, "")
        for n in names:
            info = zipfile.ZipInfo("%s/%s" % (top, n), (dates or {}).get(n, (2020, 1, 2, 3, 4, 6)))
            info.compress_type = z.compression
            if n == "" or n.endswith("/"):
                info.external_attr = 0o40755 << 16 | 0x10
                z.writestr(info, b"")
            else:
                info.external_attr = 0o100644 << 16
                z.writestr(info, content[n])
        z.comment = sha.encode()
    return buf.getvalue()


# ------------------------------------------------------------------ transport

class Drop(Exception):
    """the connection breaks while the body is read"""


def transport(answer):
    """let requests get answer(url) -> (status, body) or an exception class of requests (by name) or ("drop", body, n)"""
    import requests
    import requests.adapters
    import urllib3

    def send(self, request, **kw):
        a = answer(request.url)
        if isinstance(a, str):
            raise getattr(requests.exceptions, a)("simulated: " + a)
        if isinstance(a, BaseException):
            raise a
        status, body = a[:2]
        headers = {"Content-Type": "application/zip", "Content-Length": str(len(body))}
        if len(a) > 2:
            body = body[:a[2]]

        class Fp(io.BytesIO):
            def read(self, *args):
                out = io.BytesIO.read(self, *args)
                if len(a) > 2 and not out:
                    raise urllib3.exceptions.ProtocolError("Connection broken: IncompleteRead")
                return out
        raw = urllib3.HTTPResponse(body=Fp(body), headers=headers, status=status, preload_content=False)
        return self.build_response(request, raw)
    requests.adapters.HTTPAdapter.send = send


def by_name(archives):
    """answers by the name of the set in the URL; others do not exist"""
    def answer(url):
        name = url.rpartition("/")[2]
        for ext in (".zip", ".tar.gz"):
            if name.endswith(ext):
                name = name[:-len(ext)]
        return archives.get(name, (404, b"Not Found"))
    return answer


def install(argv, answer, config, **kw):
    return cli.run(["install"] + list(argv), xdg=config, before=lambda: transport(answer), **kw)


# ------------------------------------------------------------------ caches

def put_set(config, name, content, date="2001-01-01 00:00:00", sha="0123456789abcdef0123456789abcdef01234567", ref=None, info=None):
    """a set in the user cache"""
    path = os.path.join(config, "punx", name)
    files = dict(content)
    files[INFO] = info if info is not None else json.dumps(dict(ref=ref or name, sha=sha, zip_url="http://none/%s.zip" % name, last_modified=date)).encode()
    put_files(path, files)
    return path


def put_files(path, files):
    os.makedirs(path, exist_ok=True)
    for f, b in files.items():
        p = os.path.join(path, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fd:
            fd.write(b)


def snapshot(path):
    """{relative path: bytes, or "dir", or ("link", target)}"""
    out = {}
    for base, dirs, files in os.walk(path):
        for d in list(dirs):
            p = os.path.join(base, d)
            out[os.path.relpath(p, path)] = ("link", os.readlink(p)) if os.path.islink(p) else "dir"
        for f in files:
            p = os.path.join(base, f)
            out[os.path.relpath(p, path)] = ("link", os.readlink(p)) if os.path.islink(p) else open(p, "rb").read()
    return out


def digest(snap, masked=True):
    """identity of a snapshot; names of work directories and times of writing do not count"""
    h = hashlib.sha1()
    seen = {}
    for p in sorted(snap):
        v = snap[p]
        q = p.split("/")
        if q[0] == "punx" and len(q) > 1 and q[1].startswith("."):
            q[1] = "." + str(seen.setdefault(q[1], len(seen)))
        if isinstance(v, bytes) and p.endswith(INFO):
            v = v.split(b"# written")[0]
        h.update(repr(("/".join(q), v if not isinstance(v, bytes) or len(v) < 64 else hashlib.sha1(v).digest())).encode())
    return h.hexdigest()[:16]


def files_of(path):
    """the files below a directory, {relative path: bytes}"""
    return {k: v for k, v in snapshot(path).items() if v != "dir"}


def listing(config):
    """what a new process finds: {name: dict}, the default"""
    def job():
        os.environ["XDG_CONFIG_HOME"] = config
        from punx import cache_manager
        cm = cache_manager.CacheManager()
        out = {k: dict(ref=v.ref, cache=v.cache, sha=v.sha, date=v.last_modified, path=v.path) for k, v in cm.all_file_sets.items()}
        d = cm.select_NXDL_file_set()
        return out, dict(ref=d.ref, path=d.path)
    return forked(job, 60)


def new_config(tag="c"):
    d = os.path.join(env.workdir(), "%s%d" % (tag, new_config.n))
    new_config.n += 1
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "punx"))
    return d


new_config.n = 0


def bundled():
    """the bundled sets: {name: (date, sha, path)}"""
    out = {}
    for n in os.listdir(nxdlref.CACHE):
        p = os.path.join(nxdlref.CACHE, n, INFO)
        if os.path.exists(p):
            d = json.load(open(p))
            out[n] = dict(ref=d["ref"], date=d["last_modified"], sha=d["sha"], path=os.path.join(nxdlref.CACHE, n))
    return out
