"""V11: data files are only read, bad input is rejected by its own error, files are released."""
import contextlib
import hashlib
import io
import os
import sys

import h5py

from mc import env, h5spec, sut, worlds
from mc.explore import Cost
from mc.h5spec import D, Ext, Files, G, Hard, Soft, T, Val, n, s

NOBODY = 65534
GOOD = ("nx", "links", "old", "empty", "userblock", "odd")
BAD = ("missing", "text", "zero", "cut", "directory", "nofolder", "badlink")


def place():
    return os.path.join(env.SCRATCH, "data")


def path_of(name):
    return os.path.join(place(), {"missing": "missing.h5", "text": "text.h5", "zero": "zero.h5", "cut": "cut.h5", "directory": "dir.h5", "nofolder": "none/x.h5", "badlink": "badlink.h5"}.get(name, name + ".h5"))


def make_files():
    os.makedirs(place())
    nx = G(None, {"default": s("entry")}, entry=G("NXentry", {"default": s("data")}, title=D("x"), data=G("NXdata", {"signal": s("counts"), "axes": s("x")}, counts=D(list(range(20))), x=D())))
    links = G(None, None, entry=G("NXentry", None, data=G("NXdata", {"signal": s("y")}, y=Ext("old.h5", "/data/counts"), z=Soft("/entry/data/y"), lost=Ext("nowhere.h5", "/x"), up=Soft("/entry")), e=Ext("old.h5", "/data"),
              me=Ext("links.h5", "/entry/data")))
    old = G(None, None, data=G("NXdata", None, counts=D(None, {"signal": n(1), "target": s("/data/counts")})), g=G(None, None, x=D("t")))
    h5spec.write(nx, path_of("nx"))
    h5spec.write(links, path_of("links"))
    h5spec.write(old, path_of("old"))
    h5spec.write(G(), path_of("empty"))
    h5spec.write(old, path_of("userblock"), userblock=512)
    h5spec.write(G(None, {"a": Val("raw", b"\xff")}, e=G("NXentry", {"q": Val("time")}, t=T(), v=D(Val("vlen")), r=D(Val("time")))), path_of("odd"))
    raw = open(path_of("nx"), "rb").read()
    for name, content in (("text", b"no HDF5 here\n" * 300), ("zero", b""), ("cut", raw[:len(raw) // 3])):
        with open(path_of(name), "wb") as f:
            f.write(content)
    os.mkdir(path_of("directory"))
    os.symlink("nothing.h5", path_of("badlink"))
    for name in os.listdir(place()):
        p = os.path.join(place(), name)
        if os.path.isfile(p):
            os.utime(p, ns=(10**18 + 123456789, 10**18 + 987654321))
            os.chmod(p, 0o444)
    os.chmod(place(), 0o555)


def state():
    """names, content, size and times of everything in the folder"""
    out = {}
    for name in sorted(os.listdir(place())):
        p = os.path.join(place(), name)
        st = os.lstat(p)
        out[name] = (st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino, hashlib.sha1(open(p, "rb").read()).hexdigest() if os.path.isfile(p) else None)
    return out


def open_files():
    """files of the folder that this process holds open"""
    out = set()
    for fd in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            t = os.readlink("/proc/self/fd/" + fd)
            if t.startswith(place()):
                out.add(os.path.basename(t))
    return out


class Modes:
    """records how files of the folder are opened"""

    def __init__(self):
        self.bad = []

    def __enter__(self):
        self.init = h5py.File.__init__
        modes = self

        def init(self_, name, mode="r", *a, **kw):
            if mode != "r" and isinstance(name, (str, bytes, os.PathLike)) and os.fspath(name if not isinstance(name, bytes) else name.decode()).startswith(place()):
                modes.bad.append((os.path.basename(str(name)), mode))
            return modes.init(self_, name, mode, *a, **kw)
        h5py.File.__init__ = init
        _WATCH.append(self)
        return self

    def __exit__(self, *exc):
        h5py.File.__init__ = self.init
        _WATCH.remove(self)


_WATCH = []


def hook(event, args):
    """Python's own ways to change files"""
    if not _WATCH:
        return
    try:
        if event == "open":
            name, mode, flags = args
            if isinstance(name, (str, bytes)) and os.fsdecode(name).startswith(place()) and flags is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                _WATCH[-1].bad.append((os.path.basename(os.fsdecode(name)), "open(%r, %#x)" % (mode, flags)))
        elif event in ("os.remove", "os.rename", "os.utime", "os.chmod", "os.truncate", "shutil.copyfile", "shutil.move", "os.link", "os.symlink", "os.mkdir", "os.rmdir"):
            if any(isinstance(a, (str, bytes)) and os.fsdecode(a).startswith(place()) for a in args):
                _WATCH[-1].bad.append((event, str(args[:2])))
    except Exception:
        pass


REF = {}


def rows(v):
    return sorted((a or "", t, st, c) for a, t, st, c in sut.rows(v))


class Sequences:
    """every sequence of three operations on one validator and on tree views"""
    batch = 8
    limit = 90
    depth = 4

    def __init__(self, depth=3):
        self.args = [depth]
        self.depth = depth

    def execute(self, ch):
        import punx
        import punx.h5tree
        import punx.main
        import punx.validate
        if os.geteuid() == 0:
            with contextlib.suppress(OSError):
                os.chmod(env.workdir(), 0o755)
                os.seteuid(NOBODY)          # the files are read-only for this user
        v = sut.get_validator("v2018.5")
        v.close()
        current = None
        before = state()
        ops = [("validate", "nx"), ("validate", "links"), ("validate", "old"), ("validate", "text"), ("validate", "missing"), ("close",), ("report",), ("tree", "links"), ("validate", "cut"), ("cli tree", "nx"),
               ("cli validate", "links"), ("tree", "text"), ("tree", "missing"), ("validate", "zero"), ("validate", "directory"), ("validate", "nofolder"), ("validate", "badlink"), ("validate", "empty"), ("validate", "userblock"),
               ("validate", "odd"), ("tree", "odd"), ("tree", "cut"), ("tree", "directory"), ("cli validate", "text"), ("cli tree", "zero"), ("isfile", "nx"), ("isfile", "text"), ("isfile", "zero"), ("isnexus", "links")]
        done = []
        with Modes() as modes:
            for i in range(self.depth):
                op = ch.choose("operation %d" % i, [Cost(0, o) for o in ops] if i < 2 else [Cost(0, o) for o in (ops[:8] if i == 2 and self.depth > 3 else ops[:3])])
                done.append(op)
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    current = self.perform(ch, v, op, current, done)
                held = open_files()
                if not held <= ({current + ".h5"} | ({"old.h5"} if current == "links" else set()) if current else set()):
                    ch.fail("held open", "after %r: open files %r" % (done, sorted(held)))
            v.close()
            if open_files():
                ch.fail("held open after close", "after %r and close: open files %r" % (done, sorted(open_files())))
        if modes.bad:
            ch.fail("opened for writing", "%r: %r" % (done, modes.bad[:4]))
        if state() != before:
            a, b = before, state()
            ch.fail("changed", "%r: %r" % (done, [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]))
        ch.observe(done)

    def perform(self, ch, v, op, current, done):
        import punx
        import punx.h5tree
        import punx.utils
        import punx.validate
        kind = op[0]
        if kind == "validate":
            f = op[1]
            want = None if f in GOOD else punx.FileNotFound if f in ("missing", "nofolder", "badlink") else punx.HDF5_Open_Error
            try:
                v.validate(path_of(f))
            except Exception as exc:
                if want is None or type(exc) is not want:
                    ch.fail("error:%s" % f, "%r: %s: %s" % (done, type(exc).__name__, exc))
                return current if want is punx.FileNotFound else None
            if want is not None:
                ch.fail("no error:%s" % f, "%r: no error" % (done,))
                return None
            got = rows(v)
            if got != REF[f]:
                d = set(got) ^ set(REF[f])
                ch.fail("findings:%s" % f, "%r: findings differ from those of a first validation: %r" % (done, sorted(d)[:4]))
            return f
        if kind == "close":
            v.close()
            v.close()
            return None
        if kind == "report":
            if current is not None:
                v.print_report()
            return current
        if kind == "tree":
            f = op[1]
            try:
                r = punx.h5tree.Hdf5TreeView(path_of(f)).report()
            except Exception as exc:
                if f in GOOD or f == "missing":
                    ch.fail("tree error:%s" % f, "%r: %s: %s" % (done, type(exc).__name__, exc))
                elif not isinstance(exc, (OSError, punx.HDF5_Open_Error)):
                    ch.fail("tree error:%s" % f, "%r: %s: %s" % (done, type(exc).__name__, exc))
                return current
            if (r is None) != (f == "missing") and f in GOOD + ("missing",):
                ch.fail("tree:%s" % f, "%r: report is %r" % (done, r))
            if r is not None and f not in GOOD:
                ch.fail("tree of no HDF5 file:%s" % f, "%r: %r" % (done, r[:3]))
            return current
        if kind in ("isfile", "isnexus"):
            f = op[1]
            if kind == "isfile" and punx.utils.isHdf5File(path_of(f)) != (f in GOOD):
                ch.fail("isHdf5File", "%r" % (done,))
            if kind == "isnexus" and punx.utils.isNeXusFile(path_of(f)) is not True:
                ch.fail("isNeXusFile", "%r" % (done,))
            return current
        if kind.startswith("cli"):
            import punx.main
            f = op[1]
            old = sys.argv
            sys.argv = ["punx", kind.split()[1], path_of(f)] + (["-f", "synth"] if "validate" in kind else [])
            code = 0
            try:
                punx.main.main()
            except SystemExit as exc:
                code = exc.code
            finally:
                sys.argv = old
            if (f in GOOD) != (code in (0, None)):
                ch.fail("cli:%s" % f, "%r: exit status %r" % (done, code))
            # the validator of the command is gone with its process; here it is collected
            import gc
            gc.collect()
            return current
        raise ValueError(op)


HARNESSES = dict(Sequences=Sequences)


def setup():
    import gc
    import logging
    logging.disable(logging.CRITICAL)
    worlds.prepare(("synth", "synth1", "v2018.5"))
    gc.collect()
    make_files()
    os.chmod(env.SCRATCH, 0o755)
    for d, _s, fs in os.walk(os.environ["XDG_CONFIG_HOME"]):
        os.chmod(d, 0o777)
    os.makedirs(os.environ["TMPDIR"], exist_ok=True)
    os.chmod(os.environ["TMPDIR"], 0o777)
    v = sut.get_validator("v2018.5")
    for f in GOOD:
        v.validate(path_of(f))
        REF[f] = rows(v)
        v.close()
    import punx.main, punx.h5tree  # noqa
    sys.addaudithook(hook)


def run(ctx):
    setup()
    ctx.explore(Sequences(4 if ctx.thorough else 3), 0)
    ctx.assumptions += ["the operations run as an unprivileged user in a read-only folder: an attempt of the HDF5 library to open a file for writing fails there",
                        "files are compared by bytes, mode, inode and modification time"]
