"""The punx command in a process of its own."""
import os
import sys
import traceback

from . import env
from .proc import Child


class Outcome:
    def __init__(self, status, out, err, killed=None):
        self.status, self.out, self.err, self.killed = status, out, err, killed
        self.traceback = "Traceback (most recent call last)" in err
        self.said = out + err

    def __repr__(self):
        return "status %r\nstdout: %s\nstderr: %s" % (self.status, self.out[-1500:], self.err[-1500:])


def preload():
    """import what the commands use, in the parent; nothing is created yet"""
    import punx.main, punx.h5tree, punx.nxdltree, punx.validate, punx.schema_manager, punx.nxdl_manager  # noqa
    import punx.validations.application_definition, punx.validations.default_plot  # noqa


# variables that change nothing in a report
ENVIRONS = [{}, {"COLUMNS": "40"}, {"COLUMNS": "wide", "LINES": "5"}, {"LC_ALL": "C", "LANG": "C"}, {"TZ": "Asia/Tokyo"}, {"NO_COLOR": "1", "TERM": "dumb", "CI": "1"}, {"HOME": "/nonexistent/home", "USER": "nobody"},
            {"DEBUG": "1", "PYTHONVERBOSE": "1", "PUNX_DEBUG": "1"}, {"PAGER": "less", "EDITOR": "vi", "PYTHONWARNINGS": "error"}]
_N = 0


def run(argv, **kw):
    """``punx argv`` as the console script runs it"""
    return start(argv, **kw)()


def start(argv, xdg=None, cwd=None, environ=None, before=None, timeout=100, main=None):
    """the same, not waiting for its end: a function that waits and returns the Outcome"""
    global _N
    _N += 1
    base = os.path.join(env.workdir(), "cli%d" % _N)
    out, err = base + ".out", base + ".err"

    def job():
        fo = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        fe = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(fo, 1)
        os.dup2(fe, 2)
        if xdg:
            os.environ["XDG_CONFIG_HOME"] = xdg
        os.environ.update(environ or {})
        if cwd:
            os.chdir(cwd)
        import io
        import logging
        logging.disable(logging.NOTSET)
        sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", closefd=False), encoding="utf-8", errors="strict", write_through=True)
        sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", closefd=False), encoding="utf-8", errors="backslashreplace", write_through=True)
        for h in logging.getLogger().handlers:
            if isinstance(h, logging.StreamHandler) and not isinstance(h, logging.FileHandler):
                h.setStream(sys.stderr)
        sys.argv = ["punx"] + list(argv)
        if before:
            before()
        import punx.main
        status = 0
        try:
            status = (main or punx.main.main)()
        except SystemExit as exc:
            status = exc.code
        except BaseException:
            traceback.print_exc()
            status = 1
        if status is None:
            status = 0
        elif not isinstance(status, int):
            print(status, file=sys.stderr)
            status = 1
        for f in (sys.stdout, sys.stderr):
            f.flush()
        return status & 255
    child = Child(job, timeout)

    def ended():
        kind, res = child.result()
        texts = []
        for p in (out, err):
            try:
                with open(p, "rb") as f:
                    texts.append(f.read().decode("utf8", "backslashreplace"))
                os.unlink(p)
            except OSError:
                texts.append("")
        if kind == "ok":
            return Outcome(res, *texts)
        if kind == "killed":
            return Outcome(None, *texts, killed=res)
        raise RuntimeError("%s: %s" % (kind, res))
    ended.pid = child.pid
    return ended
