"""Executions in a process of their own."""
import os
import pickle
import signal
import traceback

from . import explore


def forked(func, timeout=0):
    """func() in a child process: ("ok", result), ("exc", (type, place in punx, traceback)), ("exit", status) or ("killed", signal)"""
    return Child(func, timeout).result()


class Child:
    """a child process that does func()"""

    def __init__(self, func, timeout=0):
        self.pid, self.r = start(func, timeout)

    def result(self):
        return finish(self.pid, self.r)


def start(func, timeout):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            if timeout:
                signal.alarm(timeout)
            try:
                out = ("ok", func())
            except SystemExit as exc:
                out = ("exit", exc.code)
            except Exception as exc:
                out = ("exc", (type(exc).__name__, explore.punx_frame(exc.__traceback__), traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def finish(pid, r):
    with os.fdopen(r, "rb") as f:
        raw = f.read()
    _p, status = os.waitpid(pid, 0)
    if not raw:
        if os.WIFSIGNALED(status):
            return ("killed", os.WTERMSIG(status))
        raise RuntimeError("a child process ended without an answer")
    return pickle.loads(raw)


def result(ch, func, timeout=120):
    """func() in a child; exceptions of punx become failures of the execution (then None is returned)"""
    kind, res = forked(func, timeout)
    if kind == "ok":
        return res
    if kind == "killed":
        ch.fail("killed", "the process ended by signal %d (14: no end within %d s)" % (res, timeout))
        return None
    if kind == "exit":
        ch.fail("exit", "the process ended by exit(%r)" % (res,))
        return None
    if res[1] is None:
        raise RuntimeError(res[2])
    ch.fail("exception:%s:%s" % (res[0], res[1]), res[2])
    return None
