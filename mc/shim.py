"""Access to mc/shim.c, which is preloaded into the processes of some checks."""
import ctypes
import errno
import os
import subprocess
import sys

from . import env

LIB = os.path.join(env.VERIF, "build", "shim.so")
SRC = os.path.join(env.VERIF, "mc", "shim.c")
LOG, KILL, FAIL, SCHED = 0, 1, 2, 4
MUTATE, READ = 1, 2


def ensure():
    """this process runs with the library: build it and start anew if necessary"""
    if LIB in os.environ.get("LD_PRELOAD", ""):
        return
    if not os.path.exists(LIB) or os.path.getmtime(LIB) < os.path.getmtime(SRC):
        os.makedirs(os.path.dirname(LIB), exist_ok=True)
        tmp = "%s.%d" % (LIB, os.getpid())
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, SRC, "-ldl"], check=True)
        os.rename(tmp, LIB)
    os.environ["LD_PRELOAD"] = LIB
    os.execv(sys.executable, [sys.executable, "-m", "mc.main"] + sys.argv[1:])


def arm(prefix, mode, at=-1, err=errno.EIO, torn=0, sticky=0, classes=MUTATE, log=-1, ask=-1, grant=-1):
    f = ctypes.CDLL(None).shim_arm
    f.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long] + [ctypes.c_int] * 7
    f.restype = None
    f(os.fsencode(prefix), mode, at, err, torn, sticky, classes, log, ask, grant)


def disarm():
    f = ctypes.CDLL(None).shim_disarm
    f.restype = ctypes.c_long
    return f()


def events(path):
    """the operations logged to a file: [(operation, size, path)]"""
    out = []
    for line in open(path, encoding="utf8", errors="backslashreplace"):
        op, size, p = line.rstrip("\n").split(" ", 2)
        out.append((op, int(size), p))
    return out
