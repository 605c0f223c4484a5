"""Process environment of the checks: scratch space, punx imported from /repo, private user cache."""
import atexit, os, shutil, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SCRATCH = None


def setup():
    """make the scratch directory, point the user cache into it, put /repo first on sys.path"""
    global SCRATCH
    if SCRATCH is not None:
        return SCRATCH
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    SCRATCH = tempfile.mkdtemp(prefix="punxmc-", dir=base)
    owner = os.getpid()

    def clean(path=SCRATCH):
        if os.getpid() == owner:
            shutil.rmtree(path, ignore_errors=True)

    atexit.register(clean)
    os.environ["XDG_CONFIG_HOME"] = os.path.join(SCRATCH, "xdg")
    os.makedirs(os.environ["XDG_CONFIG_HOME"])
    os.environ["TMPDIR"] = os.path.join(SCRATCH, "tmp")
    os.makedirs(os.environ["TMPDIR"])
    tempfile.tempdir = None
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    return SCRATCH


def user_cache():
    return os.path.join(os.environ["XDG_CONFIG_HOME"], "punx")


def workdir():
    """a private scratch directory of this process"""
    d = os.path.join(SCRATCH, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d
