"""M04: demonstrate shows validation and tree view of the example file, whatever is installed."""
import os
import shutil

from mc import cache, cli, env, h5spec, report
from mc.explore import Cost
from mc.h5spec import D, G
from checks import C05

EXAMPLE = None
CONTENT = {}
BANNER = "\n!!! WARNING: this program is not ready for distribution.\n\n"
WORDS = ["demonstrate", "demo", "de", "dem", "demonstrat"]
PLACES = ["scratch", "/", "files of the same name", "not there any more"]
# set in the user cache: name, date
SETS = [("main", "2000-01-01 00:00:00"), ("main", "2030-01-01 00:00:00"), ("mine", "2099-01-01 00:00:00"), ("older", "1999-01-01 00:00:00"), ("v2018.5", "2001-01-01 00:00:00"), ("v3.3", "2055-01-01 00:00:00")]
STEPS = ["configuration", "validate", "tree", "install main", "install -u main", "install mine", "install -u mine", "failing install", "remove main", "remove mine", "clear"]


def setup():
    global EXAMPLE
    C05.setup()
    import punx
    EXAMPLE = os.path.join(os.path.dirname(os.path.abspath(punx.__file__)), "data", "writer_1_3.hdf5")
    for v in ("one", "two"):
        CONTENT[v] = cache.real_content(v)


def body(out):
    """what a command prints after the banner"""
    return out.out.split(BANNER, 1)[-1] if BANNER in out.out else out.out


def place(kind):
    d = os.path.join(env.workdir(), "place")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if kind == "/":
        return "/"
    if kind == "files of the same name":
        for p in ("writer_1_3.hdf5", "data/writer_1_3.hdf5", "punx/data/writer_1_3.hdf5"):
            os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
            h5spec.write(G(None, None, other=G("NXentry", None, d=D(1))), os.path.join(d, p))
    return d


def demonstrate(ch, config, word, where, label, environ=None):
    cwd = place(where)
    kw = dict(xdg=config, cwd=cwd, environ=environ)
    if where == "not there any more":
        kw = dict(xdg=config, environ=environ, before=lambda: (os.chdir(cwd), os.rmdir(cwd)))
    before = cache.digest(cache.snapshot(config)), cache.digest(cache.snapshot(cwd)) if cwd != "/" else None
    out = cli.run([word], **kw)
    if where != "not there any more" and (cache.digest(cache.snapshot(config)), cache.digest(cache.snapshot(cwd)) if cwd != "/" else None) != before:
        ch.fail("files", "%s: files were changed" % label)
    validated = cli.run(["validate", EXAMPLE], xdg=config)
    tree = cli.run(["tree", EXAMPLE], xdg=config)
    if validated.status != 0 or tree.status != 0 or not report.findings(validated.out) or not body(tree).strip():
        ch.fail("example", "%s: the commands do not accept the example: %r %r" % (label, validated, tree))
        return
    if out.status != 0 or out.traceback:
        ch.fail("status", "%s: %r" % (label, out))
        return
    text = body(out)
    for what, part in (("validate", body(validated)), ("tree", body(tree))):
        i = text.find(part.strip("\n"))
        if i < 0:
            ch.fail(what, "%s: the output has not what punx %s %s prints: %s" % (label, what, EXAMPLE, text))
            return
        head = text[:i]
        if "punx %s %s" % (what, EXAMPLE) not in head:
            ch.fail("announced", "%s: punx %s %s is not announced: %s" % (label, what, EXAMPLE, head))
        text = text[i + len(part.strip("\n")):]
    if text.strip():
        ch.fail("more", "%s: printed after that: %s" % (label, text))
    return report.findings(out.out)


class Installed:
    """sets that are in the user cache, other things that are there, working directory and word"""
    batch = 4
    limit = 100

    def __init__(self, deep=0):
        self.args = [deep]
        self.deep = deep

    def execute(self, ch):
        config = cache.new_config()
        names, have = [], set()
        for i in range(3):
            s = ch.choose("set %d" % i, [None] + [Cost(0, x) if i == 0 else x for x in SETS if x[0] not in have])
            if s is None:
                break
            have.add(s[0])
            names.append(s)
            cache.put_set(config, s[0], CONTENT["one" if i % 2 == 0 else "two"], date=s[1])
        kind = ch.choose("also there", [None] + C05.ODD)
        if kind:
            C05.odd(config, kind)
        word = ch.choose("word", WORDS)
        where = ch.choose("directory", PLACES)
        environ = ch.choose("environment", cli.ENVIRONS)
        label = "punx %s in %s, sets %s, %s, %s" % (word, where, names, kind, environ)
        demonstrate(ch, config, word, where, label, environ)
        ch.observe(names, kind, word, where)


class History:
    """other commands before, the demonstration after each"""
    batch = 2
    limit = 200

    def __init__(self, depth):
        self.args = [depth]
        self.depth = depth

    def execute(self, ch):
        config = cache.new_config()
        done = []
        for i in range(self.depth):
            step = ch.choose("step %d" % i, [Cost(0, x) for x in STEPS])
            done.append(step)
            label = "after " + ", ".join(done)
            if step.startswith(("remove", "clear")):
                for n in os.listdir(os.path.join(config, "punx")):
                    if step == "clear" or n == step.split()[1]:
                        shutil.rmtree(os.path.join(config, "punx", n))
            elif "install" in step:
                version, year = ("two", 2071) if "-u" in step else ("one", 1999)
                good = cache.archive(CONTENT[version], sha="%040d" % i, dates={p: (year, 1, 2, 3, 4, 6 + 2 * i) for p in CONTENT[version]})
                argv = step.split()[1:]
                answers = cache.by_name({"main": (200, good), "mine": (200, good)})
                if step == "failing install":
                    argv, answers = ["-u", "main"], lambda url: (503, b"no")
                cache.install(argv, answers, config)
            else:
                cli.run([step] + ([EXAMPLE] if step != "configuration" else []), xdg=config)
            demonstrate(ch, config, "demo", "scratch", label)
        ch.observe(done, sorted(os.listdir(os.path.join(config, "punx"))))


class Same:
    """demonstrations at the same time, and again"""
    batch = 1
    limit = 200

    def __init__(self):
        self.args = []

    def execute(self, ch):
        config = cache.new_config()
        n = ch.choose("number", [2, 3])
        first = ch.choose("sets", [None, "main"])
        if first:
            cache.put_set(config, "main", CONTENT["one"], date="2088-01-01 00:00:00")
        outs = [f() for f in [cli.start(["demo"], xdg=config) for _i in range(n)]]
        for out in outs:
            if (out.status, out.out) != (0, outs[0].out):
                ch.fail("same", "%d at the same time: %r %r" % (n, outs[0], out))
        ch.observe(n, first)


HARNESSES = dict(Installed=Installed, History=History, Same=Same)


def run(ctx):
    setup()
    ctx.explore(Installed(1 if ctx.thorough else 0), 1 if not ctx.thorough else 2)
    ctx.explore(History(3 if ctx.thorough else 2), 0)
    if ctx.thorough:
        ctx.explore(Same(), 2)
