"""M01: subcommands may be abbreviated to unique prefixes of two or more letters, and to nothing else."""
import os
import re
import shutil
import string

from mc import cache, cli, env
from mc.explore import Cost
from checks import C02

NAMES = ["configuration", "demonstrate", "install", "tree", "validate"]
ARGS = {}
FULL = {}
CONFIG = None
CWD = None


def setup():
    global CONFIG, CWD
    C02.setup()
    CONFIG = os.path.join(env.SCRATCH, "config")
    CWD = os.path.join(env.SCRATCH, "files")
    os.makedirs(CWD)
    cache.put_set(CONFIG, "main", C02.CONTENT["one"])
    for name in ("data.h5", "tr", "validate", "tree", "-a", "in", "TR", "tree.nxdl.xml"):
        shutil.copy(C02.DATA, os.path.join(CWD, name))
    doc = os.path.join(C02.cache.nxdlref.CACHE, "v2018.5", "base_classes", "NXcite.nxdl.xml")
    shutil.copy(doc, os.path.join(CWD, "tree.nxdl.xml"))
    ARGS.update({
        "configuration": [[], ["data.h5"], ["configuration"], ["-x"]],
        "demonstrate": [[], ["tr"], ["--report", "OK"]],
        "install": [["main"], ["v9"], [], ["tree", "install", "-u"], ["in"], ["--upd", "tr"]],
        "tree": [["data.h5"], ["tr"], ["tree"], ["validate"], ["-a", "data.h5"], ["data.h5", "-a"], ["-m", "2", "in"], ["--", "-a"], ["tree.nxdl.xml"], ["TR"], [], ["data.h5", "tr"], ["none"], ["--max", "1", "tr"]],
        "validate": [["data.h5"], ["tree", "--report", "ok"], ["--report=error,note", "validate"], ["-f", "main", "tr"], ["tr", "-f", "v3.3"], ["-f", "va", "tr"], ["tree.nxdl.xml"], [], ["data.h5", "va"], ["in", "--rep", "WARN"]],
    })


def command(words):
    config = cache.new_config()
    shutil.rmtree(config)
    shutil.copytree(CONFIG, config, symlinks=True)
    asked = []

    def before():
        def answer(url):
            os.write(2, ("asked for %s\n" % url).encode())
            return 200, cache.archive(C02.CONTENT["two"])
        cache.transport(answer)
    start = cache.snapshot(config)
    out = cli.run(words, xdg=config, cwd=CWD, before=before)
    now = cache.snapshot(config)
    shutil.rmtree(config)
    asked = re.findall("asked for (.*)", out.err)
    mask = lambda t: re.sub(r"\d\d\d\d-\d\d-\d\d \d\d:\d\d:\d\d\.\d+", "<now>", t.replace(config, "<config>"))  # noqa
    out.out, out.err = re.sub(r"\.install-\w+", "<work>", re.sub(r"(?m)^(=+ ?)+$|  +", "", mask(out.out))), re.sub(r"0x[0-9a-f]+", "0x", mask(out.err))
    return out, cache.digest(now), now == start, asked


def full(name, args):
    key = (name, tuple(args))
    if key not in FULL:
        FULL[key] = command([name] + args)
    return FULL[key]


def meant(word):
    hits = [n for n in NAMES if n.startswith(word)]
    return hits[0] if word in NAMES else (hits[0] if len(word) >= 2 and len(hits) == 1 else None)


def words(kind):
    if kind == "short":
        return [""] + list(string.ascii_letters + string.digits + "._/@ ") + [a + b for a in string.ascii_lowercase for b in string.ascii_lowercase]
    out = []
    for n in NAMES:
        prefixes = [n[:k] for k in range(2, len(n) + 1)]
        if kind == "prefixes":
            out += prefixes
        elif kind == "longer":
            out += [p + c for p in prefixes for c in string.ascii_lowercase + "-_ ./=*0A"]
        elif kind == "changed":
            for p in prefixes:
                for i in range(len(p)):
                    out += [p[:i] + c + p[i + 1:] for c in {"e", "n", "x", p[i].upper(), chr((ord(p[i]) - 96) % 26 + 97), "."}]
                    out += [p[:i] + p[i + 1:], p[:i] + p[i] + p[i:]] + ([p[:i - 1] + p[i] + p[i - 1] + p[i + 1:]] if i else [])
        elif kind == "parts":
            out += [n[i:j] for i in range(len(n)) for j in range(i + 1, len(n) + 1)] + [p.upper() for p in prefixes] + [p.capitalize() for p in prefixes] + [p[::-1] for p in prefixes]
            out += [p + m for p in prefixes for m in NAMES] + [" " + p for p in prefixes] + ["%s|%s" % (n, m) for m in NAMES]
    return sorted(set(w for w in out if not w.startswith("-")))


class Word:
    """one word as subcommand, with every list of arguments"""
    batch = 8
    limit = 300

    def __init__(self, kind):
        self.args = [kind]
        self.kind = kind
        self.words = words(kind)

    def execute(self, ch):
        word = ch.choose("word", [Cost(0, w) for w in self.words])
        name = meant(word)
        if name is None:
            args = ch.choose("arguments", [Cost(0, a) for a in (["data.h5"], [])])
            out, _d, same, asked = command([word] + args)
            if out.status == 0 or out.status is None:
                ch.fail("accepted", "%r %s: %r" % (word, args, out))
            if asked or not same:
                ch.fail("run", "%r %s: asked for %s, cache changed: %s" % (word, args, asked, not same))
            for sign in ("entry:NXentry", "summary statistics", "NeXus definitions", "console>", "Downloading", "NXDL file set"):
                if sign in out.out:
                    ch.fail("run", "%r %s: printed %s" % (word, args, out.out[-500:]))
            if not out.err.strip():
                ch.fail("silent", "%r %s: no message" % (word, args))
            ch.observe("refused", out.status)
            return
        args = ch.choose("arguments", [Cost(0, a) for a in ARGS[name]])
        want, wd, _same, wasked = full(name, args)
        out, d, _same, asked = command([word] + args)
        if (out.status, out.out, out.err) != (want.status, want.out, want.err):
            ch.fail("differs", "%s %s: %r\n%s %s: %r" % (word, args, out, name, args, want))
        if d != wd or asked != wasked:
            ch.fail("effect", "%s %s and %s differ in the cache or what was asked for: %s %s" % (word, args, name, asked, wasked))
        ok = {"configuration": "Locally-available", "demonstrate": "console>", "install": "NXDL file set", "tree": "data.h5", "validate": "findings"}[name]
        if args == ARGS[name][0] and (name != "demonstrate" and want.status != 0 or ok not in want.out):
            ch.fail("not run", "%s %s: %r" % (name, args, want))
        ch.observe(name, args, want.status)


HARNESSES = dict(Word=Word)


def run(ctx):
    setup()
    for kind in ("prefixes", "short", "longer", "parts", "changed"):
        ctx.explore(Word(kind), 0)
