"""C06: commands that run at the same time do not damage the cache or each other."""
import json
import os
import shutil

from mc import cache, cli, env, sched
from mc.explore import Cost
from checks import C02

TINY = {}
SHARED = ("open-w", "write", "truncate", "mkdir", "rmdir", "unlink", "rename", "kill", "symlink", "link")


def setup():
    cli.preload()
    C02.setup()
    for v in ("one", "two", "three"):
        TINY[v] = cache.tiny_content(v)


def private(op, path):
    """operations deep in a work directory, where no other process looks, and on the set that nobody changes"""
    if op == "rename":
        return all(deep(p) for p in path.split(" -> "))
    return deep(path)


def deep(path):
    parts = path.strip("/").split("/")
    return len(parts) > 3 and parts[1].startswith(".") or parts[1:2] == ["keep"]


class Case:
    def __init__(self, name, commands, before=True, bundled=False, kill=None):
        self.name, self.commands, self.before, self.kill = name, commands, before, kill


CASES = [
    Case("install and install", [(["install", "main"], "one"), (["install", "main"], "two")], False),
    Case("update and update", [(["install", "-u", "main"], "one"), (["install", "-u", "main"], "two")]),
    Case("install and update", [(["install", "main"], "one"), (["install", "-u", "main"], "two")], False),
    Case("update of nothing, twice", [(["install", "-u", "main"], "one"), (["install", "-u", "main"], "two")], False),
    Case("two sets", [(["install", "main"], "one"), (["install", "-u", "other"], "two")]),
    Case("update and configuration", [(["install", "-u", "main"], "one"), (["configuration"], None)]),
    Case("install and configuration", [(["install", "main"], "one"), (["configuration"], None)], False),
    Case("update and validate", [(["install", "-u", "main"], "one"), (["validate", "DATA", "-f", "keep"], None)]),
    Case("update and tree", [(["install", "-u", "main"], "one"), (["tree", "NXDL"], None)]),
    Case("update and refused install", [(["install", "-u", "main"], "one"), (["install", "main"], "two")]),
    Case("update killed, update", [(["install", "-u", "main"], "one"), (["install", "-u", "main"], "two")], kill=[0]),
    Case("update killed, configuration", [(["install", "-u", "main"], "one"), (["configuration"], None)], kill=[0]),
    Case("install killed, install", [(["install", "main"], "one"), (["install", "main"], "two")], False, kill=[0]),
]
THREE = [
    Case("two updates and configuration", [(["install", "-u", "main"], "one"), (["install", "-u", "main"], "two"), (["configuration"], None)]),
    Case("three updates", [(["install", "-u", "main"], "one"), (["install", "-u", "main"], "two"), (["install", "-u", "main"], "one")]),
    Case("two installs and update", [(["install", "main"], "one"), (["install", "main"], "two"), (["install", "-u", "main"], "two")], False),
]


class Together:
    batch = 4
    limit = 120

    def __init__(self, three=0, kills=0, reader=None):
        self.args = [three, kills, reader]
        self.cases = THREE[:three] if three else [c for c in CASES if bool(c.kill) == bool(kills) and (
            reader is None or reader == any(a[0] != "install" for a, _v in c.commands))]

    def execute(self, ch):
        case = ch.choose("case", [Cost(0, c) for c in self.cases])
        first = ch.choose("first", [Cost(0, i) for i in range(len(case.commands))])
        config = cache.new_config()
        cache.put_set(config, "keep", C02.CONTENT["three"], date="2099-01-01 00:00:00")
        old = None
        if case.before:
            cache.put_set(config, "main", TINY["three"], date="2001-02-03 04:05:06", sha="3" * 40)
            old = cache.files_of(os.path.join(config, "punx", "main"))
        keep = cache.files_of(os.path.join(config, "punx", "keep"))
        order = list(range(len(case.commands)))
        order = order[first:] + order[:first]
        processes = []
        for i in order:
            argv, version = case.commands[i]
            argv = [C02.DATA if a == "DATA" else os.path.join(config, "punx", "keep", "base_classes", "NXdata.nxdl.xml") if a == "NXDL" else a for a in argv]

            def before(version=version):
                body = cache.archive(TINY[version], top="d-" + version, sha=version * 5) if version else None
                cache.transport(cache.by_name({"main": (200, body), "other": (200, body)} if body else {}))
            p = sched.Process(argv, config, before=before, private=private, xdg=config)
            p.version = version
            p.looks = argv[0] != "install"
            p.target = ("other" if "other" in argv else "main") if argv[0] == "install" else None
            processes.append(p)
        label = "%s, %s first" % (case.name, " ".join(processes[0].argv))
        bad, last = [], {"main": "old" if case.before else "absent", "other": "absent"}

        def state(name):
            path = os.path.join(config, "punx", name)
            if not os.path.isdir(path):
                return "absent"
            files = cache.files_of(path)
            if name == "main" and files == old:
                return "old"
            info = files.pop(cache.INFO, None)
            if info is None:
                return "not a set"
            try:
                sha = json.loads(info)["sha"]
            except (ValueError, KeyError):
                return "damaged description"
            for v in ("one", "two"):
                if files == TINY[v] and sha == v * 5:
                    return v
            return "partial: %s of %s" % (sorted(files), sha)

        def watch(p, op):
            if op[0] in SHARED:
                for name in ("main", "other"):
                    s = state(name)
                    if s not in ("absent", "old", "one", "two"):
                        bad.append((op, name, s))
                    if s != last[name] != "absent" and "-u" not in p.argv:
                        ch.fail("replaced", "%s: %s without -u makes set %s of %s %s (%s)" % (label, p.argv, name, last[name], s, op))
                    last[name] = s
        trace = sched.run(ch, processes, watch, [i for i, o in enumerate(order) if o in (case.kill or [])])
        killed = [p for p in processes if p.outcome.killed is not None]
        label += "; schedule: " + " ".join("%d:%s" % (t[0], t[1]) for t in trace)
        if bad:
            ch.fail("partial", "%s: after %s set %s is %s" % ((label,) + bad[0]))
        good = [p for p in processes if p.outcome.status == 0 and p not in killed]
        for p in processes:
            if p.target is None and p not in good:
                ch.fail("reader", "%s: %s: %r" % (label, p.argv, p.outcome))
            if p.target is not None and p in good and "-u" in p.argv and not killed and len(processes) == 2 and processes[1 - processes.index(p)].target != p.target and state(p.target) != p.version:
                ch.fail("lost", "%s: %s reports success, the set is %s" % (label, p.argv, state(p.target)))
            if p.target is None and p in good and p.argv[0] == "configuration":
                if p.outcome.out.count("\nkeep ") != 1 or "default NXDL file set:  keep" not in p.outcome.out:
                    ch.fail("configuration", "%s: %s" % (label, p.outcome.out))
        for name in ("main", "other"):
            mine = [p for p in processes if p.target == name]
            s = state(name)
            installed = {p.version for p in mine if p in good} | ({p.version for p in killed})
            allowed = set(installed)
            if name == "main" and case.before and (not any(p in good and "-u" in p.argv for p in mine)):
                allowed |= {"old"}
            if not (name == "main" and case.before) and not any(p in good for p in mine):
                allowed |= {"absent"}
            if killed:
                allowed |= {"absent", "old"} - ({"absent"} if any(p in good for p in mine) and not any("-u" in p.argv for p in killed) else set())
            if s not in allowed:
                ch.fail("result", "%s: statuses %s, set %s is %s, expected one of %s\n%s" % (label, [p.outcome.status for p in processes], name, s, sorted(allowed), "\n".join(repr(p.outcome) for p in processes)))
            if mine and not killed and not any(p in good for p in mine):
                ch.fail("all failed", "%s: no install of %s succeeds:\n%s" % (label, name, "\n".join(repr(p.outcome) for p in processes)))
        if cache.files_of(os.path.join(config, "punx", "keep")) != keep:
            ch.fail("other set", "%s: set keep has changed" % label)
        left = [x for x in os.listdir(os.path.join(config, "punx")) if x.startswith(".")]
        if left and not killed:
            ch.fail("left", "%s: left behind: %s" % (label, left))
        key = cache.digest(cache.snapshot(config))
        if key not in Together.SEEN:
            kind, res = cache.listing(config)
            want = {n: d["path"] for n, d in cache.bundled().items()}
            want.update({n: os.path.join(config, "punx", n) for n in ("keep", "main", "other") if os.path.isdir(os.path.join(config, "punx", n))})
            if kind != "ok" or {n: d["path"] for n, d in res[0].items()} != want:
                ch.fail("listing", "%s: afterwards listed %s %s, expected %s" % (label, kind, res, want))
            else:
                Together.SEEN.add(key)
        ch.count = 1
        ch.observe(case.name, [p.outcome.status for p in processes], state("main"), state("other"), key)
        shutil.rmtree(config)


Together.SEEN = set()
HARNESSES = dict(Together=Together)


def run(ctx):
    setup()
    ctx.explore(Together(0, 0, True), 2 if not ctx.thorough else 3)
    ctx.explore(Together(0, 0, False), 1 if not ctx.thorough else 2)
    ctx.explore(Together(0, 1), 1 if not ctx.thorough else 2)
    ctx.explore(Together(len(THREE) if ctx.thorough else 1), 1)
    ctx.assumptions.append("operations inside a process's own work directory and on a set that no process changes do not interact and are not interleaved")
