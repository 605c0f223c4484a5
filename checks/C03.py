"""C03: a crash during install never leaves a partial definitions set in use."""
import ast
import os
import shutil

from mc import cache, cli, env, shim
from mc.explore import Cost
from checks import C02

SCENARIOS = {}
TWICE = ("first install", "update", "bundled name")
POINTS = {}
ROOT = None


class Scenario:
    """a cache and an install command"""

    def __init__(self, name, argv, version, before=None, extra=None, others=("keep",)):
        self.name, self.argv, self.version, self.before = name, argv, version, before
        self.target = argv[-1]
        self.new = dict(C02.CONTENT[version])
        self.old = None if before is None else dict(C02.CONTENT[before], **(extra or {}))
        self.others = others
        self.body = cache.archive(dict(self.new, **cache.NOISE), sha=version * 5)
        self.template = os.path.join(ROOT, name.replace(" ", "_"))
        os.makedirs(os.path.join(self.template, "punx"))
        if self.old is not None:
            cache.put_set(self.template, self.target, self.old, date="2019-05-06 07:08:09", sha="a" * 40)
        for o in others:
            cache.put_set(self.template, o, C02.CONTENT["three"], date="2001-01-01 00:00:00")
        self.start = cache.snapshot(self.template)
        self.want = C02.expected(self.target, self.new, {}, version * 5)

    def fresh(self):
        config = cache.new_config()
        shutil.rmtree(config)
        shutil.copytree(self.template, config, symlinks=True)
        return config

    def install(self, config, **armed):
        """the command in its own process, with the shim armed; (outcome, operations)"""
        log = os.path.join(env.workdir(), "events")

        def before():
            cache.transport(cache.by_name({n: (200, self.body) for n in (self.target, "other")}))
            if armed:
                fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
                shim.arm(config, log=fd, **armed)
        out = cli.run(["install"] + self.argv, xdg=config, before=before)
        ops = shim.events(log) if armed else []
        return out, ops

    def state(self, config):
        """old, new, absent or a description of something else"""
        path = os.path.join(config, "punx", self.target)
        if not os.path.lexists(path):
            return "absent"
        got = cache.files_of(path)
        if self.old is not None and got == {k[len("punx/" + self.target) + 1:]: v for k, v in self.start.items() if k.startswith("punx/%s/" % self.target) and v != "dir"}:
            return "old"
        info = got.pop(cache.INFO, None)
        if info is not None and got == self.want["files"]:
            import json
            try:
                d = json.loads(info)
            except ValueError:
                return "new files with a damaged description"
            if d.get("ref") == self.target and d.get("sha") == self.want["sha"] and d.get("last_modified") == self.want["date"]:
                return "new"
        return "partial: files %s, description %r" % (sorted(got), info)

    def others_changed(self, config):
        a, b = C02.rest(self.start, [self.target]), C02.rest(cache.snapshot(config), [self.target])
        return [p for p in sorted(set(a) | set(b)) if a.get(p) != b.get(p) and not p.split(os.sep)[1:2][0:1] == [] and not (p.split(os.sep)[1].startswith(".") and p not in a)]


def setup():
    global ROOT
    C02.setup()
    ROOT = os.path.join(env.SCRATCH, "scenarios")
    gone = {"base_classes/NXgone.nxdl.xml": C02.CONTENT["three"]["base_classes/NXthree.nxdl.xml"].replace(b"NXthree", b"NXgone"), "extra/notes.txt": b"notes"}
    for s in (Scenario("first install", ["main"], "one"),
              Scenario("update", ["-u", "main"], "two", "three", gone),
              Scenario("update of nothing", ["-u", "main"], "one"),
              Scenario("install of what exists", ["main"], "two", "three"),
              Scenario("bundled name", ["-u", "v3.3"], "two", None, None, ("keep", "v2018.5")),
              Scenario("update of the same", ["-u", "main"], "one", "one"),
              Scenario("empty cache", ["main"], "one", None, None, ())):
        SCENARIOS[s.name] = s
        config = s.fresh()
        out, ops = s.install(config, mode=shim.LOG)
        if out.status != 0:
            raise RuntimeError("%s: %r" % (s.name, out))
        POINTS[s.name] = ops
        shutil.rmtree(config)


def aftermath(ch, s, config, label, commands=True):
    """what has to hold after a crash"""
    state = s.state(config)
    kind, res = cache.listing(config)
    if kind != "ok":
        ch.fail("crash:listing", "%s: afterwards no list of the sets: %s %s" % (label, kind, res))
        return state
    listed = res[0]
    allowed = {"new"} | ({"old"} if s.old is not None else set())
    if s.old is not None and s.argv[0] != "-u":
        allowed = {"old"}
    mine = listed.get(s.target)
    where = os.path.join(config, "punx", s.target)
    if mine is not None and os.path.realpath(mine["path"]) == os.path.realpath(where) and state not in allowed:
        ch.fail("crash:partial set", "%s: %s is listed with %s" % (label, s.target, state))
    if s.target not in cache.bundled() and mine is None and allowed == {"old"}:
        ch.fail("crash:lost", "%s: %s is not listed any more" % (label, s.target))
    want = {n: d["path"] for n, d in cache.bundled().items()}
    want.update({o: os.path.join(config, "punx", o) for o in s.others})
    want.pop(s.target, None)
    got = {n: d["path"] for n, d in listed.items() if n != s.target}
    if got != want:
        ch.fail("crash:other sets", "%s: listed %s, expected %s" % (label, got, want))
    changed = s.others_changed(config)
    if changed:
        ch.fail("crash:other files", "%s: changed: %s" % (label, changed))
    if commands:
        runs = [["configuration"], ["validate", C02.DATA], ["tree", C02.DATA], ["install", "keep"]]
        if mine is not None:
            runs.append(["validate", C02.DATA, "-f", s.target])
        for argv in runs:
            if argv[0] == "install" and not s.others:
                continue
            out = cli.run(argv, xdg=config, before=lambda: cache.transport(cache.by_name({})))
            if out.status != 0 or out.traceback:
                ch.fail("crash:command %s" % argv[0], "%s: %s: %r" % (label, argv, out))
    return state


def recovered(ch, s, config, label):
    out, _ops = s.install(config)
    if out.status != 0:
        ch.fail("crash:repeat", "%s: repeating the install: %r" % (label, out))
        return
    state = s.state(config)
    want = "old" if s.old is not None and s.argv[0] != "-u" else "new"
    if state != want:
        ch.fail("crash:repeated", "%s: after repeating the install the set is %s" % (label, state))
    else:
        kind, res = cache.listing(config)
        if kind != "ok" or s.target not in res[0] or os.path.realpath(res[0][s.target]["path"]) != os.path.realpath(os.path.join(config, "punx", s.target)):
            ch.fail("crash:repeated", "%s: after repeating the install: %s %s" % (label, kind, res))


class Crash:
    """the install is killed at every operation, also in the middle of a write, and maybe the repeated install as well"""
    batch = 2
    limit = 300

    def __init__(self, again=0):
        self.args = [again]
        self.again = again

    def execute(self, ch):
        s = SCENARIOS[ch.choose("scenario", [Cost(0, n) for n in SCENARIOS if not self.again or n in TWICE])]
        ops = POINTS[s.name]
        at = ch.choose("killed at", [Cost(0, k) for k in range(len(ops) + 1)])
        torn = 0
        if at < len(ops) and ops[at][0] == "write" and ops[at][1] > 1:
            torn = ch.choose("in the middle", [Cost(0, t) for t in ((0, 1, 2, 3) if not self.again else (0, 1))])
        config = s.fresh()
        label = "%s killed at operation %d of %d%s (%s)" % (s.name, at, len(ops), ["", ", half written", ", 1 byte written", ", last byte missing"][torn], ops[at] if at < len(ops) else "end")
        out, _l = s.install(config, mode=shim.KILL, at=at, torn=torn)
        if at < len(ops) and out.killed is None:
            ch.fail("harness", "%s: the process was not killed: %r" % (label, out))
            return
        if self.again:      # what holds after the first one is judged by the exploration of single crashes
            ops2 = self.points(s, config, at, torn)
            again = ch.choose("killed again at", [Cost(0, k) for k in range(len(ops2))])
            out, _l = s.install(config, mode=shim.KILL, at=again, torn=1 if ops2[again][0] == "write" else 0)
            if out.killed is None:
                ch.fail("harness", "%s: the repeated install was not killed: %r" % (label, out))
                return
            label += " and again at %d (%s)" % (again, ops2[again])
        state = aftermath(ch, s, config, label, not self.again)
        recovered(ch, s, config, label)
        ch.observe(s.name, at, torn, state, cache.digest(cache.snapshot(config)))
        shutil.rmtree(config)


    @staticmethod
    def points(s, config, at, torn):
        """the operations of the repeated install"""
        path = os.path.join(env.SCRATCH, "points", "%s-%d-%d" % (s.name, at, torn))
        if not os.path.exists(path):
            trial = config + ".trial"
            shutil.copytree(config, trial, symlinks=True)
            _out, ops = s.install(trial, mode=shim.LOG)
            shutil.rmtree(trial)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            part = "%s.%d" % (path, os.getpid())
            with open(part, "w") as f:
                f.write(repr([op[:3] for op in ops]))
            os.rename(part, path)
        with open(path) as f:
            return ast.literal_eval(f.read())


HARNESSES = dict(Crash=Crash)


def run(ctx):
    setup()
    ctx.explore(Crash(0), 0)
    if ctx.thorough:
        ctx.explore(Crash(1), 0)
    ctx.assumptions.append("a crash is the end of the process at a file operation; the operations done before it stay (no power failure)")
