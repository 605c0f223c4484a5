"""C04: a failed download or input/output error leaves the cache as it was."""
import errno
import io
import os
import shutil
import zipfile

from mc import cache, cli, env, shim
from mc.explore import Cost
from checks import C02, C03

SCENARIOS = C03.SCENARIOS
POINTS, READS = {}, {}
ERRORS = [("ENOSPC", errno.ENOSPC), ("EIO", errno.EIO), ("EACCES", errno.EACCES)]
TINY = {}
BODIES = {}
KNOWN = {}


def setup():
    C03.setup()
    for s in SCENARIOS.values():
        for table, classes in ((POINTS, shim.MUTATE), (READS, shim.MUTATE | shim.READ)):
            config = s.fresh()
            _out, table[s.name] = s.install(config, mode=shim.LOG, classes=classes)
            shutil.rmtree(config)
    for v in ("one", "two"):
        TINY[v] = cache.tiny_content(v)
    BODIES["deflated"] = cache.archive(dict(TINY["two"], **{"README.md": b"read"}), top="d", sha="0123abc")
    BODIES["stored"] = cache.archive(dict(TINY["two"], **{"README.md": b"read"}), top="d", sha="0123abc", compress=False, directories=False)


def settled(ch, config, label, others, target, allowed, again):
    """a new process finds the same other sets, and the install without the fault succeeds; states met before are not judged again"""
    key = (ch_key(label), cache.digest(cache.snapshot(config)))
    if key in KNOWN:
        return
    kind, res = cache.listing(config)
    if kind != "ok":
        ch.fail("fault:listing", "%s: afterwards no list of the sets: %s %s" % (label, kind, res))
        return
    want = {n: d["path"] for n, d in cache.bundled().items()}
    want.update({o: os.path.join(config, "punx", o) for o in others})
    if allowed != "absent":
        want[target] = os.path.join(config, "punx", target)
    got = {n: d["path"] for n, d in res[0].items()}
    if got != want:
        ch.fail("fault:sets", "%s: listed %s, expected %s" % (label, got, want))
        return
    trouble = again()
    if trouble:
        ch.fail("fault:repeat", "%s: afterwards, without the fault: %s" % (label, trouble))
        return
    KNOWN[key] = True


def ch_key(label):
    return label.split(":")[0]


class Fault:
    """an operation fails: every one, once or from then on, also in the middle of a write"""
    batch = 3
    limit = 300

    def __init__(self, reads=0):
        self.args = [reads]
        self.reads = reads

    def execute(self, ch):
        s = SCENARIOS[ch.choose("scenario", [Cost(0, n) for n in SCENARIOS])]
        ops = (READS if self.reads else POINTS)[s.name]
        at = ch.choose("failing", [Cost(0, k) for k in range(len(ops))])
        name, err = ch.choose("error", [Cost(0, ERRORS[1])] + ([] if self.reads else [Cost(0, ERRORS[0]), Cost(0, ERRORS[2])]))
        sticky = ch.choose("from then on", [Cost(0, 0), Cost(0, 1)])
        torn = 0
        if ops[at][0] == "write" and ops[at][1] > 1:
            torn = ch.choose("in the middle", [Cost(0, t) for t in (0, 1, 3)])
        config = s.fresh()
        label = "%s: operation %d of %d (%s) fails with %s%s%s" % (s.name, at, len(ops), ops[at], name, " and all after it" if sticky else "", ["", ", half written", "", ", last byte missing"][torn])
        out, _ops = s.install(config, mode=shim.FAIL, at=at, err=err, sticky=sticky, torn=torn, classes=shim.MUTATE | shim.READ if self.reads else shim.MUTATE)
        state = s.state(config)
        old = "old" if s.old is not None else "absent"
        noop = s.old is not None and s.argv[0] != "-u"
        if out.killed is not None:
            ch.fail("fault:killed", "%s: %r" % (label, out))
        if out.status == 0:
            allowed = ["old" if noop else "new"]
        else:
            allowed = [old]
            if s.argv[0] == "-u":
                allowed.append("absent")
            if self.reads and not noop:
                allowed.append("new")
        if state not in allowed:
            ch.fail("fault:state", "%s: status %r and the set is %s, expected %s" % (label, out.status, state, " or ".join(allowed)))
        changed = s.others_changed(config)
        if changed:
            ch.fail("fault:other files", "%s: changed: %s" % (label, changed))

        def again():
            out, _ops = s.install(config)
            if out.status != 0:
                return repr(out)
            now = s.state(config)
            if now != ("old" if noop else "new"):
                return "the set is %s" % now
            if s.others_changed(config):
                return "changed: %s" % s.others_changed(config)
        listed = state if state != "absent" or s.target not in cache.bundled() else "absent"
        if listed == "absent" and s.target in cache.bundled():
            settled(ch, config, label, s.others, s.target, "absent", again)
        else:
            settled(ch, config, label, s.others, s.target, listed, again)
        ch.observe(s.name, ops[at][0], out.status, state)
        shutil.rmtree(config)


EXCEPTIONS = ["ConnectionError", "ConnectTimeout", "ReadTimeout", "SSLError", "ProxyError", "TooManyRedirects", "ChunkedEncodingError", "ContentDecodingError", "InvalidURL", "HTTPError", "RequestException"]
CASES = ["first", "exists", "bundled name"]


class Download:
    """the download goes wrong"""
    batch = 16
    limit = 300

    def __init__(self, kind, deep=0):
        self.args = [kind, deep]
        self.kind, self.deep = kind, deep

    def fault(self, ch):
        """(label, answer, files the set may have after a success or None)"""
        if self.kind == "network":
            e = ch.choose("exception", [Cost(0, e) for e in EXCEPTIONS])
            return e, e, None
        if self.kind == "status":
            status = ch.choose("status", [Cost(0, s) for s in (200, 202, 204, 400, 401, 403, 404, 406, 410, 429, 500, 502, 503, 504)])
            body = ch.choose("body", [Cost(0, b) for b in (b"", b"Not Found", b"<html><body><h1>Error</h1></body></html>", b"PK", b"{\"message\": \"API rate limit exceeded\"}", b"\x1f\x8b\x08\x00" + bytes(40), bytes(300), b"PK\x05\x06" + bytes(18))])
            return "status %d with %r" % (status, body[:20]), (status, body), None
        if self.kind == "content":
            gone = ch.choose("gone", [Cost(0, g) for g in ("nxdl.xsd", "nxdlTypes.xsd", "base_classes/", "applications/", "contributed_definitions/", "all", "all but the schema", "all but the classes", "elsewhere", "suffixes")])
            content = dict(TINY["two"])
            if gone == "all":
                content = dict(cache.NOISE)
                content.pop("base_classes/Makefile")
                content.pop("base_classes/old/NXold.nxdl.xml")
            elif gone == "all but the schema":
                content = {p: b for p, b in content.items() if p.endswith(".xsd")}
            elif gone == "all but the classes":
                content = {p: b for p, b in content.items() if not p.endswith(".xsd")}
            elif gone == "elsewhere":
                content = {"definitions/" + p: b for p, b in content.items()}
                content["README.md"] = b""
            elif gone == "suffixes":
                content = {p.replace("NXb.nxdl.xml", "NXb.nxdl.json"): b for p, b in content.items()}
            else:
                content = {p: b for p, b in content.items() if p != gone and not p.startswith(gone)}
            return "archive without " + gone, (200, cache.archive(content, top="d", directories=ch.choose("directories", [Cost(0, True), Cost(0, False)]))), None
        which = ch.choose("archive", [Cost(0, b) for b in BODIES])
        body = BODIES[which]
        n = ch.choose("at", [Cost(0, i) for i in range(len(body))])
        if self.kind == "truncated":
            whole = zipped(body[:n])
            return "%s archive, first %d of %d bytes" % (which, n, len(body)), (200, body[:n]), whole
        if self.kind == "broken":
            return "%s archive, connection breaks after %d of %d bytes" % (which, n, len(body)), (200, body, n), None
        new = ch.choose("byte", [Cost(0, b) for b in ([body[n] ^ 1, body[n] ^ 0x80] + ([0, 255, body[n] ^ 0x20, (body[n] + 1) & 255] if self.deep else [])) if b != body[n]])
        bad = body[:n] + bytes([new]) + body[n + 1:]
        return "%s archive, byte %d is %d" % (which, n, new), (200, bad), zipped(bad)

    def execute(self, ch):
        case = ch.choose("cache", [Cost(0, c) for c in (CASES if self.kind in ("network", "status", "content") or self.deep else CASES[1:2])])
        label, answer, may = self.fault(ch)
        if answer == "undecided":
            return
        target = "v3.3" if case == "bundled name" else "main"
        names = ["main"]
        if self.kind in ("network", "status", "content"):
            names = ch.choose("names", [Cost(0, [target]), Cost(0, ["aaa", target]), Cost(0, [target, "aaa"])])
        else:
            names = [target]
        config = cache.new_config()
        cache.put_set(config, "keep", TINY["one"], date="2001-01-01 00:00:00")
        if case != "first":
            cache.put_set(config, target, TINY["one"], date="2022-02-02 02:02:02")
        start = cache.snapshot(config)
        good = (200, BODIES["stored"])
        label = "%s, %s: %s" % (case, " ".join(names), label)
        answers = {target: answer, "aaa": good}
        out = cache.install(["-u"] + names, cache.by_name(answers), config)
        if out.killed is not None:
            ch.fail("download:killed", "%s: %r" % (label, out))
        now = cache.snapshot(config)
        here = {p: v for p, v in now.items() if p.startswith("punx/%s/" % target)}
        before = {p: v for p, v in start.items() if p.startswith("punx/%s/" % target)}
        others = lambda snap: {p: v for p, v in snap.items() if not p.startswith(("punx/%s/" % target, "punx/aaa/", "punx/.")) and p not in ("punx/aaa", "punx/" + target)}  # noqa
        if others(now) != others(start):
            ch.fail("download:others", "%s: changed %s" % (label, sorted(p for p in set(now) | set(start) if now.get(p) != start.get(p))))
        state = "same" if here == before and ("punx/" + target in now) == ("punx/" + target in start) else "changed"
        if state == "changed":
            got = {p.split("/", 2)[2]: v for p, v in here.items() if v != "dir"}
            got.pop(cache.INFO, None)
            if got == TINY["two"]:
                state = "new"
        if out.status == 0:
            if may is not True or state != "new":
                ch.fail("download:success", "%s: reported as success, the set is %s: %r" % (label, state if state != "changed" else sorted(here), out))
        elif state != "same":
            ch.fail("download:changed", "%s: status %r, now %s, before %s" % (label, out.status, sorted(here), sorted(before)))
        if "aaa" in names:
            got = {p.split("/", 2)[2]: v for p, v in now.items() if p.startswith("punx/aaa/") and v != "dir"}
            got.pop(cache.INFO, None)
            if got not in ({}, TINY["two"]) or (out.status == 0 and not got):
                ch.fail("download:other name", "%s: set aaa has %s" % (label, sorted(got)))
        if out.status != 0 or may is not True:
            def again():
                out = cache.install(["-u"] + names, cache.by_name(dict(answers, **{target: good})), config)
                if out.status != 0:
                    return repr(out)
                got = cache.files_of(os.path.join(config, "punx", target))
                got.pop(cache.INFO, None)
                if got != TINY["two"]:
                    return sorted(got)
            listed = ["keep"] + (["aaa"] if "punx/aaa" in now else [])
            settled(ch, config, label, listed, target, "old" if "punx/" + target in now else "absent", again)
        ch.observe(case, names, out.status, state)
        shutil.rmtree(config)


def zipped(body):
    """may an install of this archive succeed (its definitions files have the right names and contents)?"""
    try:
        with zipfile.ZipFile(io.BytesIO(body)) as z:
            return {n: z.read(n) for n in z.namelist() if n.startswith("d/") and cache.wanted(n[2:])} == {"d/" + p: b for p, b in TINY["two"].items()}
    except Exception:
        return False


HARNESSES = dict(Fault=Fault, Download=Download)


def run(ctx):
    setup()
    ctx.explore(Fault(0), 0)
    for kind in ("network", "status", "content"):
        ctx.explore(Download(kind), 0)
    for kind in ("truncated", "broken", "corrupt"):
        ctx.explore(Download(kind, int(ctx.thorough)), 0)
    if ctx.thorough:
        ctx.explore(Fault(1), 0)
    ctx.assumptions.append("an install that fails while it lists the sets afterwards may have installed the set")
