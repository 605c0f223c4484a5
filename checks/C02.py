"""C02: installing a definitions set yields exactly the downloaded definitions."""
import json
import os
import pathlib
import shutil

from mc import cache, cli, env, h5spec
from mc.explore import Cost
from mc.proc import forked

CONTENT = {}
DATA = None


def setup():
    global DATA
    cli.preload()
    for v in ("one", "two", "three"):
        CONTENT[v] = cache.real_content(v)
    CONTENT["two"].pop("base_classes/NXdata.nxdl.xml")
    import h5py
    DATA = os.path.join(env.workdir(), "data.h5")
    with h5py.File(DATA, "w") as f:
        f.create_group("entry").attrs["NX_class"] = "NXentry"


def found(config, names):
    """what a new process finds, and whether the sets can be used"""
    def job():
        os.environ["XDG_CONFIG_HOME"] = config
        import contextlib
        import io
        import logging
        logging.disable(logging.CRITICAL)
        from punx import cache_manager, validate
        cm = cache_manager.CacheManager()
        out = {k: dict(ref=v.ref, cache=v.cache, sha=v.sha, date=v.last_modified, path=v.path) for k, v in cm.all_file_sets.items()}
        use = {}
        for n in names:
            if n in out:
                v = validate.Data_File_Validator(n)
                v.validate(DATA)
                with contextlib.redirect_stdout(io.StringIO()):
                    v.print_report()
                use[n] = (v.manager.nxdl_file_set.path, sorted(v.manager.classes))
                v.close()
        return out, use
    return forked(job, 100)


def classes(content):
    return sorted(os.path.basename(p)[:-9] for p in content if p.endswith(".nxdl.xml") and cache.wanted(p))


def expected(name, content, dates, sha, date=(2020, 1, 2, 3, 4, 6)):
    files = {p: b for p, b in content.items() if cache.wanted(p)}
    latest = max(dates.get(p, date) for p in files)
    return dict(files=files, ref=name, sha=sha, date="%04d-%02d-%02d %02d:%02d:%02d" % latest)


def check_set(ch, config, name, want, seen, use, label):
    """the set in the cache is the expected one"""
    path = os.path.join(config, "punx", name)
    got = cache.files_of(path) if os.path.isdir(path) else None
    if got is None:
        ch.fail("missing", "%s: no directory %s" % (label, name))
        return
    info = got.pop(cache.INFO, None)
    for p in sorted(set(want["files"]) | set(got)):
        if p not in got:
            ch.fail("file missing", "%s: %s of the archive is not in the set" % (label, p))
        elif p not in want["files"]:
            ch.fail("file too many", "%s: %s is not of the archive (or not a definitions file)" % (label, p))
        elif got[p] != want["files"][p]:
            ch.fail("file content", "%s: %s has %r, archive has %r" % (label, p, got[p][:60], want["files"][p][:60]))
    try:
        d = json.loads(info)
    except (TypeError, ValueError):
        ch.fail("description", "%s: description is %r" % (label, info))
        return
    for k, v in dict(ref=want["ref"], sha=want["sha"], last_modified=want["date"]).items():
        if d.get(k) != v:
            ch.fail("description:" + k, "%s: %s is %r, expected %r" % (label, k, d.get(k), v))
    if not isinstance(d.get("zip_url"), str) or name not in d["zip_url"] or not d["zip_url"].startswith("http"):
        ch.fail("description:source", "%s: source is %r" % (label, d.get("zip_url")))
    s = seen.get(name)
    if s is None:
        ch.fail("not listed", "%s: %s is not listed" % (label, name))
    elif (s["ref"], s["sha"], s["date"], os.path.realpath(s["path"])) != (want["ref"], want["sha"], want["date"], os.path.realpath(path)):
        ch.fail("listed", "%s: listed as %r" % (label, s))
    elif use.get(name) != (s["path"], classes(want["files"])):
        ch.fail("not usable", "%s: using it gives %r, expected classes %s" % (label, use.get(name), classes(want["files"])))


def rest(snap, names):
    """a snapshot without the named sets, without work directories and their leftovers"""
    return {k: v for k, v in snap.items() if k.split(os.sep)[1:2] not in [[n] for n in names]}


FORMS = [(["main"], False), (["-u", "main"], True), (["main", "-u"], True), (["--update", "main"], True), ([], False), (["-u"], True),
         (["v9"], False), (["-u", "v3.3"], True), (["v2018.5"], False), (["-u", "a1b2c3d"], True), (["Schema-3.4"], False), (["-u", "feature.x"], True), (["x_Y"], False),
         (["main", "other"], False), (["-u", "other", "main"], True), (["other", "other"], False), (["-u", "main", "main"], True), (["main", "keep"], False)]


class Install:
    """one install command in a cache"""
    batch = 4
    limit = 200

    def __init__(self, deep=0):
        self.args = [deep]

    def execute(self, ch):
        argv, update = ch.choose("command", [FORMS[0], FORMS[1]] + FORMS[2:])
        names = [a for a in argv if not a.startswith("-")] or ["main"]
        before = ch.choose("before", ["nothing", "the set", "the set with more in it", "the set, newer", "set of the same files", "no directory", "left work directory", "set without description", "set that cannot be written"])
        other = ch.choose("others", ["several", "none", "similar names", "sets of the bundled names"])
        version = ch.choose("archive", ["one", "two", "noise", "unicode", "empty files", "sub sets", "no directories", "reversed", "stored", "dates", "dates of other files", "date first", "old dates"])
        top = ch.choose("top", ["definitions-main", "definitions-1234567890123456789012345678901234567890", "main", "punx", "definitions"])
        sha = ch.choose("sha", ["f" * 40, "1234567", "0123456789abcdef0123456789abcdef01234567"])
        way = ch.choose("way", ["command", "function", "command, other directory"])
        # the archive
        content = dict(CONTENT["two" if version == "two" else "one"])
        dates, opts = {}, {}
        if version == "noise":
            content.update(cache.NOISE)
        elif version == "unicode":
            content["base_classes/NX\u00e4.nxdl.xml"] = content["base_classes/NXone.nxdl.xml"].replace(b"NXone", "NX\u00e4".encode())
        elif version == "empty files":
            content["base_classes/empty.xml"] = b""
        elif version == "sub sets":
            content["applications/base_classes.xml"] = b"<x/>"
            content["applications.xml"] = b"<x/>"
            content["base_classes/more.of/it.xml"] = b"<x/>"
        elif version == "no directories":
            opts["directories"] = False
        elif version == "reversed":
            opts["reverse"] = True
            dates["nxdl.xsd"] = (2021, 5, 6, 7, 8, 10)
        elif version == "stored":
            opts["compress"] = False
        elif version == "dates":
            dates = {"applications/NXapp.nxdl.xml": (2021, 11, 2, 3, 4, 6), "nxdl.xsd": (2021, 9, 30, 23, 59, 58), "base_classes/NXdata.nxdl.xml": (2021, 11, 2, 3, 4, 4)}
        elif version == "dates of other files":
            content.update(cache.NOISE)
            dates = {p: (2030, 1, 1, 0, 0, 0) for p in cache.NOISE}
            dates["base_classes/"] = (2031, 1, 1, 0, 0, 0)
        elif version == "date first":
            dates = {min(p for p in content if cache.wanted(p)): (2022, 2, 2, 2, 2, 2)}
        elif version == "old dates":
            dates = {p: (1990, 1, 1, 0, 0, 0) for p in content}
            dates["nxdlTypes.xsd"] = (1995, 12, 31, 23, 59, 58)
        body = cache.archive(content, top, sha, dates, **opts)
        # the cache
        config = cache.new_config()
        main = names[0]
        if before == "no directory":
            shutil.rmtree(os.path.join(config, "punx"))
            other = "none"
        elif before == "left work directory":
            cache.put_files(os.path.join(config, "punx", ".install-abcdefgh", "new", top), {"nxdl.xsd": b"<part"})
        elif before != "nothing":
            old = dict(CONTENT["one" if before == "set of the same files" else "three"])
            if before == "the set with more in it":
                old.update({"base_classes/NXgone.nxdl.xml": old["base_classes/NXthree.nxdl.xml"].replace(b"NXthree", b"NXgone"), "sub/dir/file": b"x", "base_classes/nxdl.xsd": b"y"})
            if before == "set that cannot be written":
                old["base_classes/locked.xml"] = b"z"
            path = cache.put_set(config, main, old, date="2099-12-31 00:00:00" if before == "the set, newer" else "2001-01-01 00:00:00")
            if before == "set without description":
                os.unlink(os.path.join(path, cache.INFO))
            if before == "set that cannot be written":
                os.chmod(os.path.join(path, "base_classes/locked.xml"), 0o400)
                os.chmod(os.path.join(path, "base_classes"), 0o500)
        exists = before.startswith("set") or before.startswith("the set")
        if other == "several":
            cache.put_set(config, "keep", CONTENT["two"])
            for n in (main + "-old", main + "_1", "old." + main, main + ".new", "." + main):
                cache.put_files(os.path.join(config, "punx", n), {"nxdl.xsd": b"<x/>", cache.INFO: b'{"ref": "%s", "sha": "0123456", "zip_url": "http://none", "last_modified": "2000-01-01 00:00:00"}' % n.encode()})
            cache.put_files(os.path.join(config, "punx"), {main + ".zip": b"mine", main + ".json": b"{}", "notes/" + main: b"mine"})
        elif other == "similar names":
            for n in (main + "2", main + ".zip", "definitions-" + main, main[:-1], top):
                if n not in names:
                    cache.put_set(config, n, cache.tiny_content("x"))
        elif other == "sets of the bundled names":
            for n in ("v3.3", "v2018.5"):
                if n not in names:
                    cache.put_set(config, n, CONTENT["two"])
        start = cache.snapshot(config)
        answer = cache.by_name({n: (200, body) for n in names})
        label = "install %s, before: %s, others: %s" % (argv, before, other)
        if way == "function":
            def job():
                os.environ["XDG_CONFIG_HOME"] = config
                import contextlib
                import io
                import logging
                logging.disable(logging.CRITICAL)
                cache.transport(answer)
                from punx import cache_manager
                with contextlib.redirect_stdout(io.StringIO()):
                    cm = cache_manager.CacheManager()
                    for n in names:
                        cache_manager.download_file_set(n, pathlib.Path(cm.user.path), replace=update)
                    # this process finds it, too
                    return {k: v.path for k, v in cm.all_file_sets.items()}, cm.select_NXDL_file_set(main).path
            kind, res = forked(job, 100)
            if kind != "ok":
                ch.fail("function", "%s: %s %s" % (label, kind, res))
                return
            if not (before == "set without description" and not update) and res[1] != os.path.join(config, "punx", main):
                ch.fail("same process", "%s: selecting %s afterwards gives %s" % (label, main, res[1]))
        else:
            cwd = None
            if way != "command":
                cwd = os.path.join(env.workdir(), "cwd")
                os.makedirs(os.path.join(cwd, "punx", main), exist_ok=True)
            out = cache.install(argv, answer, config, cwd=cwd)
            if cwd and cache.snapshot(cwd) != {"punx": "dir", "punx/" + main: "dir"}:
                ch.fail("working directory", "%s: changes in the working directory: %s" % (label, sorted(cache.snapshot(cwd))))
            if cwd:
                shutil.rmtree(cwd)
            if out.status != 0:
                ch.fail("status", "%s: %r" % (label, out))
                return
            for n in names:
                if n not in out.out.rpartition("=====")[0]:
                    ch.fail("not shown", "%s: the table does not show %s\n%s" % (label, n, out.out[-800:]))
        end = cache.snapshot(config)
        kind, res = found(config, names)
        if kind != "ok":
            ch.fail("use:%s" % kind, "%s: afterwards: %s" % (label, res))
            return
        seen, use = res
        for n in dict.fromkeys(names):
            if exists and n == main and not update or n == "keep" and other == "several" and not update:
                a, b = ({k: v for k, v in s.items() if k.startswith("punx/%s" % n + os.sep)} for s in (start, end))
                if a != b:
                    ch.fail("not left alone", "%s: %s changed without being asked" % (label, n))
            else:
                check_set(ch, config, n, expected(n, content, dates, sha), seen, use, label)
        a, b = rest(start, names), rest(end, names)
        for p in sorted(set(a) | set(b)):
            if a.get(p) != b.get(p) and p != "punx":
                ch.fail("other files", "%s: %s was %r, is %r" % (label, p, str(a.get(p))[:80], str(b.get(p))[:80]))
        for n in set(os.listdir(os.path.join(config, "punx"))) & set(seen):
            if before == "set without description" and n == main and not update:
                continue
            if not os.path.realpath(seen[n]["path"]).startswith(os.path.realpath(config)):
                ch.fail("override", "%s: %s of the user cache does not override the bundled set" % (label, n))
        shutil.rmtree(config)
        ch.observe(argv, before, other, version, top, sha, way)


OPS = [("install", "a", "one"), ("update", "a", "two"), ("install", "a", "two"), ("install", "b", "two"), ("update", "b", "one"), ("fail", "a", None), ("update", "v3.3", "three"), ("remove", "a", None)]


class Sequence:
    """installs in one cache, in one process or several"""
    batch = 4
    limit = 200

    def __init__(self, length):
        self.args = [length]
        self.length = length

    def execute(self, ch):
        ways = ch.choose("processes", [Cost(0, w) for w in ("several", "one")])
        ops = [ch.choose("op %d" % i, [Cost(0, o) for o in OPS]) for i in range(self.length)]
        config = cache.new_config()
        bodies = {v: cache.archive(CONTENT[v], sha=v * 5) for v in CONTENT}
        model = {}

        def perform(op, name, version):
            if op == "remove":
                shutil.rmtree(os.path.join(config, "punx", name), ignore_errors=True)
                return
            from punx import cache_manager
            cache.transport(cache.by_name({name: (200, bodies[version])} if version else {}))
            cm = cache_manager.CacheManager()
            try:
                cache_manager.download_file_set(name, pathlib.Path(cm.user.path), replace=op != "install")
            except Exception:
                if op != "fail":
                    raise
            return {k: (v.ref, v.sha, v.last_modified, v.path) for k, v in cm.all_file_sets.items()}

        def job(todo):
            os.environ["XDG_CONFIG_HOME"] = config
            import contextlib
            import io
            import logging
            logging.disable(logging.CRITICAL)
            with contextlib.redirect_stdout(io.StringIO()):
                return [perform(*t) for t in todo]
        seen = []
        for todo in ([ops] if ways == "one" else [[o] for o in ops]):
            kind, res = forked(lambda: job(todo), 100)
            if kind != "ok":
                ch.fail("sequence:%s" % kind, "%s in %s: %s" % (todo, ops, res))
                return
            seen += res
        for (op, name, version), s in zip(ops, seen):
            if op == "remove":
                model.pop(name, None)
                continue
            if version and (op == "update" or name not in model):
                model[name] = version
            want = {n: (d["ref"], d["sha"], d["date"], d["path"]) for n, d in cache.bundled().items()}
            want.update({n: (n, v * 5, "2020-01-02 03:04:06", os.path.join(config, "punx", n)) for n, v in model.items()})
            if s != want:
                ch.fail("sequence:listed", "after %s in %s: listed %s, expected %s" % ((op, name, version), ops, sorted(set(s.items()) - set(want.items())), sorted(set(want.items()) - set(s.items()))))
        kind, res = found(config, list(model))
        if kind != "ok":
            ch.fail("use:%s" % kind, "after %s: %s" % (ops, res))
            return
        for n, v in model.items():
            check_set(ch, config, n, expected(n, CONTENT[v], {}, v * 5), *res, "after %s" % (ops,))
        left = sorted(set(os.listdir(os.path.join(config, "punx"))) - set(model))
        if left:
            ch.fail("sequence:left", "after %s: left in the cache: %s" % (ops, left))
        shutil.rmtree(config)
        ch.observe(ways, ops)


HARNESSES = dict(Install=Install, Sequence=Sequence)


def run(ctx):
    setup()
    ctx.explore(Install(), 2 if not ctx.thorough else 3)
    ctx.explore(Sequence(2 if not ctx.thorough else 4), 0)
    ctx.assumptions.append("downloads are simulated below requests (HTTPAdapter.send); files in deeper directories that are named like a category are not judged")
