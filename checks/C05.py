"""C05: the configuration table lists exactly the installed sets."""
import json
import os
import shutil

from mc import cache, cli, env, report
from mc.explore import Cost

CONTENT = None
BUNDLED = None


def setup():
    global CONTENT, BUNDLED
    cli.preload()
    CONTENT = cache.real_content("one")
    BUNDLED = cache.bundled()


SHAS = ["0123456789abcdef0123456789abcdef01234567", "abc", "abcdef0", "fedcba98", ""]
DATES = ["2001-01-01 00:00:00", "2016-11-19 01:07:44", "2017-07-12 10:41:13", "2018-05-15 16:34:18", "2018-05-15 16:34:20", "2099-12-31 23:59:59", "2099-12-31 23:59:58"]
NAMES = ["mine", "v2018.5", "v3.3", "a4fd52d", "cache", "cache2", "0ld", "source", "Zed", "with-dash.dot_x"]
ODD = ["empty directory", "directory without description", "file", "file named like a set", "hidden directory", "work directory", "description is a directory", "description is empty",
       "description is no JSON", "description is a list", "description is a number", "description without date", "date is a number", "date is null", "sha is null", "description cut", "broken link", "link to a set", "description not UTF-8", "settings file"]


def odd(config, kind):
    """something else in the user cache; returns the name of a set, if it is one"""
    base = os.path.join(config, "punx")
    path = os.path.join(base, "odd")
    good = dict(ref="odd", sha="1" * 40, zip_url="http://none", last_modified="2055-01-01 00:00:00")
    info = None
    if kind == "empty directory":
        os.makedirs(path)
    elif kind == "directory without description":
        cache.put_files(path, CONTENT)
    elif kind == "file":
        cache.put_files(base, {"odd": b"x"})
    elif kind == "file named like a set":
        cache.put_files(base, {"v4": b"x", cache.INFO: json.dumps(good).encode()})
    elif kind == "hidden directory":
        cache.put_files(os.path.join(base, ".hidden"), CONTENT)
    elif kind == "work directory":
        cache.put_set(config, ".install-xyz/new", CONTENT)
    elif kind == "description is a directory":
        os.makedirs(os.path.join(path, cache.INFO))
    elif kind == "broken link":
        os.symlink("/none/at/all", path)
    elif kind == "link to a set":
        cache.put_set(os.path.join(config, "elsewhere"), "odd", CONTENT, date=good["last_modified"], sha=good["sha"])
        os.symlink(os.path.join(config, "elsewhere", "punx", "odd"), path)
        return dict(good, path=path)
    elif kind == "settings file":
        cache.put_files(base, {"punx.ini": b"[General]\nx=1\n"})
    else:
        if kind == "description is empty":
            info = b""
        elif kind == "description is no JSON":
            info = b"ref = odd"
        elif kind == "description is a list":
            info = b"[1, 2]"
        elif kind == "description is a number":
            info = b"3"
        elif kind == "description without date":
            info = json.dumps({k: v for k, v in good.items() if k != "last_modified"}).encode()
        elif kind == "date is a number":
            info = json.dumps(dict(good, last_modified=2055)).encode()
        elif kind == "date is null":
            info = json.dumps(dict(good, last_modified=None)).encode()
        elif kind == "sha is null":
            info = json.dumps(dict(good, sha=None)).encode()
        elif kind == "description cut":
            info = json.dumps(good).encode()[:40]
        elif kind == "description not UTF-8":
            info = json.dumps(good).encode().replace(b"none", b"\xff\xfe")
        cache.put_set(config, "odd", CONTENT, info=info)
    return None


class Table:
    batch = 4
    limit = 100

    def __init__(self, deep=0):
        self.args = [deep]
        self.deep = deep

    def execute(self, ch):
        where = ch.choose("user cache", ["plain", "below punx/cache", "with blanks", "missing"])
        config = cache.new_config()
        if where == "below punx/cache":
            config = os.path.join(config, "punx", "cache", "cfg")
        elif where == "with blanks":
            config = os.path.join(config, "a b", "\u00e4")
        os.makedirs(os.path.join(config, "punx"), exist_ok=True)
        want = {n: dict(d, cache="source") for n, d in BUNDLED.items()}
        taken, used = set(), set()
        for i in range(3):
            name = ch.choose("set %d" % i, [None] + [n for n in (NAMES if i == 0 or self.deep else ["cache2", "v2018.5", "v3.3"]) if n not in taken])
            if name is None:
                break
            taken.add(name)
            date = ch.choose("date %d" % i, [Cost(0, d) for d in DATES if d not in used])
            used.add(date)
            sha = ch.choose("sha %d" % i, [SHAS[i]] + SHAS[3:])
            p = cache.put_set(config, name, CONTENT, date=date, sha=sha)
            want[name] = dict(ref=name, cache="user", date=date, sha=sha, path=p)
        kind = ch.choose("also there", [None] + ODD)
        if kind:
            d = odd(config, kind)
            if d:
                want["odd"] = dict(d, cache="user", date=d["last_modified"])
        how = ch.choose("how", ["configuration", "library", "install"])
        if where == "missing":
            if taken or kind or how == "install":
                ch.observe("not with a missing directory")
                return
            shutil.rmtree(os.path.join(config, "punx"))
        label = "%s, user cache %s, %s, %s" % (how, where, {n: want[n] for n in taken}, kind)
        judge(ch, config, want, how, label)
        ch.observe(where, sorted((n, want[n]["date"], want[n]["sha"]) for n in taken), kind, how)


class Twins:
    """sets of one date or one commit"""
    batch = 4
    limit = 100

    def __init__(self, deep=0):
        self.args = [deep]
        self.names = ["one", "two"] + (["v3.3"] if deep else [])

    def execute(self, ch):
        config = cache.new_config()
        want = {n: dict(d, cache="source") for n, d in BUNDLED.items()}
        like = dict(BUNDLED["v2018.5"])
        for n in self.names:
            date = ch.choose("date of " + n, [Cost(0, d) for d in (DATES[0], like["date"], DATES[5])])
            sha = ch.choose("sha of " + n, [Cost(0, d) for d in (SHAS[0], like["sha"], SHAS[0][:7] + "8" * 33)])
            want[n] = dict(ref=n, cache="user", date=date, sha=sha, path=cache.put_set(config, n, CONTENT, date=date, sha=sha))
        judge(ch, config, want, ch.choose("how", ["configuration", "library"]), str([want[n] for n in self.names]))
        ch.observe([(want[n]["date"], want[n]["sha"]) for n in self.names])


def judge(ch, config, want, how, label):
    kw = dict(xdg=config)
    if how == "configuration":
        out = cli.run(["configuration"], **kw)
    elif how == "install":
        body = cache.archive(CONTENT, sha="9" * 40, dates={"nxdl.xsd": (2077, 7, 7, 7, 7, 8)})
        out = cache.install(["new"], cache.by_name(dict(new=(200, body))), kw.pop("xdg"), **kw)
        want["new"] = dict(ref="new", cache="user", date="2077-07-07 07:07:08", sha="9" * 40, path=os.path.join(config, "punx", "new"))
    else:
        def main():
            from punx import cache_manager
            cm = cache_manager.CacheManager()
            cm.select_NXDL_file_set("v3.3")
            print(cache_manager.table_of_caches())
            print("default: " + cm.select_NXDL_file_set().ref)
        out = cli.run([], main=main, **kw)
    if out.status != 0 or out.traceback:
        ch.fail("status", "%s: %r" % (label, out))
        return
    tabs = [t for t in report.tables(out.out) if t[0][:2] == ["NXDL file set", "cache"]]
    if len(tabs) != 1:
        ch.fail("table", "%s: %d tables: %r" % (label, len(tabs), out))
        return
    rows = [dict(zip(tabs[0][0], r)) for r in tabs[0][1:]]
    names = [r["NXDL file set"] for r in rows]
    for n in sorted(set(names) | set(want)):
        if names.count(n) != (1 if n in want else 0):
            ch.fail("listed", "%s: %s is listed %d times" % (label, n, names.count(n)))
    for r in rows:
        w = want.get(r["NXDL file set"])
        if w is None:
            continue
        for k, v in (("cache", w["cache"]), ("date & time", w["date"]), ("commit", w["sha"][:7])):
            if r[k] != v:
                ch.fail("column:" + k, "%s: %s of %s is %r, expected %r" % (label, k, r["NXDL file set"], r[k], v))
        if os.path.realpath(r["path"]) != os.path.realpath(w["path"]):
            ch.fail("column:path", "%s: path of %s is %r, expected %r" % (label, r["NXDL file set"], r["path"], w["path"]))
    dates = [r["date & time"] for r in rows]
    if dates != sorted(dates):
        ch.fail("order", "%s: not ordered by date: %s" % (label, dates))
    top = [n for n in want if want[n]["date"] == max(w["date"] for w in want.values())]
    last = out.out.strip().splitlines()[-1]
    if not last.startswith("default") or len(top) == 1 and last.split(":")[-1].strip() != top[0]:
        ch.fail("default", "%s: default is %s, expected %s" % (label, last, top))
    shutil.rmtree(config)


HARNESSES = dict(Table=Table, Twins=Twins)


def run(ctx):
    setup()
    ctx.explore(Table(ctx.thorough), 2 if not ctx.thorough else 3)
    ctx.explore(Twins(ctx.thorough), 1)
    ctx.assumptions.append("the order of sets with the same date is not judged")
