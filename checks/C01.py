"""C01: the latest installed definitions set is the default; named sets are honoured."""
import os
import pathlib
import shutil

from mc import cache, cli, env, nxdldocs
from mc.explore import Cost
from mc.proc import forked

DATES = ["2001-01-01 00:00:00", "2016-11-19 01:07:44", "2017-07-12 10:41:13", "2018-05-15 16:34:18", "2018-05-15 16:34:20", "2018-12-01 00:00:00", "2099-12-31 23:59:59"]
NAMES = ["mine", "v2018.5", "v3.3", "Zed", "0ld", "v2018.5b", "main", "a b"]
CONTENT = None
BUNDLED = None
DATA = DOC = None


def setup():
    global CONTENT, BUNDLED, DATA, DOC
    cli.preload()
    CONTENT = cache.real_content("one")
    BUNDLED = cache.bundled()
    import h5py
    DATA = os.path.join(env.workdir(), "data.h5")
    with h5py.File(DATA, "w") as f:
        f.create_group("entry").attrs["NX_class"] = "NXentry"
    DOC = os.path.join(env.workdir(), "NXdoc.nxdl.xml")
    with open(DOC, "wb") as f:
        f.write(CONTENT["base_classes/NXone.nxdl.xml"])


class Model:
    def __init__(self, config):
        self.config = config
        self.user = {}       # name: date

    def path(self, name):
        return os.path.join(self.config, "punx", name) if name in self.user else BUNDLED[name]["path"]

    def sets(self):
        out = {n: d["date"] for n, d in BUNDLED.items()}
        out.update(self.user)
        return out

    def latest(self):
        """path of the default; None if several have the latest date"""
        sets = self.sets()
        top = max(sets.values())
        names = [n for n, d in sets.items() if d == top]
        return self.path(names[0]) if len(names) == 1 else None

    def get(self, name):
        return self.path(name) if name is not None and name in self.sets() else self.latest()


def archive(date):
    d = tuple(int(x) for x in date.replace("-", " ").replace(":", " ").split())
    return cache.archive(CONTENT, dates={p: d for p in CONTENT})


# operations in the process: f(model) -> [(what, path found, path expected)]

def op_select(name):
    def f(m):
        from punx import cache_manager
        return [("select_NXDL_file_set(%r)" % name, cache_manager.CacheManager().select_NXDL_file_set(name).path, m.get(name))]
    return f


def op_manager(name):
    def f(m):
        from punx import nxdl_manager
        return [("NXDL_Manager(%r)" % name, nxdl_manager.NXDL_Manager(name).nxdl_file_set.path, m.get(name))]
    return f


def op_validator(name):
    def f(m):
        from punx import validate
        v = validate.Data_File_Validator(name)
        v.validate(DATA)
        v.close()
        return [("Data_File_Validator(%r)" % name, v.manager.nxdl_file_set.path, m.get(name))]
    return f


def op_tree(m):
    from punx import nxdltree
    text = nxdltree.NxdlTreeView(DOC).report()
    path = [t for t in text if t.startswith("XSLT: ")][0][6:]
    return [("NxdlTreeView", os.path.dirname(os.path.dirname(path)), m.get(None))]


def op_schema(m):
    from punx import schema_manager
    return [("SchemaManager()", os.path.dirname(schema_manager.SchemaManager().schema_file), m.get(None)),
            ("get_default_schema_manager()", os.path.dirname(schema_manager.get_default_schema_manager().schema_file), m.get(None))]


def op_sets(m):
    from punx import cache_manager
    got = {n: s.path for n, s in cache_manager.CacheManager().all_file_sets.items()}
    return [("all_file_sets", got, {n: m.path(n) for n in m.sets()})]


def op_write(name, date):
    def f(m):
        cache.put_set(m.config, name, CONTENT, date=date)
        m.user[name] = date
        return []
    return f


def op_install(name, date, update=True):
    def f(m):
        from punx import cache_manager
        cache.transport(cache.by_name({name: (200, archive(date))}))
        cache_manager.download_file_set(name, pathlib.Path(cache_manager.CacheManager().user.path), replace=update)
        if update or name not in m.user:
            m.user[name] = date
        return []
    return f


def op_remove(name):
    def f(m):
        shutil.rmtree(os.path.join(m.config, "punx", name), ignore_errors=True)
        m.user.pop(name, None)
        return []
    return f


OPS = {
    "select default": op_select(None), "select v3.3": op_select("v3.3"), "select mine": op_select("mine"), "select unknown": op_select("none"), "select v2018.5": op_select("v2018.5"),
    "manager default": op_manager(None), "manager mine": op_manager("mine"), "validator default": op_validator(None), "validator v3.3": op_validator("v3.3"),
    "tree": op_tree, "schema": op_schema, "sets": op_sets,
    "write mine latest": op_write("mine", "2098-01-01 00:00:00"), "write mine old": op_write("mine", "2000-01-01 00:00:00"), "install new latest": op_install("new", "2097-01-02 03:04:06"),
    "install mine again": op_install("mine", "2018-05-15 16:34:20"), "install v2018.5 old": op_install("v2018.5", "2017-01-01 00:00:00"), "remove mine": op_remove("mine"), "remove new": op_remove("new"),
}


def query(m):
    out = []
    for f in (op_select(None), op_sets, op_schema, op_select("mine"), op_select("v2018.5"), op_select("unknown"), op_select(None), op_tree):
        out += f(m)
    return out


def compare(ch, key, results, label):
    for what, got, want in results:
        if want is None:
            continue
        a, b = (({k: os.path.realpath(v) for k, v in x.items()} if isinstance(x, dict) else os.path.realpath(x)) for x in (got, want))
        if a != b:
            ch.fail("%s:%s" % (key, what.split("(")[0]), "%s: %s gives %s, expected %s" % (label, what, got, want))


class Histories:
    """operations in one process"""
    batch = 4
    limit = 100

    def __init__(self, length, ops=None):
        self.args = [length, ops]
        self.length = length
        self.ops = ops or list(OPS)

    def execute(self, ch):
        ops = [ch.choose("op %d" % i, [Cost(0, o) for o in self.ops]) for i in range(self.length)]
        config = cache.new_config()

        def job():
            import contextlib
            import io
            import logging
            logging.disable(logging.CRITICAL)
            os.environ["XDG_CONFIG_HOME"] = config
            m = Model(config)
            out = []
            with contextlib.redirect_stdout(io.StringIO()):
                for o in ops:
                    out += OPS[o](m)
                return out + query(m)
        kind, res = forked(job, 90)
        if kind != "ok":
            ch.fail("history:%s:%s" % (kind, res[:2] if kind == "exc" else res), "%s: %s" % (ops, res))
            return
        compare(ch, "history", res, " > ".join(ops))
        shutil.rmtree(config)
        ch.observe(ops)


class Collections:
    """collections of installed sets, asked by the library and by the commands"""
    batch = 4
    limit = 200

    def __init__(self, deep=0):
        self.args = [deep]
        self.deep = deep

    def execute(self, ch):
        config = cache.new_config()
        m = Model(config)
        taken = set()
        for i in range(3):
            name = ch.choose("set %d" % i, [None] + [n for n in (NAMES if i == 0 or self.deep else ["v2018.5", "v3.3"]) if n not in taken])
            if name is None:
                break
            taken.add(name)
            m.user[name] = ch.choose("date %d" % i, [Cost(0, d) for d in DATES if d not in m.user.values()])
            cache.put_set(config, name, CONTENT, date=m.user[name])
        how = ch.choose("how", ["library", "validate", "validate NXDL", "tree", "configuration"])
        label = "%s, user sets %s" % (how, m.user)
        latest = m.latest()
        if how == "library":
            def job():
                import logging
                logging.disable(logging.CRITICAL)
                os.environ["XDG_CONFIG_HOME"] = config
                out = []
                for n in [None] + sorted(m.sets()) + ["unknown"]:
                    out += op_select(n)(m)
                return out + op_sets(m) + op_manager(None)(m) + op_tree(m) + op_schema(m)
            kind, res = forked(job, 90)
            if kind != "ok":
                ch.fail("collection:%s" % kind, "%s: %s" % (label, res))
                return
            compare(ch, "collection", res, label)
        elif latest is None:
            pass
        elif how == "configuration":
            out = cli.run(["configuration"], xdg=config)
            last = out.out.strip().splitlines()[-1].split(":")[-1].strip()
            if out.status != 0 or last != os.path.basename(latest):
                ch.fail("command:configuration", "%s: expected default %s: %r" % (label, os.path.basename(latest), out))
        elif how == "tree":
            out = cli.run(["tree", DOC], xdg=config)
            if out.status != 0 or "XSLT: " + latest + os.sep not in out.out:
                ch.fail("command:tree", "%s: expected style sheet of %s: %r" % (label, latest, out))
        else:
            for n in [None] + sorted(m.sets()):
                path = m.get(n)
                flag = [] if n is None else ["-f", n]
                if how == "validate NXDL":
                    out = cli.run(["validate", DOC] + flag, xdg=config)
                    if (out.status == 0) != nxdldocs.valid(CONTENT["base_classes/NXone.nxdl.xml"], path):
                        ch.fail("command:validate NXDL", "%s %s: %r" % (label, n, out))
                    continue
                out = cli.run(["validate", DATA] + flag, xdg=config)
                name = os.path.basename(path)
                line = "NeXus definitions: %s, dated %s," % (name, m.sets()[name])
                if out.status != 0 or line not in out.out or ("NeXus definitions version: " + name) not in out.out:
                    ch.fail("command:validate", "%s %s: expected %r: %r" % (label, flag, line, out))
        shutil.rmtree(config)
        ch.observe(how, sorted(m.user.items()))


HARNESSES = dict(Histories=Histories, Collections=Collections)


def run(ctx):
    setup()
    ctx.explore(Collections(ctx.thorough), 2 if not ctx.thorough else 3)
    ctx.explore(Histories(2 if not ctx.thorough else 3), 0)
    if not ctx.thorough:
        ctx.explore(Histories(3, ["select default", "select v3.3", "validator default", "write mine latest", "write mine old", "install mine again", "install v2018.5 old", "remove mine", "schema"]), 0)
    ctx.assumptions.append("the answer among several sets with the same latest date is not judged")
