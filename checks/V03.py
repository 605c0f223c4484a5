"""V03: findings do not depend on what the process did before.  Every history of operations up to a depth, in real processes."""
import contextlib
import io
import os
import time

from mc import cache, env, explore, h5spec, sut, synth, worlds
from mc import nxdlref
from mc.explore import Cost
from mc.proc import forked, result
from mc.h5spec import D, Ext, Files, G, Hard, Soft, T, Val, n, s

REFERENCE = {}


def files():
    nx = G(None, {"default": s("entry")}, entry=G("NXentry", {"default": s("data"), "kind": s("raw")}, title=D("x"),
           data=G("NXdata", {"signal": s("counts"), "axes": s("x")}, counts=D(), x=D()), Relaxed=G("NXlog"), coll=G("NXcollection", None, a=D(), B=G("NXnote")),
           **{"a.b": D(), "0bad": D(), "12_": D(), "odd": G("NX-9"), "odd2": G("NXnote", None, aB=D())}))
    app = G(None, None, entry=G("NXentry", None, definition=D("NXarpes"), title=D("t"), sub=G("NXsubentry", None, definition=D("NXapp"), mode=D("two"))),
            second=G("NXentry", None, definition=D("NXnone"), foo=G("NXfoo", {"units": s("mm"), "one": s("2")}, a=D(), a_group=G("NXbar"))))
    old = G(None, None, plain=G(None, {"x": n(1)}, y=D()), data=G("NXdata", {"signal": s("bad")}, counts=D(None, {"signal": n(1), "target": s("/data/counts")}), lost=Soft("/nowhere")))
    two = G(None, None, entry=G("NXentry", None, m=G("NXmonitor", None, a=D(None, {"signal": s("1")}), b=D(None, {"signal": n(2)}), l=Soft("/entry/m")),
            d=G("NXdata", {"signal": s("zero"), "axes": Val("S", [".", "x"])}, x=D()), c=G("NXcanSAS"), r=G("NXreflections"), data=G("NXarpes")))
    wide = G(None, None, **{"e%d" % i: G("NXentry", {"default": s("data")}, data=G("NXdata", {"signal": s("x%d" % i)}, x0=D()), title=D("t")) for i in range(3)})
    shapes = {"g%d" % i: G(c, {"units": s("mm"), "one": s("1"), "signal": s("a"), "default": s("b")}, a=D(), counts=D(), title=D("x"), foo=G("NXbar"))
              for i, c in enumerate(sorted({c for _cat, c in synth.classes()}))}
    shapes.update({"e%d" % i: G("NXentry", {"kind": s("raw"), "default": s("data")}, definition=D(c), title=D("t"), start_time=D("t"), mode=D("one"), x=D(), second=D(), data=G("NXdata", {"signal": s("y")}, y=D(), inner=D()))
                   for i, c in enumerate(sorted({c for _cat, c in synth.classes()}))})
    every = G(None, None, **shapes)
    out = {}
    for name, root in (("every", every), ("nx", nx), ("app", app), ("old", old), ("two", two), ("wide", wide)):
        out[name] = h5spec.write(root, os.path.join(env.SCRATCH, name + ".h5"))
    with open(os.path.join(env.SCRATCH, "text.h5"), "w") as f:
        f.write("this is not HDF5\n" * 200)
    with open(os.path.join(env.SCRATCH, "broken.h5"), "wb") as f:
        f.write(open(out["nx"], "rb").read()[:700])
    return out


class Process:
    """what one process of the system under test does"""

    def __init__(self):
        self.validators = {}
        self.trees = {}

    def validator(self, name):
        import punx.validate
        if name not in self.validators:
            self.validators[name] = punx.validate.Data_File_Validator(name)
        return self.validators[name]

    def findings(self, v, path):
        v.validate(path)
        r = (sorted((a or "", t, st, c) for a, t, st, c in sut.rows(v)), sorted((k, sorted(x.h5_address or "" for x in i)) for k, i in v.classpaths.items()),
             sorted(a or "" for a in v.addresses), v.finding_score(), sorted((str(k), c) for k, c in v.finding_summary().items()))
        return r

    def do(self, op):
        import punx
        import punx.validate
        kind = op[0]
        if kind == "validate":
            _k, f, name = op
            return self.findings(self.validator(name), PATHS[f])
        if kind == "new":
            _k, f, name = op
            import punx.validate
            v = punx.validate.Data_File_Validator(name)
            try:
                return self.findings(v, PATHS[f])
            finally:
                v.close()
        if kind == "fail":
            _k, f, name = op
            try:
                self.validator(name).validate(os.path.join(env.SCRATCH, f))
            except (punx.FileNotFound, punx.HDF5_Open_Error):
                pass
            return None
        if kind == "load":
            import punx.nxdl_manager
            punx.nxdl_manager.NXDL_Manager(op[1])
            return None
        if kind == "select":
            import punx.cache_manager
            punx.cache_manager.CacheManager().select_NXDL_file_set(op[1])
            return None
        if kind == "close":
            self.validator(op[1]).close()
            return None
        if kind == "report":
            v = self.validator(op[1])
            if v.validations:
                with contextlib.redirect_stdout(io.StringIO()):
                    v.print_report(["ERROR"])
            return None
        if kind == "summary":
            v = self.validator(op[1])
            import punx.finding
            v.finding_summary([punx.finding.OK])
            v.finding_score()
            return None
        if kind == "tree":
            import punx.h5tree
            t = punx.h5tree.Hdf5TreeView(PATHS[op[1]])
            t.array_items_shown = 3
            t.report(False)
            return None
        if kind == "nxdltree":
            import punx.nxdltree
            punx.nxdltree.NxdlTreeView("/repo/punx/cache/v3.3/base_classes/NXdata.nxdl.xml").report()
            return None
        if kind == "default":
            import punx.validate
            v = punx.validate.Data_File_Validator()
            v.validate(PATHS["nx"])
            v.close()
            return None
        raise ValueError(op)


PATHS = {}
WARM = Process()      # in the parent of all workers: sets that are loaded before the history begins


def alphabet(size, sets):
    if size in ("small", "classes"):
        if size == "classes":
            return [("validate", "every", x) for x in sets] + [("new", "every", sets[0]), ("close", sets[0]), ("load", sets[1])]
        return ([("validate", f, x) for x in sets for f in ("nx", "app", "old")]
                + [("fail", "text.h5", sets[0]), ("close", sets[0]), ("load", sets[1]), ("report", sets[0]), ("tree", "two")])
    ops = [("validate", f, x) for x in sets for f in (("nx", "app", "old", "two", "wide"))]
    ops += [("new", "nx", sets[0]), ("new", "app", sets[1])]
    ops += [("fail", "missing.h5", sets[0]), ("fail", "text.h5", sets[0]), ("fail", "broken.h5", sets[1]), ("close", sets[0]), ("load", sets[1]), ("select", sets[1]), ("report", sets[0]), ("summary", sets[0]), ("tree", "nx"),
            ("nxdltree",)]
    if size == "large":
        ops += [("default",), ("load", "v3.3"), ("select", None), ("tree", "two"), ("report", sets[1])]
    return ops


def subtree(proc, history, depth, ops, out):
    """all continuations of the history (already executed in this process)"""
    for op in ops:
        if depth == 1 and op[0] not in ("validate", "new"):
            continue      # nothing to compare

        def step(op=op):
            mine = dict(n=0, bad=[], leaves=0, sigs=set())
            run_op(proc, history + (op,), mine)
            if depth > 1:
                subtree(proc, history + (op,), depth - 1, ops, mine)
            return mine
        kind, res = forked(step)
        if kind != "ok":
            raise RuntimeError(res[2])
        merge(out, res)


def merge(out, res):
    out["n"] += res["n"]
    out["bad"] += res["bad"][:20]
    out["sigs"] |= res["sigs"]


def run_op(proc, history, out):
    op = history[-1]
    out["n"] += 1
    try:
        got = proc.do(op)
    except Exception as exc:
        where = explore.punx_frame(exc.__traceback__)
        if where is None:
            raise
        out["bad"].append(("exception:%s:%s" % (type(exc).__name__, where), "%s: %s" % (type(exc).__name__, exc), history))
        return
    if got is not None:
        want = REFERENCE[(op[1], op[2])]
        out["sigs"].add(hash((op, repr(got))))
        if got != want:
            what = [n_ for n_, a, b in zip(("findings", "class paths", "addresses", "score", "summary"), got, want) if a != b]
            d = ""
            if what[0] == "findings":
                a, b = set(got[0]), set(want[0])
                d = "unexpected %s, missing %s" % (sorted(a - b)[:3], sorted(b - a)[:3])
            out["bad"].append(("differs:%s" % what[0], "%s differ after this history: %s" % (", ".join(what), d), history))


def task(args):
    warm, prefix, depth, ops = args

    def job():
        proc = WARM if warm else Process()
        out = dict(n=0, bad=[], sigs=set())
        for i in range(len(prefix)):
            run_op(proc, prefix[:i + 1], out)
        if depth > 0:
            subtree(proc, prefix, depth, ops, out)
        return out
    return forked(job)


def reference(args):
    f, name = args

    def job():
        proc = Process()
        return proc.findings(proc.validator(name), PATHS[f])
    return forked(job)


def fresh_imports():
    """modules are imported, nothing is loaded: the state of a new process"""
    import punx.validate, punx.h5tree, punx.nxdltree, punx.nxdl_manager  # noqa
    import punx.validations.application_definition, punx.validations.attribute, punx.validations.default_plot  # noqa


def made_up():
    synth.standard()
    # as many patterns for names as synth has, but other ones
    synth.install("synth2", "2001-01-03 00:00:00", synth.classes("0"), patterns=["[A-Za-z_]+[0-9]?"], classname="NX[a-z].+")
    # the same names of classes, each with the content of another, some of another category
    turned = {}
    for cat in nxdlref.CATEGORIES:
        mine = [(c, text) for (k, c), text in synth.classes("0").items() if k == cat and c not in ("NXobject", "NXroot", "NXentry")]
        for i, (c, _text) in enumerate(mine):
            turned["contributed_definitions" if c in ("NXfoobar", "NXapp3") else "base_classes" if c == "NXc_entry" else cat, c] = mine[(i + 1) % len(mine)][1]
    for c in ("NXobject", "NXroot", "NXentry"):
        turned["base_classes", c] = synth.classes("0")["base_classes", c].replace("'raw'", "'rough'").replace('"raw"', '"rough"')
    synth.install("synth3", "2001-01-04 00:00:00", turned)


class Replaced:
    """the file, or the definitions set, is replaced by another of the same name between validations"""
    batch = 2
    limit = 200
    REF = {}

    def __init__(self, depth):
        self.args = [depth]
        self.depth = depth

    @staticmethod
    def root(kind):
        if kind == "one":
            return G(None, None, entry=G("NXentry", None, data=G("NXdata", {"signal": s("x")}, x=D()), g=G("NXone"), h=G("NXtwo"), title=D()))
        return G(None, {"default": s("none")}, entry=G("NXentry", None, data=G("NXdata", {"signal": s("bad")}, X=D()), g=G("NXtwo", None, title=D()), o=G("NXone")), more=G("NXentry"))

    @staticmethod
    def put(config, version):
        path = os.path.join(config, "punx", "mine")
        if os.path.exists(path):
            os.rename(path, path + ".before")
        cache.put_set(config, "mine", cache.real_content(version), date="2001-01-01 00:00:00")
        if os.path.exists(path + ".before"):
            import shutil
            shutil.rmtree(path + ".before")

    @classmethod
    def reference(cls):
        for f in ("one", "two"):
            for d in ("one", "two"):
                def job():
                    config = cache.new_config()
                    os.environ["XDG_CONFIG_HOME"] = config
                    cls.put(config, d)
                    path = h5spec.write(cls.root(f), os.path.join(env.workdir(), "reference.h5"))
                    import punx.validate
                    return Process().findings(punx.validate.Data_File_Validator("mine"), path)
                kind, res = forked(job)
                if kind != "ok":
                    return res
                cls.REF[f, d] = res

    def execute(self, ch):
        steps = ["new"] + [ch.choose("step %d" % i, [Cost(0, x) for x in ("again", "file", "set", "new", "close")]) for i in range(self.depth)]

        def job():
            import punx.validate
            config = cache.new_config()
            os.environ["XDG_CONFIG_HOME"] = config
            path = os.path.join(env.workdir(), "replaced.h5")
            now = dict(file="one", set="one")
            self.put(config, "one")
            h5spec.write(self.root("one"), path)
            out, v, known = [], None, None
            for i, step in enumerate(steps):
                if step in now:
                    now[step] = "two" if now[step] == "one" else "one"
                if step == "set":
                    self.put(config, now["set"])
                elif step == "file":
                    h5spec.write(self.root(now["file"]), path + ".new")
                    os.replace(path + ".new", path)
                elif step == "close":
                    v.close()
                else:
                    if step == "new":
                        v, known = punx.validate.Data_File_Validator("mine"), now["set"]
                    out.append((steps[:i + 1], (now["file"], known), Process().findings(v, path)))
            v.close()
            return out
        for done, key, got in result(ch, job) or ():
            if got != self.REF[key]:
                extra = sorted(set(got[0]) - set(self.REF[key][0]))[:3]
                ch.fail("replaced:" + done[-1], "after %s, file %s and set %s: unexpected %s, missing %s" % (", ".join(done), *key, extra, sorted(set(self.REF[key][0]) - set(got[0]))[:3]))
        ch.observe(steps)


HARNESSES = dict(Replaced=Replaced)


def setup():
    os.makedirs(env.user_cache(), exist_ok=True)
    fresh_imports()
    return Replaced.reference()


def run(ctx):
    trouble = setup()
    if trouble:
        raise_or_fail(ctx, trouble, "reference")
        return
    ctx.explore(Replaced(6 if ctx.thorough else 4), 0)
    made_up()
    PATHS.update(files())
    fresh_imports()
    plans = [(("synth", "synth1"), (), 1, "medium"), (("synth2", "synth"), (), 1, "medium"), (("synth", "synth3"), (), 2, "classes"), (("synth3", "v2018.5"), (), 2, "classes"), (("a4fd52d", "synth1"), (), 1, "small"), (("synth", "synth2"), ("synth", "synth2"), 2, "small"),
             (("v2018.5", "a4fd52d"), ("synth", "synth1", "v2018.5", "a4fd52d"), 1, "medium")]
    if ctx.thorough:
        plans = [(("synth", "synth1"), (), 2, "medium"), (("synth2", "synth"), (), 2, "medium"), (("synth", "synth3"), (), 3, "classes"), (("synth3", "v2018.5"), (), 2, "classes"), (("a4fd52d", "v2018.5"), (), 1, "large"), (("synth", "synth1"), ("synth", "synth1"), 2, "large"),
                 (("synth", "synth1"), ("synth", "synth1"), 3, "small"), (("v2018.5", "a4fd52d"), ("synth", "synth1", "v2018.5", "a4fd52d", "v3.3"), 2, "small")]
    keys = sorted({(f, x) for sets, _w, _d, _s in plans for x in sets for f in PATHS})
    for k, (kind, res) in zip(keys, explore.pmap(reference, keys, ctx.seed)):
        if kind != "ok":
            raise_or_fail(ctx, res, k)
            return
        REFERENCE[k] = res
    if len({repr(v) for v in REFERENCE.values()}) < len(PATHS) + 2:
        raise RuntimeError("the files and sets are not distinguished by their findings")
    for sets, warm, depth, size in plans:
        ops = alphabet(size, sets)
        for w in warm:
            WARM.validator(w)
        jobs = [(warm, (a,), depth, ops) for a in ops]
        n_, sigs, bad, t0 = 0, set(), [], time.time()
        for kind, res in explore.pmap(task, jobs, ctx.seed):
            if kind != "ok":
                raise RuntimeError(res[2])
            n_ += res["n"]
            sigs |= res["sigs"]
            bad += res["bad"]
        bad.sort(key=lambda b: (len(b[2]), b[2]))
        for key, msg, hist in bad:
            ctx.fail(key, msg, dict(warm=warm, history=hist, files="checks/V03.py:files"))
        label = "histories of %d operations%s, sets %s" % (depth + 1, " after loading " + ", ".join(warm) if warm else "", ", ".join(sets))
        ctx.add(label, n_, n_, sigs, [dict(history=[ops[0], ops[3], ops[-2]][:depth + 1], harness=label)],
                note="%.1f s" % (time.time() - t0))
    ctx.assumptions.append("a history is executed in a forked process of its own; the reference findings come from a process that did nothing else")


def raise_or_fail(ctx, res, what):
    if res[1] is None:
        raise RuntimeError(res[2])
    ctx.fail("exception:%s:%s" % (res[0], res[1]), res[2], dict(case=what))


def replay(rep):
    os.makedirs(env.user_cache(), exist_ok=True)
    made_up()
    PATHS.update(files())
    fresh_imports()
    hist = tuple(tuple(h) for h in rep["history"])
    for op in hist:
        if op[0] in ("validate", "new"):
            REFERENCE[(op[1], op[2])] = reference((op[1], op[2]))[1]
    for w in rep["warm"]:
        WARM.validator(w)
    kind, res = task((tuple(rep["warm"]), hist, 0, []))
    for b in res["bad"]:
        print("REPRODUCED", b)
    return 1 if res["bad"] else 0
