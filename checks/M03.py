"""M03: validate --report shows exactly the chosen findings."""
import collections
import itertools
import os

from mc import cache, cli, env, h5spec, report
from mc.explore import Cost
from mc.h5spec import D, G, Soft, n, s
from checks import C02, M02

STATUSES = ["OK", "NOTE", "WARN", "ERROR", "TODO", "UNUSED", "COMMENT", "OPTIONAL"]
CONFIG = None
FILES = {}
FULL = {}


def setup():
    global CONFIG
    C02.setup()
    CONFIG = os.path.join(env.SCRATCH, "config")
    content = dict(C02.CONTENT["one"])
    cache.put_set(CONFIG, "mine", content, date="2099-01-01 00:00:00")
    folder = os.path.join(env.SCRATCH, "files")
    os.makedirs(folder)
    few = G(None, {"default": s("entry")}, entry=G("NXentry"))
    dup = G(None, None, a=G("NXentry", None, d=D(1, {"target": s("/nowhere"), "x y": n(1)}), c=G("NXcollection", None, z=D()), n=G("NXnote"), definition=D("NXapp")), b=G("NXnone", {"signal": s("q")}), l=Soft("/a/d"), t=h5spec.T({"k": n(1)}), **{"9": D(), "a b": D()})
    for name, root in (("full", M02.full_file()), ("few", few), ("many", dup), ("nothing", G())):
        FILES[name] = os.path.join(folder, name + ".h5")
        h5spec.write(root, FILES[name])
    met = set()
    for name in FILES:
        FULL[name] = validate(name, [])
        met |= set(r[1] for r in report.findings(FULL[name].out))
        if FULL[name].status != 0:
            raise RuntimeError(repr(FULL[name]))
    if len(met) < 6:
        raise RuntimeError("the files give findings only of %s" % met)


def validate(name, opts):
    return cli.run(["validate", FILES[name]] + opts, xdg=CONFIG)


def case(word, how):
    return {"upper": word.upper(), "lower": word.lower(), "capital": word.capitalize(), "mixed": "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(word))}[how]


class Choice:
    """a set of statuses, in an order and letter case"""
    batch = 4
    limit = 300

    def __init__(self, kind):
        self.args = [kind]
        self.kind = kind

    def execute(self, ch):
        name = ch.choose("file", list(FILES) if self.kind == "subsets" else [Cost(0, "full"), Cost(0, "many")])
        if self.kind == "subsets":
            bits = ch.choose("statuses", [Cost(0, b) for b in range(1, 256)])
            chosen = [x for i, x in enumerate(STATUSES) if bits >> i & 1]
            if ch.choose("order", ["up", "down"]) == "down":
                chosen.reverse()
        elif self.kind == "orders":
            k = ch.choose("number", [Cost(0, 2), Cost(0, 3)])
            chosen = list(ch.choose("order", [Cost(0, p) for p in itertools.permutations(STATUSES, k)] if k == 2 else [Cost(0, p) for p in itertools.permutations(["OK", "NOTE", "ERROR", "TODO"], 3)]))
        else:
            chosen = list(ch.choose("repeated", [Cost(0, p) for p in itertools.product(["OK", "ERROR", "OPTIONAL"], repeat=3)]))
        how = ch.choose("case", ["lower", "upper", "capital", "mixed"])
        form = ch.choose("form", ["--report=", "--report", "--rep", "before"])
        word = ",".join(case(x, how) for x in chosen)
        opts = {"--report=": ["--report=" + word], "--report": ["--report", word], "--rep": ["--rep", word], "before": ["--report", "ok", "--report", word]}[form]
        out = validate(name, opts)
        label = "%s %s" % (name, " ".join(opts))
        want = [r for r in report.findings(FULL[name].out) if r[1] in chosen]
        got = report.findings(out.out)
        if out.status != 0 or out.traceback or got is None and want:
            ch.fail("status", "%s: %r" % (label, out))
            return
        a, b = collections.Counter(want), collections.Counter(got or [])
        if a != b:
            ch.fail("findings", "%s: missing %s, too many %s" % (label, list((a - b).elements())[:5], list((b - a).elements())[:5]))
        if [r[:2] for r in got or []] != [r[:2] for r in want]:
            ch.fail("order", "%s: the findings come in another order" % label)
        for what in (report.statistics, report.average):
            if what(out.out) != what(FULL[name].out):
                ch.fail("statistics", "%s: %s, all findings: %s" % (label, what(out.out), what(FULL[name].out)))
        stats = report.statistics(out.out)
        counted = collections.Counter(r[1] for r in report.findings(FULL[name].out) or [])
        if stats is None or {k: v for k, v in stats.items() if v and k != "TOTAL"} != dict(counted) or stats["TOTAL"] != sum(counted.values()):
            ch.fail("statistics", "%s: statistics %s, findings %s" % (label, stats, dict(counted)))
        ch.observe(name, sorted(set(chosen)))


BAD = ["", " ", "none", "OKAY", "O", "K", "ERRORS", "ERR", "OK NOTE", "OK;NOTE", " ok", "ok ", "all", "*", "0", "100", "-", "\u00e4", "'OK'", "OK\n", "passed", "unused finding", "ALL", "True", "[OK]", "OK|NOTE"]


class Unknown:
    """one member of the list is not a status"""
    batch = 4
    limit = 300

    def __init__(self):
        self.args = []

    def execute(self, ch):
        bad = ch.choose("unknown", [Cost(0, b) for b in BAD])
        around = ch.choose("others", [Cost(0, o) for o in ([], ["ok"], ["ERROR", "note"], STATUSES)])
        at = ch.choose("place", [Cost(0, i) for i in range(len(around) + 1)])
        word = ",".join(list(around[:at]) + [bad] + list(around[at:]))
        out = validate("full", ["--report=" + word])
        label = "--report=%r" % word
        if out.status in (0, None):
            ch.fail("accepted", "%s: %r" % (label, out))
        if report.findings(out.out) is not None or report.statistics(out.out) is not None:
            ch.fail("report", "%s: a report is printed: %r" % (label, out))
        if out.traceback or not out.err.strip():
            ch.fail("message", "%s: %r" % (label, out))
        ch.observe(bad, out.status)


HARNESSES = dict(Choice=Choice, Unknown=Unknown)


def run(ctx):
    setup()
    ctx.explore(Choice("subsets"), 1 if not ctx.thorough else 2)
    ctx.explore(Choice("orders"), 1)
    ctx.explore(Choice("repeated"), 1)
    ctx.explore(Unknown(), 0)
