"""V10: report, score and summary agree with the findings."""
import collections
import contextlib
import io
import itertools

from mc import report, sut, worlds
from mc.explore import Cost
from mc.h5spec import D, Files, G, Soft, Val, n, s

STATUS = ("OK", "NOTE", "WARN", "ERROR", "TODO", "UNUSED", "COMMENT", "OPTIONAL")
VALUE = dict(OK=100, NOTE=75, WARN=25, ERROR=-10000000, TODO=0, UNUSED=0, COMMENT=0, OPTIONAL=99)


def printed(v, statuses):
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding="utf-8", newline="\n", write_through=True)
    with contextlib.redirect_stdout(out):
        if statuses is None:
            v.print_report()
        else:
            v.print_report(statuses=list(statuses))
    return raw.getvalue().decode("utf8")


def clean(x):
    return str(x).strip()


def compare(v, statuses, ch, full=True):
    """the printed report, the score and the summaries against the list of findings"""
    import punx.finding
    found = [(f.h5_address, f.test_name, str(f.status), f.comment) for f in v.validations]
    text = printed(v, statuses)
    chosen = STATUS if statuses is None else statuses
    want = collections.Counter((clean(a), st, clean(t), clean(c)) for a, t, st, c in found if st in chosen)
    rows = report.findings(text)
    if rows is None:
        return ch.fail("report:table", "no table of findings in the report")
    got = collections.Counter((a, st, t, c) for a, st, t, c in rows)
    if got != want:
        ch.fail("report:rows", "statuses %s: unexpected %r, missing %r" % (statuses, list((got - want).items())[:4], list((want - got).items())[:4]))
    count = collections.Counter(st for _a, _t, st, _c in found)
    stat = report.statistics(text)
    wants = {st: count[st] for st in STATUS}
    if stat is None or {k: c for k, c in stat.items() if k != "TOTAL"} != wants or stat.get("TOTAL") != len(found):
        ch.fail("report:statistics", "statuses %s: %r, expected %r, total %d" % (statuses, stat, wants, len(found)))
    nonzero = [VALUE[st] for _a, _t, st, _c in found if VALUE[st] != 0]
    total, number = sum(nonzero), len(nonzero)
    mean = total / number if number else 0
    sc = tuple(v.finding_score())
    if sc[0] != total or sc[1] != number or abs(sc[2] - mean) > 1e-9 * max(1, abs(mean)):
        ch.fail("score", "%r, expected %r" % (sc, (total, number, mean)))
    av = report.average(text)
    if av is None or av[1] != number or abs(av[0] - mean) > 1e-5 * max(1, abs(mean)):
        ch.fail("report:average", "%r, expected %r" % (av, (mean, number)))
    obj = {st: getattr(punx.finding, st) for st in STATUS}
    for request in ([None] + ([list(chosen)] if statuses is not None else [])):
        try:
            summ = v.finding_summary() if request is None else v.finding_summary([obj[r] for r in request])
        except Exception as exc:
            ch.fail("summary:exception", "finding_summary(%r): %r" % (request, exc))
            continue
        got = {str(k): c for k, c in summ.items()}
        exp = {st: count[st] for st in (request or STATUS)}
        if got != exp:
            ch.fail("summary", "finding_summary(%r): %r, expected %r" % (request, got, exp))
    ch.observe(sorted(want.items()), statuses)


def content(k):
    nx = dict(
        full=G(None, {"default": s("entry")}, entry=G("NXentry", {"default": s("data")}, title=D("x"), data=G("NXdata", {"signal": s("counts"), "axes": s("x")}, counts=D(), x=D()), Relaxed=G("NXlog"),
               coll=G("NXcollection", None, a=D(), B=G("NXnote")), **{"0bad": D(), "lost": Soft("/nowhere")})),
        empty=G(),
        odd=G(None, {"a b": s("1"), "=": n(1)}, **{"== ==": D(), "x  y": G("NXentry", {"default": s("  two  spaces ")}), "a,b": G(), "a|b": D(), "é": D("ü"), "日本": G("NXdata", {"signal": s("日本")})}),
        app=G(None, None, entry=G("NXentry", None, definition=D("NXarpes"), sub=G("NXsubentry", None, definition=D("NXsas")))),
        plain=G(None, {"x": n(1)}, y=D(), g=G(None, None, h=D())),
    )
    return nx[k]


class Printed:
    """every selection of statuses for the findings of several files"""
    batch = 8
    limit = 60

    def execute(self, ch):
        f = ch.choose("file", ["full", "empty", "odd", "app", "plain"])
        kind = ch.choose("selection", [Cost(0, x) for x in ("default", "subset", "reversed", "repeated", "one at a time")])
        v = sut.get_validator("v2018.5")
        with sut.written(Files(content(f))) as path:
            v.validate(path)
            try:
                if kind == "default":
                    compare(v, None, ch)
                elif kind == "one at a time":
                    for st in STATUS:
                        compare(v, (st,), ch)
                        compare(v, None, ch)
                else:
                    first = ch.choose("first", [Cost(0, st) for st in STATUS])
                    subs = [c for r in range(1, 9) for c in itertools.combinations(STATUS, r) if c[0] == first]
                    for c in subs:
                        if kind == "reversed":
                            c = tuple(reversed(c))
                        if kind == "repeated":
                            c = c + c[:1]
                            if len(c) > 4:
                                continue
                        compare(v, c, ch)
                    ch.count = len(subs)
            finally:
                v.close()


class Made:
    """every list of up to three findings of any status at a few addresses"""
    batch = 8
    limit = 120

    def execute(self, ch):
        import punx.finding
        v = sut.get_validator("v2018.5")
        a = ch.choose("first", [Cost(0, st) for st in STATUS])
        same = ch.choose("addresses", [Cost(0, x) for x in ("same", "different", "attributes")])
        n_ = 0
        lists = [(a,)] + [(a, b) for b in STATUS] + [(a, b, c) for b in STATUS for c in STATUS]
        if a == "OK":
            lists.append(())
        addr = {"same": ["/entry"] * 3, "different": ["/b", "/a", "/a/c"], "attributes": ["/a@x", "/a", "/a@X"]}[same]
        v.fname = "made-up.h5"
        for sts in lists:
            v.validations = [punx.finding.Finding(addr[i], "test %d" % (i % 2), getattr(punx.finding, st), "comment %s" % (i if same != "same" else "")) for i, st in enumerate(sts)]
            for sel in (None, (a,), ("ERROR", "OK"), STATUS[::-1]):
                compare(v, sel, ch)
                n_ += 1
        v.validations = []
        ch.count = n_


class Many:
    """reports of many findings"""
    batch = 2
    limit = 200

    def __init__(self, deep=False):
        self.args = [deep]
        self.inner = worlds.Many("V10", deep)

    def execute(self, ch):
        v = sut.get_validator("v2018.5")
        with sut.written(self.inner.build(ch, None)[0]) as path:
            v.validate(path)
            try:
                for c in (None, ("OK",), ("WARN", "ERROR", "NOTE")):
                    compare(v, c, ch)
            finally:
                v.close()


class Named:
    """histories of validations, some refused, and reports: the report names the file whose findings it lists"""
    batch = 4
    limit = 100
    OPS = ["file full", "file app", "new validator", "missing file", "text file", "empty file", "directory", "close", "tree"]

    def __init__(self, length):
        self.args = [length]
        self.length = length

    def execute(self, ch):
        import os
        import punx
        import punx.h5tree
        import punx.validate
        ops = [ch.choose("op %d" % i, [Cost(0, o) for o in self.OPS]) for i in range(self.length)]
        v = sut.get_validator("v2018.5")
        own = None
        with sut.written(Files(content("full"))) as full, sut.written(Files(content("app"))) as app:
            folder = os.path.dirname(full)
            bad = {"missing file": "missing.h5", "text file": "text.h5", "empty file": "empty.h5", "directory": "dir.h5"}
            with open(os.path.join(folder, "text.h5"), "w") as f:
                f.write("no HDF5\n")
            open(os.path.join(folder, "empty.h5"), "w").close()
            os.makedirs(os.path.join(folder, "dir.h5"), exist_ok=True)
            last, rows = None, None
            try:
                for o in ops:
                    if o == "new validator":
                        if own is not None:
                            own.close()
                        v = own = punx.validate.Data_File_Validator("v2018.5")
                        last = None
                    elif o.startswith("file"):
                        last = full if o == "file full" else app
                        v.validate(last)
                        rows = sut.rows(v)
                    elif o in bad:
                        try:
                            v.validate(os.path.join(folder, bad[o]))
                            ch.fail("named:accepted", "%s: %s is not refused" % (ops, o))
                        except (punx.FileNotFound, punx.HDF5_Open_Error):
                            pass
                    elif o == "close":
                        v.close()
                    else:
                        punx.h5tree.Hdf5TreeView(app).report()
                    if last is None:
                        continue
                    now = sut.rows(v)
                    if not now and o in bad:
                        continue       # a refusal may also forget the findings
                    if now != rows:
                        ch.fail("named:findings", "%s: at %s the findings change" % (ops, o))
                    line = [x for x in printed(v, None).split("\n") if x.startswith("data file: ")]
                    if len(line) != 1 or os.path.basename(line[0]) != os.path.basename(last):
                        ch.fail("named", "%s: after %s the findings of %s are reported as of %s" % (ops, o, os.path.basename(last), line))
            finally:
                v.close()
        ch.observe(ops)


HARNESSES = dict(Printed=Printed, Made=Made, Many=Many, Named=Named)


def setup():
    sut.preload(("v2018.5",))


def run(ctx):
    setup()
    ctx.explore(Printed(), 1)
    ctx.explore(Made(), 1)
    ctx.explore(Named(4 if ctx.thorough else 3), 0)
    ctx.explore(Many(ctx.thorough), 0)
    ctx.assumptions.append("rows are compared after removing blanks at the ends of cells; contents with line breaks are covered by V01 only for printability")
