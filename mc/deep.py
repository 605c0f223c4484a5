"""Files with groups nested far deeper than usual, or with very many items; what is known of them is computed without a model of the rules."""
import os

from . import env, sut
from .explore import Cost

PATTERNS = {"NeXus": ["NXcollection"], "plain": [None], "mixed": ["NXentry", "NXnote", "NXcollection"], "plain at the end": ["NXentry", "NXnote"]}
BOTTOM = ["nothing", "field", "link to the root", "link to itself", "broken link", "two groups"]


class Deep:
    batch = 1
    limit = 300

    def __init__(self, prop, depths):
        self.args = [prop, list(depths)]
        self.prop, self.depths = prop, list(depths)

    def execute(self, ch):
        import h5py
        depth = ch.choose("depth", [Cost(0, d) for d in self.depths])
        pattern = ch.choose("classes", list(PATTERNS))
        bottom = ch.choose("at the end", BOTTOM)
        beside = ch.choose("beside each group", [None, "field"]) if depth < 2000 else None
        path = os.path.join(env.workdir(), "deep.h5")
        addr, cp = "", ""
        want, lines = {"/": ""}, []
        missing = []

        def add(obj, indent):
            nonlocal cp
            nx = PATTERNS[pattern][level % len(PATTERNS[pattern])]
            if pattern == "plain at the end" and level >= depth - 2:
                nx = None
            if nx:
                obj.attrs["NX_class"] = nx
            if cp is None or not nx:
                cp = None
            else:
                cp = cp + "/" + nx
            want[addr] = cp or "non-NeXus content"
            if cp:
                want[addr + "@NX_class"] = cp + "@NX_class"
            lines.append((indent, addr.rpartition("/")[2] + (":" + nx if nx else "")))
        with h5py.File(path, "w") as f:
            g = f
            for level in range(depth):
                if beside:
                    g.create_dataset("a", data=level)
                    want[addr + "/a"] = cp + "/a" if cp is not None else "non-NeXus content"
                    lines.append((level + 1, "a:"))
                g = g.create_group("g")
                addr += "/g"
                add(g, level + 1)
            indent, inside = depth + 1, cp if cp is not None else None
            end = addr
            if bottom == "field":
                g.create_dataset("end", data=5)
                want[end + "/end"] = inside + "/end" if inside else "non-NeXus content"
                lines.append((indent, "end:"))
            elif bottom.startswith("link"):
                g["end"] = h5py.SoftLink("/" if "root" in bottom else end)
                lines.append((indent, "end: -->"))
            elif bottom == "broken link":
                g["end"] = h5py.SoftLink("/none")
                missing.append(end + "/end")
                lines.append((indent, "end: -->"))
            elif bottom == "two groups":
                for x in ("p", "q"):
                    level, addr, cp = depth, end + "/" + x, inside
                    add(g.create_group(x), indent)
        label = "%d groups in each other (%s), in the last: %s; beside: %s" % (depth, pattern, bottom, beside)
        try:
            getattr(self, "judge_" + self.prop)(ch, path, want, missing, lines, label)
        finally:
            os.unlink(path)
        ch.observe(label)

    def judge_V01(self, ch, path, want, missing, lines, label):
        r = sut.validate(path, "v2018.5", report=True)
        if "summary statistics" not in r.report or not r.findings:
            ch.fail("report", "%s: no report" % label)

    def judge_V02(self, ch, path, want, missing, lines, label):
        r = sut.validate(path, "v2018.5")
        found = {a: k for k, items in r.classpaths.items() for a in items if a is not None}
        if sorted(set(r.addresses)) != sorted(want):
            miss, more = set(want) - set(r.addresses), set(r.addresses) - set(want)
            ch.fail("catalogue", "%s: %d items missing, %d too many: ...%s" % (label, len(miss), len(more), [x[-30:] for x in sorted(miss | more, key=len)[:3]]))
            return
        for a, k in want.items():
            if found.get(a) != k:
                ch.fail("class path", "%s: class path of ...%s (%d long) is ...%s, expected ...%s" % (label, a[-30:], len(a), str(found.get(a))[-60:], k[-60:]))
                return

    def judge_T01(self, ch, path, want, missing, lines, label):
        import punx.h5tree
        bare = punx.h5tree.Hdf5TreeView(path).report(False)
        full = punx.h5tree.Hdf5TreeView(path).report(True)
        # each level's own items come before its groups or after them
        got = [(len(x) - len(x.lstrip())) // 2 for x in bare[1:]], [x.strip() for x in bare[1:]]
        if len(bare) != len(lines) + 1:
            ch.fail("lines", "%s: %d lines, expected %d; the last is %r" % (label, len(bare), len(lines) + 1, bare[-1].strip()))
            return
        if sorted(got[0]) != sorted(x[0] for x in lines):
            ch.fail("indentation", "%s: indentation of the lines" % label)
        seen = sorted(zip(*got))
        for (i, text), (j, start) in zip(seen, sorted(lines)):
            if i != j or not (text.startswith(start) if start.endswith((":", ">")) else text == start):
                ch.fail("lines", "%s: level %d shows %r, expected %s" % (label, i, text, start))
                return
        stack = []
        for i, text in zip(*got):     # a line is below the group that holds it
            if i > len(stack) + 1:
                ch.fail("place", "%s: %r is not below its group" % (label, text))
                return
            del stack[i - 1:]
            stack.append(text)
        attrs = [x for x in full if x.strip().startswith("@")]
        if [x for x in full if not x.strip().startswith("@")] != bare or len(attrs) != sum(":NX" in t for _i, t in lines):
            ch.fail("attributes", "%s: %d attribute lines" % (label, len(attrs)))
