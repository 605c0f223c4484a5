"""Runs one check: explores, prints VIOLATION / KNOWN-FINDING lines, writes the evidence file."""
import importlib, json, os, sys, time, traceback

from . import env, explore

LEVELS = dict(C03="fault_enumeration", C04="fault_enumeration")


class Known:
    """the committed list of known findings: lines 'known: property=<id> key=<key> <text>'"""

    def __init__(self):
        self.items = []
        path = os.path.join(env.VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                if line.startswith("known: "):
                    p, k, text = line[len("known: "):].strip().split(" ", 2)
                    self.items.append((p.split("=", 1)[1], k.split("=", 1)[1], text))

    def match(self, prop, key):
        for p, k, text in self.items:
            if p == prop and k == key:
                return text
        return None


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.failures = {}      # key -> (message, replay)
        self.executions = 0
        self.transitions = 0
        self.states = set()
        self.nstates = 0
        self.samples = []
        self.parts = []
        self.assumptions = []
        self.exhaustive = True

    # -- exploration of a harness class instance
    def explore(self, harness, bound, label=None):
        t0 = time.time()
        label = label or type(harness).__name__
        res = explore.explore(harness, bound, seed=self.seed)
        self.executions += res.executions
        self.transitions += res.transitions
        self.states |= {label + s for s in res.sigs}
        self.samples += [dict(s, harness=label) for s in res.samples]
        self.parts.append(dict(harness=label, bound=bound, executions=res.executions, distinct=len(res.sigs),
                               choice_points=res.maxpoints, wall_s=round(time.time() - t0, 2)))
        if res.capped:
            self.exhaustive = False
        for key, msg, devs, trace in res.failures:
            self.fail(key, msg, dict(harness=label, args=getattr(harness, "args", None), devs=devs, trace=trace))
        return res

    def add(self, label, executions, transitions, sigs, samples=(), note=None):
        """account for an enumeration that is not a deviation-bounded exploration"""
        self.executions += executions
        self.transitions += transitions
        self.states |= {label + str(s) for s in sigs}
        self.samples += list(samples)
        self.parts.append(dict(harness=label, executions=executions, distinct=len(set(sigs)), note=note))

    def fail(self, key, msg, replay):
        if key not in self.failures:
            self.failures[key] = (msg, replay)


def write_evidence(ctx, wall, nviol):
    level = LEVELS.get(ctx.prop, "model_checking")
    cov = dict(samples=ctx.samples[:12], parts=ctx.parts, exhaustive=ctx.exhaustive)
    if level == "model_checking":
        cov.update(states=len(ctx.states), transitions=ctx.transitions, traces_validated_against_impl=ctx.executions)
    else:
        cov.update(evaluations=ctx.executions, distinct_nontrivial=len(ctx.states),
                   rule=getattr(ctx, "rule", "one execution per fault position; distinct by resulting state of the cache directory"),
                   fault_points=ctx.transitions)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=ctx.assumptions, wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    path = os.path.join(env.VERIF, "evidence", ctx.prop + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=repr)


SHIM = ("C03", "C04", "C06")


def main(argv):
    t0 = time.time()
    if (json.load(open(argv[1]))["property"] if argv[:1] == ["--replay"] else argv[0]) in SHIM:
        from . import shim
        shim.ensure()
    env.setup()
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Context(prop, tier, seed)
    try:
        mod = importlib.import_module("checks." + prop)
        mod.run(ctx)
    except Exception as exc:
        where = explore.punx_frame(exc.__traceback__)
        if where is None:
            traceback.print_exc()
            return 2
        ctx.exhaustive = False
        ctx.fail("exception:%s:%s" % (type(exc).__name__, where),
                 "punx failed while the check was being set up: " + traceback.format_exc(limit=-6), dict(setup=True))
    known = Known()
    nviol = 0
    rdir = os.path.join(env.VERIF, "replays")
    lines = []
    for n, (key, (msg, rep)) in enumerate(sorted(ctx.failures.items(), key=lambda kv: len(str(kv[1][1])))):
        text = known.match(prop, key)
        if text is not None:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, text))
            continue
        nviol += 1
        if nviol > 12:
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, nviol))
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, key=key, message=msg, replay=rep), f, indent=1, default=repr)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        lines.append("  key: %s" % key)
        lines.append("  " + str(msg)[:1500].replace("\n", "\n  "))
        lines.append("  case: %s" % str(rep)[:800])
    wall = time.time() - t0
    write_evidence(ctx, wall, nviol)
    print("%s %s: %d executions, %d states, %d transitions, %d violations, %.1f s" % (
        prop, tier, ctx.executions, len(ctx.states), ctx.transitions, nviol, wall))
    for p in ctx.parts:
        print("   ", p)
    print("\n".join(lines))
    return 1 if nviol else 0


def replay(path):
    rec = json.load(open(path))
    mod = importlib.import_module("checks." + rec["property"])
    rep = rec["replay"]
    print("recorded:", rec["key"], "-", rec["message"])
    print("case:", json.dumps(rep, indent=1))
    if "devs" not in rep:
        fn = getattr(mod, "replay", None)
        if fn is None:
            print("re-run the check to reproduce (the case above is complete)")
            return 0
        return fn(rep)
    getattr(mod, "setup", lambda: None)()
    harness = mod.HARNESSES[rep["harness"]](*(rep.get("args") or []))
    outs = []
    for _ in range(2):
        ch = explore.run_one(harness, [tuple(d) for d in rep["devs"]])
        outs.append([k for k, _m in ch.fails])
        for k, m in ch.fails:
            print("REPRODUCED" if k == rec["key"] else "ALSO", k, m)
    assert outs[0] == outs[1], "replay is not deterministic"
    return 1 if outs[0] else 0


if __name__ == "__main__":
    code = 2
    try:
        code = main(sys.argv[1:])
    finally:
        sys.stdout.flush()
    sys.exit(code)
