"""
Stateless, deviation-bounded exploration.

A harness is an object with ``execute(ch)``; it asks ``ch.choose(label, menu)`` at each choice point and
returns nothing, reporting disagreements with ``ch.fail(key, message)``.  Menu member 0 is the default
(cost 0); every other member costs 1 unless it is wrapped in ``Cost``.  ``explore`` runs every choice
sequence whose total cost is within the bound, on all cores.
"""
import gc, hashlib, multiprocessing, os, random, resource, signal, sys, time, traceback


class Cost:
    def __init__(self, cost, value):
        self.cost, self.value = cost, value


class Divergence(Exception):
    """a recorded choice does not fit the execution: the harness is not deterministic"""


class Hang(BaseException):
    """the execution exceeded its time limit"""


class Chooser:
    def __init__(self, devs):
        self.devs = dict(devs)
        self.points = []      # costs of the alternatives at each point
        self.trace = []       # (label, repr(choice)) of non-default choices
        self.fails = []
        self.sig = None
        self.count = 1
        self.lastdev = max(self.devs) if self.devs else -1

    def choose(self, label, menu):
        menu = list(menu)
        i = len(self.points)
        k = self.devs.get(i, 0)
        if k >= len(menu):
            raise Divergence("choice %d at point %d (%s) of %d" % (k, i, label, len(menu)))
        self.points.append([m.cost if isinstance(m, Cost) else 1 for m in menu[1:]])
        v = menu[k]
        if isinstance(v, Cost):
            v = v.value
        if k:
            self.trace.append((label, repr(v)))
        return v

    def fail(self, key, message):
        self.fails.append((key, message))

    def observe(self, *things):
        """what distinguishes this execution (for the count of distinct states)"""
        h = hashlib.sha1(repr(things).encode("utf8", "backslashreplace"))
        self.sig = h.hexdigest()[:16] if self.sig is None else hashlib.sha1((self.sig + h.hexdigest()).encode()).hexdigest()[:16]


def punx_frame(tb):
    """innermost frame of the traceback inside the package under test, or None"""
    where = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith("/repo/punx/"):
            where = "%s:%s" % (os.path.relpath(f.filename, "/repo"), f.name)
    return where


def _alarm(_s, _f):
    raise Hang()


def run_one(harness, devs, limit=None):
    """one execution; exceptions that come out of punx are failures, others are errors of the harness"""
    limit = limit or getattr(harness, "limit", 30)
    ch = Chooser(devs)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        harness.execute(ch)
        if ch.lastdev >= len(ch.points):
            raise Divergence("recorded choice at point %d, execution has %d" % (ch.lastdev, len(ch.points)))
    except Hang:
        ch.fail("hang", "execution did not finish within %s s" % limit)
    except Divergence:
        raise
    except Exception as exc:
        where = punx_frame(exc.__traceback__)
        if where is None:
            raise
        ch.fail("exception:%s:%s" % (type(exc).__name__, where),
                "unexpected %s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc(limit=-6)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return ch


_HARNESS = None


def _init(seed):
    random.seed(seed)
    lim = 8 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    devnull = os.open(os.devnull, os.O_RDONLY)
    os.dup2(devnull, 0)
    os.close(devnull)


def _batch(args):
    out = []
    for devs in args:
        try:
            ch = run_one(_HARNESS, devs)
        except Exception:
            return ("error", devs, traceback.format_exc())
        out.append((devs, ch.points, ch.fails, ch.sig, ch.trace, ch.count))
    return ("ok", out)


def ncpu():
    return max(1, min(8, os.cpu_count() or 1))


class Explored:
    def __init__(self):
        self.executions = 0
        self.transitions = 0
        self.sigs = set()
        self.failures = []    # (key, message, devs, trace)
        self.samples = []
        self.bound = 0
        self.maxpoints = 0
        self.capped = False


def explore(harness, bound, seed=0, max_failures=40, batch=None):
    """every execution of harness with total deviation cost <= bound"""
    global _HARNESS
    _HARNESS = harness
    res = Explored()
    res.bound = bound
    ctx = multiprocessing.get_context("fork")
    rng = random.Random(seed)
    batch = batch or getattr(harness, "batch", 16)
    gc.collect()
    gc.freeze()       # the definitions sets stay shared with the workers
    with ctx.Pool(ncpu(), initializer=_init, initargs=(seed,)) as pool:
        frontier = [((), 0)]
        while frontier:
            rng.shuffle(frontier)
            cost_of = {d: c for d, c in frontier}
            work = [d for d, _c in frontier]
            b = max(1, min(batch, len(work) // (4 * ncpu()) or 1))
            chunks = [work[i:i + b] for i in range(0, len(work), b)]
            nxt = []
            for r in pool.imap_unordered(_batch, chunks):
                if r[0] == "error":
                    raise RuntimeError("harness error in %s at %s\n%s" % (type(harness).__name__, r[1], r[2]))
                for devs, points, fails, sig, trace, count in r[1]:
                    res.executions += count
                    res.transitions += len(points)
                    res.maxpoints = max(res.maxpoints, len(points))
                    if sig is not None:
                        res.sigs.add(sig)
                    if len(res.samples) < 4 or (len(res.samples) < 8 and len(devs) == bound):
                        res.samples.append({"choices": trace or "default", "points": len(points)})
                    for key, msg in fails:
                        res.failures.append((key, msg, devs, trace))
                    used = cost_of[devs]
                    last = devs[-1][0] if devs else -1
                    for i in range(last + 1, len(points)):
                        for a, c in enumerate(points[i], 1):
                            if used + c <= bound:
                                nxt.append((devs + ((i, a),), used + c))
            if len(res.failures) >= max_failures:
                res.capped = True
                break
            frontier = nxt
    res.failures.sort(key=lambda f: (len(f[2]), f[2]))
    return res


def pmap(func, items, seed=0, batch=1):
    """func over items on all cores (fork), in order of items"""
    items = list(items)
    if not items:
        return []
    ctx = multiprocessing.get_context("fork")
    gc.collect()
    gc.freeze()
    with ctx.Pool(min(ncpu(), len(items)), initializer=_init, initargs=(seed,)) as pool:
        return pool.map(func, items, chunksize=batch)
