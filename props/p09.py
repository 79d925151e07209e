"""P09: tracing many rays equals tracing each."""
from .common import *
import copy
import itertools

BOUNDS = ("bundles of 0 to 3 (thorough: 4) rays, each symbolic (|y|<=50, |theta|<=2, blocked or not), given as list, tuple, generator or "
          "Rays, through elements and groups with symbolic apertures; 1 to 4 processes and more processes than rays, with the process pool "
          "replaced by one that runs each job on pickled-like copies (or fails, which must fall back); profiles at any plane")
OUTSIDE = "operating-system failures inside a worker process; the process pool itself (multiprocessing.Pool's own contract is assumed)"
ASSUMPTIONS = ["multiprocessing.Pool.map/starmap return the jobs' results in the order of the jobs"]


class Pool:
    """a process pool: jobs run on copies, results come back as copies"""
    fail = False

    def __init__(self, processes=None, *a, **k):
        if Pool.fail:
            raise OSError("no process")
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def starmap(self, f, args, chunksize=None):
        me = copy.deepcopy(f.__self__)
        return [copy.deepcopy(getattr(me, f.__name__)(*copy.deepcopy(tuple(a)))) for a in list(args)]

    def map(self, f, args, chunksize=None):
        return self.starmap(f, [(a,) for a in args])

    imap = map
    imap_unordered = map

    def starmap_async(self, f, args):
        r = self.starmap(f, args)
        return type("R", (), {"get": lambda s, timeout=None: r})()

    map_async = starmap_async

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass


def system(c, kind):
    rt = c.rt
    D = c.real("D", 0, 60, nonzero=True)
    if kind == "lens":
        return rt.Lens(c.real("f", -100, 100, nonzero=True), diameter=D)
    if kind == "space":
        return rt.Space(c.real("d", 0, 100), diameter=D)
    if kind == "group":
        return rt.MatrixGroup([rt.Space(c.real("d", 0, 100)), rt.Lens(c.real("f", -100, 100, nonzero=True), diameter=D)])
    if kind == "imaging":
        return rt.ImagingPath([rt.Space(c.real("d", 0, 100)), rt.Aperture(D), rt.Space(c.real("e", 0, 100))])
    if kind == "open":
        return rt.MatrixGroup([rt.Space(c.real("d", 0, 100)), rt.Lens(c.real("f", -100, 100, nonzero=True))])
    raise ValueError(kind)


def bundle(c, n, blocked=True):
    out = []
    for i in range(n):
        r = ray(c, "r%d" % i)
        if blocked and i == 0 and c.choice("blk", 2):
            r.isBlocked = True
        out.append(r)
    return out


def given(c, rays, form):
    if form == "list":
        return rays
    if form == "tuple":
        return tuple(rays)
    if form == "generator":
        return (r for r in rays)
    if form == "iterator":
        return iter(list(rays))
    if form == "Rays":
        return c.rt.Rays(rays)
    if form == "RaysGenerator":
        return c.rt.Rays(r for r in rays)
    raise ValueError(form)


def eqray(c, g, w, label):
    c.eq(g.y, w.y, label + ": height")
    c.eq(g.theta, w.theta, label + ": angle")
    c.eq(g.z, w.z, label + ": position")
    c.check(bool(g.isBlocked) == bool(w.isBlocked), label + ": blocked")


def trace_many(c, kind, n, form):
    m = system(c, kind)
    rays = bundle(c, n)
    got = m.traceMany(given(c, rays, form))
    want = [m.trace(r) for r in rays]
    c.check(len(got) == n, "one trace per ray")
    for g, w in zip(got, want):
        c.check(len(g) == len(w), "traces in order: number of points")
        for a, b in zip(g, w):
            eqray(c, a, b, "traces in order")


def through(c, kind, n, form, progress):
    m = system(c, kind)
    rays = bundle(c, n)
    got = m.traceManyThrough(given(c, rays, form), progress=progress)
    last = [m.traceThrough(r) for r in rays]
    want = [r for r in last if not r.isBlocked]
    c.check(len(got) == len(want), "exactly the unblocked rays")
    for g, w in zip(got.rays, want):
        eqray(c, g, w, "unblocked last rays in order")
    c.check(type(got).__name__ == "Rays", "a bundle of rays")
    if len(want) == n:
        c.reached("none blocked")
    elif n and not want:
        c.reached("all blocked")
    elif n > 1:
        c.reached("some blocked")
    # the same bundle again
    if form in ("list", "tuple"):
        again = m.traceManyThrough(given(c, rays, form), progress=progress)
        c.check(len(again) == len(want), "same again")


def same_bag(c, got, want, label):
    """same rays, any order"""
    c.check(len(got) == len(want), label + ": number of rays")
    if len(got) != len(want) or not want:
        return
    alts = []
    for perm in itertools.permutations(range(len(want))):
        alts.append(c.And(*[c.And(c.near(g.y, want[j].y), c.near(g.theta, want[j].theta), c.near(g.z, want[j].z))
                            for g, j in zip(got, perm)]))
    c.check(c.Or(*alts), label)


def parallel(c, kind, n, form, processes, fail=False):
    import sys
    mod = sys.modules[c.rt.Matrix.__module__]
    m = system(c, kind)
    rays = bundle(c, n, blocked=n < 3)
    mp = mod.multiprocessing
    saved = (mp.Pool, mp.cpu_count)
    Pool.fail = fail
    mp.Pool = Pool
    if processes is None:
        mp.cpu_count = lambda: 3
    try:
        got = m.traceManyThroughInParallel(given(c, rays, form), progress=False, processes=processes)
    finally:
        mp.Pool, mp.cpu_count = saved
        Pool.fail = False
    want = m.traceManyThrough(rays, progress=False).rays
    same_bag(c, got.rays, want, "parallel gives the same rays")
    c.reached("fallback" if fail else "parallel")


def profile(c, n, zmode):
    rt = c.rt
    m = system(c, "imaging")
    rays = bundle(c, n, blocked=False)
    for r in rays:
        r.z = 0
    traces = m.traceMany(rays)
    z = INF if zmode == "end" else c.real("z", 0, 300)
    if zmode == "end":
        got = m.profileFromRayTraces(traces)
    else:
        got = m.profileFromRayTraces(traces, z=z)
    want = []
    for t in traces:
        # the trace at z: the first point there, or the line from the last point before z
        at = None
        for p in t:
            if c.decide(p.z == z):
                at = p
                break
            if c.decide(p.z > z):
                break
            prev = p
        if at is None:
            if zmode == "end" or c.decide(t[-1].z < z):
                at = t[-1]
            else:
                at = Pt(prev.y + (z - prev.z) * prev.theta, prev.theta, z, bool(prev.isBlocked))
        if not at.isBlocked:
            want.append(at)
    c.check(len(got) == len(want), "profile: exactly the unblocked rays")
    for g, w in zip(got.rays, want):
        eqray(c, g, w, "profile in order")
    c.reached("profile")


def refuse(c):
    m = system(c, "group")
    bad = [3, None, [3], [None, c.rt.Ray()], ["a"]][c.choice("what", 5)]
    c.raises(TypeError, lambda: m.traceManyThrough(bad, progress=False), "what is not rays is refused")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    N = (0, 1, 2, 3)
    for k in ("lens", "space", "group", "imaging"):
        for n in N:
            if n == 3 and k == "imaging" and tier == "quick":
                continue
            add(f"many-{k}-{n}", "trace_many", k, n, "list")
            add(f"through-{k}-{n}", "through", k, n, "list", False)
    for f in ("tuple", "generator", "iterator", "Rays", "RaysGenerator"):
        add(f"many-{f}", "trace_many", "lens", 2, f)
        add(f"through-{f}", "through", "group", 2, f, False)
        add(f"progress-{f}", "through", "lens", 3, f, True)
        add(f"parallel-{f}", "parallel", "lens", 2, f, 2)
        add(f"fallback-{f}", "parallel", "lens", 2, f, 2, True)
    for p in (None, 1, 2, 3, 4):
        for n in (0, 1, 2, 3):
            add(f"parallel-p{p}-{n}", "parallel", "lens", n, "list", p)
    add("parallel-group", "parallel", "group", 2, "list", 2)
    add("parallel-open", "parallel", "open", 3, "list", 2)
    add("parallel-p0", "parallel", "lens", 2, "list", 0)
    add("fallback-list", "parallel", "group", 2, "list", 2, True)
    for n in (0, 1, 2):
        add(f"profile-end-{n}", "profile", n, "end")
        add(f"profile-z-{n}", "profile", n, "z")
    add("refuse", "refuse")
    if tier == "thorough":
        for p in (2, 3, 5):
            add(f"parallel4-p{p}", "parallel", "open", 4, "list", p)
            add(f"parallel4a-p{p}", "parallel", "lens", 4, "list", p)
        add("through4", "through", "imaging", 4, "list", True)
        add("many4", "trace_many", "imaging", 4, "generator")
    return out


MUST_REACH = ["none blocked", "all blocked", "some blocked", "parallel", "fallback", "profile"]
