"""P22: a ray bundle's derived data always describe its present rays."""
import os
from .common import *

BOUNDS = ("bundles of 0 to 4 rays of any height and angle (plain, uniform, lamp and random ones), every history of 2 (thorough: 3 or 4) operations among appending, loading (replacing, appending, refused), "
          "iterating (in full, in part), reading heights, angles and histograms; histograms of 1 to 3 (thorough: 5) bins over any or default limits, including refused ones")
OUTSIDE = "rays changed in place after being stored, or lists handed out and then changed by the caller; histograms of an empty bundle without limits"


def rays_of(c, n, p="r"):
    return [c.rt.Ray(y=c.real("%sy%d" % (p, i), -10, 10), theta=c.real("%st%d" % (p, i), -2, 2)) for i in range(n)]


def holds(c, b, want, label):
    """want: list of (y, theta)"""
    c.check(len(b) == len(want) and b.count == len(want), label + ": number of rays")
    y, t = list(b.yValues), list(b.thetaValues)
    c.check(len(y) == len(want) and len(t) == len(want), label + ": one height and angle per ray")
    rs = [b[i] for i in range(len(b))]
    for i, (a, d) in enumerate(want):
        c.eq(y[i], a, label + ": the heights are those of the rays")
        c.eq(t[i], d, label + ": the angles are those of the rays")
        c.eq(rs[i].y, a, label + ": the rays in order")
        c.eq(rs[i].theta, d, label + ": the rays in order")
    k = [r for r in b]
    c.check(len(k) == len(rs) and all(x is z for x, z in zip(k, rs)), label + ": iterating gives the rays in order")


def flat(rays):
    return [(r.y, r.theta) for r in rays]


OPS = ["append", "load", "load+", "badload", "part", "read", "badappend"]


def source(c, kind):
    rt = c.rt
    if kind == "plain":
        r = rays_of(c, 2)
        return rt.Rays(rays=r), flat(r)
    if kind == "one":
        r = rays_of(c, 1)
        return rt.Rays(rays=r), flat(r)
    if kind == "empty":
        return rt.Rays(), []
    if kind == "generator":
        r = rays_of(c, 2)
        return rt.Rays(rays=(x for x in r)), flat(r)
    if kind == "bundle":
        r = rays_of(c, 2)
        return rt.Rays(rays=rt.Rays(rays=r)), flat(r)
    if kind == "uniform":
        b = rt.UniformRays(yMax=c.real("yMax", 0, 10), thetaMax=c.real("tMax", 0, 1), M=2, N=1)
        return b, flat(b.rays)
    if kind == "lamp":
        b = rt.LampRays(diameter=c.real("d", 0, 10), NA=c.real("NA", 0, 1), N=1, T=2)
        return b, flat(b.rays)
    if kind == "object":
        b = rt.ObjectRays(diameter=c.real("d", 0, 10), halfAngle=c.real("a", 0, 1), H=2, T=1)
        return b, flat(b.rays)
    c.use_random()
    b = rt.RandomUniformRays(yMax=c.real("yMax", 0, 10), thetaMax=1.0, maxCount=2)
    return b, flat([b[0], b[1]])


def history(c, kind, k):
    rt = c.rt
    b, want = source(c, kind)
    d = c.tmp()
    extra = rays_of(c, 2 * k + 2, "x")
    c.check(isinstance(b, rt.Rays), "a bundle")
    for s in range(k):
        op = OPS[c.choice("op%d" % s, len(OPS))]
        if op == "append":
            b.append(extra[2 * s])
            want = want + flat([extra[2 * s]])
        elif op in ("load", "load+"):
            p = os.path.join(d, "s%d.pkl" % s)
            rt.Rays(rays=extra[2 * s:2 * s + 2]).save(p)
            b.load(p, append=(op == "load+"))
            want = (want if op == "load+" else []) + flat(extra[2 * s:2 * s + 2])
        elif op == "badload":
            import pickle
            p = os.path.join(d, "s%d.pkl" % s)
            with open(p, "wb") as f:
                pickle.dump([1, 2], f)
            c.raises(IOError, lambda: b.load(p), "a file of something else is refused")
        elif op == "badappend":
            c.raises(TypeError, lambda: b.append(3), "something else than a ray is refused")
        elif op == "part":
            it = iter(b)
            if len(want):
                next(it)
        else:
            b.yValues, b.thetaValues, b.rays, len(b)
            if len(want):
                b.rayCountHistogram(2, -10, 10)
                b.rayAnglesHistogram(2, -2, 2)
        holds(c, b, want, op)


def reading(c, kind, at, what):
    """something is read while the bundle is being iterated"""
    b, want = source(c, kind)
    got = []
    for i, r in enumerate(b):
        if len(got) > len(want) + 2:
            break
        got.append(r)
        if i == at:
            if what == "heights":
                b.yValues
            elif what == "angles":
                b.thetaValues
            elif what == "count":
                len(b), b.count, b.rays, b[0], b[-1]
            elif what == "heightHistogram":
                b.rayCountHistogram(1, -20, 20)
            elif what == "angleHistogram":
                b.rayAnglesHistogram(1, -20, 20)
            elif what == "append":
                b.append(c.rt.Ray(3, 0.5))
                want = want + [(3, 0.5)]
    c.check(len(got) == len(want), "an iteration goes on as if nothing had been read")
    for r, (y, t) in zip(got, want):
        c.eq(r.y, y, "an iteration goes on as if nothing had been read")
        c.eq(r.theta, t, "an iteration goes on as if nothing had been read")


def check_histogram(c, got, values, bins, lo, hi, label):
    x, n = got
    c.check(len(x) == bins and len(n) == bins, label + ": as many bins as asked for")
    w = (hi - lo) / bins
    inside = 0
    want = [0] * bins
    for v in values:
        if not c.decide(c.And(v >= lo, v <= hi)):
            continue
        inside += 1
        for i in range(bins):
            # half open bins, the last one closed
            if i == bins - 1 or c.decide(v < lo + w * (i + 1)):
                want[i] += 1
                break
    for i in range(bins):
        c.eq(x[i], lo + w * i + w / 2, label + ": the middle of each bin")
        c.check(n[i] == want[i], label + ": each ray is counted in the bin that holds it")
    c.check(sum(n) == inside, label + ": each ray in the limits is counted once")


def histogram(c, which, n, bins, limits):
    rt = c.rt
    r = rays_of(c, n)
    b = rt.Rays(rays=r)
    vals = [x.y for x in r] if which == "height" else [x.theta for x in r]
    f = b.rayCountHistogram if which == "height" else b.rayAnglesHistogram
    lo, hi = c.real("lo", -10, 10), c.real("hi", -10, 10)
    # bins wide enough that rounding of their edges decides nothing
    k = {}
    if limits in ("both", "min"):
        k["minValue"] = lo
    else:
        lo = vals[0]
        for v in vals[1:]:
            if c.decide(v < lo):
                lo = v
    if limits in ("both", "max"):
        k["maxValue"] = hi
    else:
        hi = vals[0]
        for v in vals[1:]:
            if c.decide(v > hi):
                hi = v
    c.assume(hi - lo > 0.01)
    for v in vals:
        for i in range(1, bins):
            c.assume(abs(v - (lo + (hi - lo) * i / bins)) > 1e-6)
    got = f(bins, **k)
    check_histogram(c, got, vals, bins, lo, hi, which)
    again = f(bins, **k)
    check_histogram(c, again, vals, bins, lo, hi, which + " again")


ARGS = [(2, -10, 10), (1, -10, 10), (2, -5, 5), (2, 5, -5), (0, -10, 10), (2, -10, 5)]


def remembered(c, which, k):
    """histograms asked for one after the other, some impossible, with rays appended or loaded in between"""
    rt = c.rt
    r = rays_of(c, 1)
    x = rays_of(c, k, "x")
    b = rt.Rays(rays=r)
    d = c.tmp()
    f = "rayCountHistogram" if which == "height" else "rayAnglesHistogram"
    now = list(r)
    for v in now + x:
        for e in (-5, 0, 5, -2.5):
            c.assume(abs((v.y if which == "height" else v.theta) - e) > 1e-6)
    for s in range(k):
        op = c.choice("op%d" % s, len(ARGS) + 2)
        if op == len(ARGS):
            b.append(x[s])
            now.append(x[s])
            continue
        if op == len(ARGS) + 1:
            p = os.path.join(d, "s%d.pkl" % s)
            rt.Rays(rays=[x[s]]).save(p)
            b.load(p)
            now = [x[s]]
            continue
        bins, lo, hi = ARGS[op]
        if bins < 1 or hi < lo:
            c.raises(ValueError, lambda: getattr(b, f)(bins, lo, hi), "an impossible histogram is refused, every time")
            continue
        check_histogram(c, getattr(b, f)(bins, lo, hi), [v.y if which == "height" else v.theta for v in now], bins, lo, hi, "%s histogram" % which)
        other = getattr(b, "rayAnglesHistogram" if which == "height" else "rayCountHistogram")(1, -20, 20)
        c.check(sum(other[1]) == len(now), "the other histogram counts every ray too")


READS = ["heights", "angles", "heightHistogram", "angleHistogram", "none"]
LIMITS = (2, -10, 10)


def sparse(c, kind, k):
    """only some of the derived values are read, before and after the bundle changes"""
    rt = c.rt
    b, want = source(c, kind)
    d = c.tmp()
    x = rays_of(c, 2 * k, "x")
    for y, t in want + flat(x):
        c.assume(c.And(abs(y) > 1e-6, abs(t) > 1e-6))

    def read(what, label):
        if what in ("heights", "angles"):
            got = list(b.yValues if what == "heights" else b.thetaValues)
            c.check(len(got) == len(want), label + ": one value per ray")
            for g, w in zip(got, want):
                c.eq(g, w[what == "angles"], label + ": the %s are those of the rays" % what)
        elif what != "none":
            h = b.rayCountHistogram if what == "heightHistogram" else b.rayAnglesHistogram
            check_histogram(c, h(*LIMITS), [w[what == "angleHistogram"] for w in want], *LIMITS, label + " " + what)
    first = READS[c.choice("read", len(READS))]
    read(first, "first")
    for s in range(k):
        op = ("append", "load", "load+", "badload", "refill")[c.choice("op%d" % s, 5)]
        if op == "append":
            b.append(x[2 * s])
            want = want + flat([x[2 * s]])
        elif op == "badload":
            p = os.path.join(d, "none%d.pkl" % s)
            c.raises(IOError, lambda: b.load(p), "a file that is not there is refused")
        elif op == "refill":
            b.append(x[2 * s])
            b.append(x[2 * s + 1])
            want = want + flat(x[2 * s:2 * s + 2])
        else:
            p = os.path.join(d, "s%d.pkl" % s)
            rt.Rays(rays=x[2 * s:2 * s + 1]).save(p)
            b.load(p, append=(op == "load+"))
            want = (want if op == "load+" else []) + flat(x[2 * s:2 * s + 1])
        read(READS[c.choice("then%d" % s, 4)], "then")
    read(first, "again")


def refusals(c):
    rt = c.rt
    for bad in (3, 2.5, rt.Ray(1, 2)):
        c.raises(TypeError, lambda: rt.Rays(rays=bad), "something that is not a list of rays is refused")
    for bad in ([1, 2], [rt.Ray(1, 2), None], "ab", {1: 2}):
        c.raises(TypeError, lambda: rt.Rays(rays=bad), "a list of something else is refused")
    r = rays_of(c, 2)
    src = list(r)
    b = rt.Rays(rays=src)
    src.append(rt.Ray(9, 9))
    holds(c, b, flat(r), "of a list that is changed afterwards")
    l = b.rays
    l.append(rt.Ray(9, 9))
    holds(c, b, flat(r), "whose list of rays is changed")


def default(c, which, n):
    """40 bins by default"""
    rt = c.rt
    r = [rt.Ray(y=y, theta=y / 10) for y in (-3.0, 0.5, 4.0)[:n]] + [rt.Ray(y=c.real("y", -2, 3), theta=c.real("t", -0.2, 0.3))]
    b = rt.Rays(rays=r)
    x, m = b.rayCountHistogram() if which == "height" else b.rayAnglesHistogram()
    c.check(len(x) == 40 and len(m) == 40, "40 bins unless told otherwise")
    c.check(sum(m) == n + 1, "every ray is counted")
    c.check(m[0] >= 1 and m[39] >= 1, "limits are the extreme rays")


OPTIONS = {}
MUST_REACH = ["append: the heights are those of the rays", "load: the heights are those of the rays", "an impossible histogram is refused, every time",
              "an iteration goes on as if nothing had been read"]


def cases(tier):
    out = []
    big = tier == "thorough"

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for kind in ("plain", "empty", "generator", "bundle", "uniform", "lamp", "object", "random"):
        add("history-" + kind, "history", kind, (4 if kind in ("plain", "random", "lamp") else 3) if big else 2, max_paths=20000)
        if kind != "empty":
            for at in (0, 1):
                for what in ("heights", "angles", "count", "heightHistogram", "angleHistogram", "append"):
                    if big or at == 0 or kind in ("plain", "random"):
                        add("reading-%s-%d-%s" % (kind, at, what), "reading", kind, at, what)
    for which in ("height", "angle"):
        for n, bins, lim in [(1, 1, "both"), (1, 3, "both"), (2, 2, "both"), (2, 3, "both"), (2, 2, "min"), (2, 2, "max"), (2, 2, "none"), (2, 3, "none"), (3, 2, "none")] + \
                ([(3, 3, "both"), (3, 3, "none"), (2, 5, "both"), (3, 2, "min")] if big else []):
            add("histogram-%s-%d-%d-%s" % (which, n, bins, lim), "histogram", which, n, bins, lim)
        add("remembered-" + which, "remembered", which, 3 if big else 2, max_paths=20000)
        add("default-" + which, "default", which, 3)
    for kind in ("one", "uniform", "empty") + (("plain", "random") if big else ()):
        add("sparse-" + kind, "sparse", kind, 2 if big and kind == "one" else 1, max_paths=50000)
    add("refusals", "refusals")
    return out
