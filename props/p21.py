"""P21: ray sources emit what they are asked for."""
import math
from .common import *

BOUNDS = ("uniform, object and lamp sources of 1 to 4 (thorough: 6) heights and angles of any ranges; Lambertian sources of 1 to 4 heights, 1 to 5 angles and 1 to 4 rays each; random uniform, "
          "Lambertian, Gaussian and lamp sources of maximum 1 to 4 (thorough: 6), every draw symbolic in [0, 1), up to 2 draws refused per ray, every index read in every order of 2 to 4 reads")
OUTSIDE = "the distribution of the draws (P30); warnings after 3 s of generation; sources of more rays"


def inside(c, r, lo, hi, tlo, thi, label):
    c.check(r.y >= lo, label + ": not below the lowest height")
    c.check(r.y <= hi, label + ": not above the highest height")
    c.check(r.theta >= tlo, label + ": not below the lowest angle")
    c.check(r.theta <= thi, label + ": not above the highest angle")
    c.check(not r.isBlocked, label + ": not blocked")


def at(lo, hi, i, n):
    return lo + (hi - lo) * i / (n - 1)


def grid(c, rays, lo, hi, tlo, thi, M, N, label):
    c.check(len(rays) == M * N, label + ": one ray per height and angle")
    c.check(rays.count == M * N, label + ": one ray per height and angle")
    got = [rays[i] for i in range(len(rays))]
    for k, r in enumerate(got):
        inside(c, r, lo, hi, tlo, thi, label)
        i, j = k // N, k % N
        if M > 1:
            c.eq(r.y, at(lo, hi, i, M), label + ": the heights are the regular grid")
        if N > 1:
            c.eq(r.theta, at(tlo, thi, j, N), label + ": the angles are the regular grid")
        c.eq(r.y, got[i * N].y, label + ": each height with each angle")
        c.eq(r.theta, got[j].theta, label + ": each height with each angle")
    n = 0
    for r, s in zip(rays, got):
        c.check(r is s, label + ": the same rays by index and by iteration")
        n += 1
    c.check(n == M * N, label + ": the same rays by index and by iteration")
    c.raises(IndexError, lambda: rays[M * N], label + ": no more rays")


def ranges(c, which):
    """heights and angles asked for, and keywords"""
    y2, t2 = c.real("yMax", -50, 50), c.real("thetaMax", -2, 2)
    if which == "max":
        c.assume(c.And(y2 >= 0, t2 >= 0))
        return (-y2, y2, -t2, t2, dict(yMax=y2, thetaMax=t2))
    y1, t1 = c.real("yMin", -50, 50), c.real("thetaMin", -2, 2)
    c.assume(c.And(y1 <= y2, t1 <= t2))
    return (y1, y2, t1, t2, dict(yMax=y2, thetaMax=t2, yMin=y1, thetaMin=t1))


def uniform(c, M, N, which):
    y1, y2, t1, t2, k = ranges(c, which)
    grid(c, c.rt.UniformRays(M=M, N=N, **k), y1, y2, t1, t2, M, N, "uniform")


def object_(c, H, T):
    d, a, z = c.real("d", 0, 50), c.real("a", 0, 1.5), c.real("z", -10, 10)
    o = c.rt.ObjectRays(diameter=d, halfAngle=a, H=H, T=T, z=z, label="o", color="r")
    grid(c, o, -d / 2, d / 2, -a, a, H, T, "object")
    c.eq(o.z, z, "object at its position")
    c.check(o.label == "o" and o.color == "r", "object of its label and colour")


def lamp(c, N, T, H):
    d, NA, z = c.real("d", 0, 50), c.real("NA", 0, 1.5), c.real("z", -10, 10)
    o = c.rt.LampRays(diameter=d, NA=NA, N=N, T=T, H=H, z=z, label="l")
    grid_lamp(c, o, d, NA, H or N, T)
    c.eq(o.z, z, "lamp at its position")
    c.check(o.label == "l", "lamp of its label")


def grid_lamp(c, o, d, NA, N, T):
    # a single height or angle is one of the ends
    grid(c, o, -d / 2, d / 2, -NA, NA, N, T, "lamp")


def lambertian(c, M, N, I, which):
    y2 = c.real("yMax", -50, 50)
    y1 = -y2
    k = {}
    if which == "min":
        y1 = c.real("yMin", -50, 50)
        k = dict(yMin=y1)
    c.assume(y1 <= y2)
    rays = c.rt.LambertianRays(yMax=y2, M=M, N=N, I=I, **k)
    got = [rays[i] for i in range(len(rays))]
    h = math.pi / 2
    want = []
    for j in range(N):
        t = -h + 2 * h * j / (N - 1) if N > 1 else -h
        w = I * math.cos(t)
        for i in range(M):
            # whole rays; rounding decides when the intensity is a whole number within 1e-9
            want.append((t, i, int(w), int(w + 1e-9), int(w - 1e-9)))
    n = 0
    k = 0
    for t, i, a, b, e in want:
        m = 0
        while k < len(got) and abs(float(got[k].theta) - t) < 1e-9 and c.decide(c.near(got[k].y, at(y1, y2, i, M) if M > 1 else y1)) and m < max(a, b, e):
            inside(c, got[k], y1, y2, -h, h, "Lambertian")
            k += 1
            m += 1
        c.check(m in (a, b, e), "Lambertian: as many rays as I cos(theta)")
        n += m
    c.check(k == len(got), "Lambertian: no other ray")
    c.check(len(rays) == len(got) == rays.count, "Lambertian: all counted")


def make(c, kind, n):
    rt = c.rt
    h = math.pi / 2
    if kind == "uniform":
        y1, y2, t1, t2, k = ranges(c, "min")
        return rt.RandomUniformRays(maxCount=n, **k), (y1, y2, t1, t2)
    if kind == "uniformmax":
        y1, y2, t1, t2, k = ranges(c, "max")
        return rt.RandomUniformRays(maxCount=n, **k), (y1, y2, t1, t2)
    if kind == "lamp":
        d, NA = c.real("d", 0, 50), c.real("NA", 0, 1.5)
        return rt.LampRays(diameter=d, NA=NA, N=n, random=True), (-d / 2, d / 2, -NA, NA)
    if kind == "lambertian":
        y2 = c.real("yMax", 0, 50)
        return rt.RandomLambertianRays(yMax=y2, maxCount=n), (-y2, y2, -h, h)
    if kind == "lambertianmin":
        y2, y1 = c.real("yMax", -50, 50), c.real("yMin", -50, 50)
        c.assume(y1 <= y2)
        return rt.RandomLambertianRays(yMax=y2, yMin=y1, maxCount=n), (y1, y2, -h, h)
    w = c.real("width", 0.01, 50)
    return rt.GaussianProfileUniformRays(intensityWidth=w, maxCount=n), (-4 * w, 4 * w, -h, h)


def random_(c, kind, n, order):
    """order: the indices read, in order; 'it' iterates over all of them, 'v' reads the heights"""
    c.use_random()
    rays, lim = make(c, kind, n)
    c.check(len(rays) == n and rays.count == n, "as many random rays as announced")
    seen = {}

    def note(i, r):
        inside(c, r, *lim, "random")
        if i in seen:
            c.check(r is seen[i][0], "the same ray every time an index is read")
            c.eq(r.y, seen[i][1], "the same ray every time an index is read")
            c.eq(r.theta, seen[i][2], "the same ray every time an index is read")
        seen[i] = (r, r.y, r.theta)

    for i in order:
        if i == "it":
            k = 0
            for r in rays:
                if k >= n:
                    c.check(False, "iterating gives every random ray once")
                    return
                note(k, r)
                k += 1
            c.check(k == n, "iterating gives every random ray once")
        elif i == "v":
            c.check(len(rays) == n, "as many random rays as announced")
            v = rays.yValues
            t = rays.thetaValues
            c.check(len(v) == n and len(t) == n, "a height and an angle for every random ray")
            for k in range(n):
                note(k, rays[k])
                c.eq(v[k], rays[k].y, "the height of each random ray")
                c.eq(t[k], rays[k].theta, "the angle of each random ray")
        elif i == "over":
            c.raises(IndexError, lambda: rays[n], "no ray beyond the maximum")
            c.raises(IndexError, lambda: rays[-n - 1], "no ray before the first")
        elif i == "extra":
            for k in range(n):
                note(k, rays[k])
            c.raises(Exception, lambda: rays.randomRay(), "no more random rays than the maximum")
        else:
            note(i % n, rays[i])
    c.check(len(rays) == n, "as many random rays as announced")


def refused(c, kind, times):
    """a draw refused is drawn again"""
    c.use_random()
    rays, lim = make(c, kind, 1)
    r = rays[0]
    inside(c, r, *lim, "random")
    c.check(len(rays.rays) == 1, "one ray made for one read")


def base(c):
    c.raises(NotImplementedError, lambda: c.rt.RandomRays(maxCount=2)[0], "a source has to say how it draws")


OPTIONS = {}
MUST_REACH = ["no ray beyond the maximum", "uniform: the heights are the regular grid", "the same ray every time an index is read", "Lambertian: as many rays as I cos(theta)"]


def cases(tier):
    out = []
    big = tier == "thorough"

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    top = 7 if big else 5
    for M in range(1, top):
        for N in range(1, top):
            add("uniform-%d-%d" % (M, N), "uniform", M, N, "min" if (M + N) % 2 else "max")
            if big or M == 1 or N == 1:
                add("uniform-%d-%d-other" % (M, N), "uniform", M, N, "max" if (M + N) % 2 else "min")
    for H, T in [(1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 4)]:
        add("object-%d-%d" % (H, T), "object_", H, T)
        add("lamp-%d-%d" % (H, T), "lamp", H, T, None)
    add("lamp-H", "lamp", 2, 3, 4)
    for M, N, I in [(1, 3, 2), (2, 3, 1), (3, 3, 3), (2, 5, 4), (1, 4, 3), (4, 2, 3), (2, 1, 2)]:
        add("lambertian-%d-%d-%d" % (M, N, I), "lambertian", M, N, I, "min" if N % 2 else "max")
    ORD = [[0], [1, 0, 1, 0], [-1, "over", 1], ["it", "v", 0, "it"], ["v", 1, "it"], [-2, 0, "over"], ["extra", "over", 0]]
    for k in ("uniform", "uniformmax", "lamp"):
        for i, o in enumerate(ORD):
            add("random-%s-%d" % (k, i), "random_", k, 2 if i else 1, o)
        add("random-%s-3" % k + "x", "random_", k, 3, [2, 0, -2, "it", "over", "v"])
        add("random-%s-4" % k + "x", "random_", k, 4, [1, "it", 3, -1, "over"])
        if big:
            add("random-%s-6" % k + "x", "random_", k, 6, [1, 5, "it", 3, -1, "over", "v"])
    for k in ("lambertian", "lambertianmin", "gaussian"):
        add("refused-" + k, "refused", k, 2, max_decisions=14, allow_cut=True, validate=0)
        for i, o in enumerate(ORD if big else ORD[:3]):
            add("random-%s-%d" % (k, i), "random_", k, 2 if i else 1, o, max_decisions=14 if i else 10, allow_cut=True, validate=0)
    add("base", "base")
    return out
