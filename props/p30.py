"""P30: random sources follow their stated distribution."""
import math
from .common import *

BOUNDS = ("random uniform, Lambertian, Gaussian-profile and lamp sources of any range of heights and angles or width, every draw of the generator any real in [0, 1); up to 8 (thorough: 11) "
          "refused draws before a ray is made, up to 2 rays in a row; Lambertian grids of 1 to 3 heights, 1 to 7 angles and 1 to 6 rays")
OUTSIDE = ("the generator itself, taken to give independent draws uniform in [0, 1): a map of a draw that is uniform, and a draw kept when another one, "
           "uniform, is below the profile, then have the distribution stated; sources that would draw otherwise than by maps and refusals")
ASSUMPTIONS = ["numpy's generator gives independent draws, uniform in [0, 1)"]
OPTIONS = {}


class Stream:
    """numpy's uniform draws, taken from a function of their rank"""

    def __init__(self, f):
        import numpy as np
        self.np, self.f, self.n, self.old = np, f, 0, {}
        for k in ("random", "random_sample", "uniform", "rand"):
            self.old[k] = getattr(np.random, k)

        def draw(size=None):
            if size is None:
                self.n += 1
                return f(self.n - 1)
            out = [draw() for _ in range(int(np.prod(size)))]
            return np.array(out, dtype=object if any(not isinstance(x, float) for x in out) else float)
        np.random.random = np.random.random_sample = draw
        np.random.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * draw(size)
        np.random.rand = lambda *s: draw(s if s else None)

    def close(self):
        for k, v in self.old.items():
            setattr(self.np.random, k, v)


def with_draws(f, run):
    s = Stream(f)
    try:
        return run(), s.n
    finally:
        s.close()


H = math.pi / 2


def source(c, kind, concrete=False):
    """(function giving a new source, heights, angles, which of y or theta has a profile, profile)"""
    rt = c.rt
    if kind == "lambertian":
        y2 = 3.0 if concrete else c.real("yMax", 0.01, 50)
        return lambda: rt.RandomLambertianRays(yMax=y2, maxCount=5), (-y2, y2), (-H, H), "theta", c.cos
    if kind == "lambertianmin":
        y1, y2 = (-3.0, 2.0) if concrete else (c.real("yMin", -50, 50), c.real("yMax", -50, 50))
        if not concrete:
            c.assume(y1 <= y2)
        return lambda: rt.RandomLambertianRays(yMax=y2, yMin=y1, maxCount=5), (y1, y2), (-H, H), "theta", c.cos
    if kind == "gaussian":
        w = 1.0 if concrete else c.real("width", 0.01, 50)
        return lambda: rt.GaussianProfileUniformRays(intensityWidth=w, maxCount=5), (-4 * w, 4 * w), (-H, H), "y", lambda y: c.exp(-y * y / w / w)
    if kind == "lamp":
        d, NA = (3.0, 0.5) if concrete else (c.real("d", 0.01, 50), c.real("NA", 0.01, 1.5))
        return lambda: rt.LampRays(diameter=d, NA=NA, N=5, random=True), (-d / 2, d / 2), (-NA, NA), None, None
    y1, y2, t1, t2 = (-3.0, 2.0, -0.5, 0.25) if concrete else (c.real("yMin", -50, 50), c.real("yMax", -50, 50), c.real("tMin", -2, 2), c.real("tMax", -2, 2))
    if not concrete:
        c.assume(c.And(y1 <= y2, t1 <= t2))
    return lambda: rt.RandomUniformRays(yMax=y2, yMin=y1, thetaMax=t2, thetaMin=t1, maxCount=5), (y1, y2), (t1, t2), None, None


def roles(c, kind):
    """which draw is for what, found out from single draws: (before the loop, in it, after it), each a list of
    (role, direction); role y, theta or keep"""
    new, ys, ts, shaped, profile = source(c, kind, concrete=True)

    def ray(values):
        return with_draws(lambda i: values.get(i, 0.5), lambda: new()[0])
    base, n = ray({})
    order = []
    for i in range(n):
        r, m = ray({i: 0.53})
        dy, dt = r.y - base.y, r.theta - base.theta
        if m != n or (abs(dy) > 1e-12 and abs(dt) > 1e-12):
            return None
        order.append(("y", 1 if dy > 0 else -1) if abs(dy) > 1e-12 else ("theta", 1 if dt > 0 else -1) if abs(dt) > 1e-12 else ("keep", 0))
    if shaped is None:
        return order, [], []
    # an attempt refused: the profile is low at the edge
    edge = [i for i, (r, _) in enumerate(order) if r == shaped]
    keep = [i for i, (r, _) in enumerate(order) if r == "keep"]
    if len(edge) != 1 or len(keep) != 1:
        return None
    r, m = ray({edge[0]: 0.02, keep[0]: 0.9})
    per = m - n
    if per not in (2, 3):
        return None
    if per == 3:
        return [], order, []
    return ([order[0]], order[1:], []) if order[0][0] not in (shaped, "keep") else ([], order[:2], order[2:])


def drawn(c, kind, rays):
    """the ray made is what the draws say"""
    lay = roles(c, kind)
    c.check(lay is not None, "a ray is made of one draw per coordinate, and one more to keep it or not")
    if lay is None:
        return
    pre, loop, post = lay
    new, ys, ts, shaped, profile = source(c, kind)
    used = {}

    def u(i):
        if i not in used:
            used[i] = c.real("u%d" % i, 0, 1)
            c.assume(used[i] < 1)
        return used[i]
    src = new()
    start = 0
    for k in range(rays):
        r, n = with_draws(lambda i: u(start + i), lambda: src[k])
        seq = [u(start + i) for i in range(n)]
        start += n
        rest = n - len(pre) - len(post)
        names = [x for x, _ in pre + loop + post]
        c.check(sorted(names) == (["keep", "theta", "y"] if shaped else ["theta", "y"]), "a draw for each coordinate, and one more to keep it or not")
        if shaped is None:
            c.check(n == 2, "two draws for each ray")
            attempts = 0
        else:
            c.check(rest > 0 and rest % len(loop) == 0, "each attempt has its own draws")
            attempts = rest // len(loop)
        last = {}

        def place(part, values):
            for (what, sign), v in zip(part, values):
                last[what] = v if sign >= 0 else 1 - v
        place(pre, seq)
        for a in range(attempts):
            at = len(pre) + a * len(loop)
            place(loop, seq[at:at + len(loop)])
            lo, hi = ys if shaped == "y" else ts
            p = profile(lo + (hi - lo) * last[shaped])
            if a == attempts - 1:
                c.le(last["keep"], p, "kept when below the profile")
                c.reached("kept after %d" % a)
            else:
                c.le(p, last["keep"], "refused when above the profile")
        place(post, seq[n - len(post):] if post else [])
        c.eq(r.y, ys[0] + (ys[1] - ys[0]) * last["y"], "the height is a draw, uniform over the heights")
        c.eq(r.theta, ts[0] + (ts[1] - ts[0]) * last["theta"], "the angle is a draw, uniform over the angles")
    # each time its own draws: read again, nothing is drawn
    again, n = with_draws(lambda i: u(start + i), lambda: src[0])
    c.check(n == 0, "a ray already made is not drawn again")


def point(c, kind, i):
    """the chance that a height or angle is kept, at one of them"""
    lay = roles(c, kind)
    if lay is None:
        return
    pre, loop, post = lay
    rt = c.rt
    u, keep = (0.5, 0.5625, 0.4375, 0.625, 0.3125, 0.75, 0.875)[i], c.real("keep", 0, 1)
    c.assume(keep < 1)
    if kind == "gaussian":
        w = (1.0, 2.5, 0.1)[i % 3]
        b, shaped, x, f = rt.GaussianProfileUniformRays(intensityWidth=w, maxCount=5), "y", -4 * w + 8 * w * u, lambda y: math.exp(-(y / w) ** 2)
    else:
        b, shaped, x, f = rt.RandomLambertianRays(maxCount=5), "theta", -H + math.pi * u, math.cos

    def draw(k):
        flat = pre + loop
        what, sign = flat[k] if k < len(flat) else ("other", 1)
        return keep if what == "keep" else (u if sign >= 0 else 1 - u) if what == shaped else 0.5 if k >= len(flat) else u
    r, n = with_draws(draw, lambda: b[0])
    if n == len(pre + loop + post):
        c.le(keep, f(x), "kept when below the profile there")
        c.reached("kept there")
    else:
        c.le(f(x), keep, "refused when above the profile there")
        c.reached("refused there")


def grid(c, M, N, I):
    """a Lambertian grid has rays in proportion to the cosine of the angle"""
    y2 = c.real("yMax", 0.01, 50)
    b = c.rt.LambertianRays(yMax=y2, M=M, N=N, I=I)
    rays = [b[i] for i in range(len(b))]
    total = 0
    for j in range(N):
        t = -H + math.pi * j / (N - 1) if N > 1 else -H
        exact = I * math.cos(t)
        here = [r for r in rays if abs(r.theta - t) < 1e-9]
        total += len(here)
        c.check(len(here) % M == 0 and abs(len(here) / M - exact) < 1, "as many rays as the cosine says, to one ray")
        for i in range(M):
            y = -y2 + 2 * y2 * i / (M - 1) if M > 1 else -y2
            c.check(sum(1 for r in here if c.decide(abs(r.y - y) < 1e-6)) == len(here) // M, "the same at each height")
    c.check(total == len(rays), "no other angle")


MUST_REACH = ["kept after 0", "kept after 1", "kept there", "refused there", "the same at each height"]


def cases(tier):
    out = []
    big = tier == "thorough"

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for k in ("uniform", "lamp"):
        for n in (1, 2):
            add("%s-%d" % (k, n), "drawn", k, n)
    for k in ("lambertian", "lambertianmin", "gaussian"):
        add(k + "-1", "drawn", k, 1, max_decisions=9 if not big else 12, allow_cut=True)
        add(k + "-2", "drawn", k, 2, max_decisions=8 if not big else 10, allow_cut=True)
    for k in ("lambertian", "gaussian"):
        for i in range(7):
            add("point-%s-%d" % (k, i), "point", k, i)
    for M, N, I in [(1, 3, 2), (2, 4, 3), (3, 5, 2), (1, 7, 6), (2, 1, 3)]:
        add("grid-%d-%d-%d" % (M, N, I), "grid", M, N, I)
    return out
