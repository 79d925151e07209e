"""P24: a ray followed to a plane is on its straight line."""
from .common import *

BOUNDS = ("any rays and planes; traces of 1 to 5 (thorough: 7) points at any non-decreasing positions, and traces of any ray through paths of up to 3 (thorough: 4) spaces, lenses, "
          "slabs, thick lenses, apertures and nested groups, read at any plane before, within or after them; fans of up to 7 angles and groups of up to 4 x 4 with any limits")
OUTSIDE = "traces whose points go back in z"


def a_ray(c, p, z=None):
    w = (None, 0.5)[c.choice(p + "w", 2)]
    r = c.rt.Ray(y=c.real(p + "y", -50, 50), theta=c.real(p + "t", -2, 2), z=c.real(p + "z", -100, 100) if z is None else z,
                 isBlocked=bool(c.choice(p + "b", 2)), wavelength=w)
    return r


def same(c, a, b, label):
    c.eq(a.y, b.y, label + ": height")
    c.eq(a.theta, b.theta, label + ": angle")
    c.eq(a.z, b.z, label + ": position")
    c.check(bool(a.isBlocked) == bool(b.isBlocked), label + ": blocking")
    c.check(bool(a.isNotBlocked) != bool(a.isBlocked), label + ": blocked or not")
    c.check(a.wavelength == b.wavelength, label + ": wavelength")


def at(c):
    r = a_ray(c, "")
    y, t, z0, b, w = r.y, r.theta, r.z, r.isBlocked, r.wavelength
    z1, z2 = c.real("z1", -200, 200), c.real("z2", -200, 200)

    def on(q, z, label):
        c.eq(q.y, y + (z - z0) * t, label + ": on the straight line")
        c.eq(q.theta, t, label + ": same angle")
        c.eq(q.z, z, label + ": at the plane")
        c.check(q.isBlocked == b, label + ": blocked as before")
        c.check(q.wavelength == w, label + ": same wavelength")
    q = r.at(z1)
    on(q, z1, "followed")
    on(q.at(z2), z2, "followed twice")
    on(r.at(z=z2), z2, "followed by name")
    on(q.at(z0), z0, "and back")
    on(r.at(z0), z0, "where it is")
    on(r, z0, "the ray itself")
    c.check(q is not r, "a new ray")
    # the same as a space of that length
    if not b:
        d = c.real("d", 0, 300)
        s = c.rt.Space(d) * r
        p = r.at(z0 + d)
        c.eq(s.y, p.y, "as through a space")
        c.eq(s.theta, p.theta, "as through a space")
        c.eq(s.z, p.z, "as through a space")


def read(c, trace, z):
    """(point or None, ray) the reading should be"""
    last = None
    for p in trace:
        if c.decide(p.z == z):
            return p, p
        if c.decide(p.z > z):
            q = last if last is not None else trace[0]
            return None, Line(q, z)
        last = p
    return trace[-1], trace[-1]


class Line:
    def __init__(self, q, z):
        self.y, self.theta, self.z = q.y + (z - q.z) * q.theta, q.theta, z
        self.isBlocked, self.wavelength = q.isBlocked, q.wavelength


def copy(r):
    q = Line(r, r.z)
    return q


def check_read(c, trace, z, label):
    before = [copy(p) for p in trace]
    got = c.rt.Ray.along(trace, z)
    pt, want = read(c, before, z)
    same(c, got, want, label)
    c.check(isinstance(got, c.rt.Ray), label + ": a ray")
    c.check(len(trace) == len(before), label + ": trace unchanged")
    for a, b in zip(trace, before):
        same(c, a, b, label + ": trace unchanged")
    if pt is None:
        c.reached("between points")
    elif pt is before[-1]:
        c.reached("at or after the last point")


def along(c, n):
    z = c.real("z0", -100, 100)
    trace = []
    for i in range(n):
        p = "p%d" % i
        trace.append(c.rt.Ray(c.real(p + "y", -50, 50), c.real(p + "t", -2, 2), z=z, isBlocked=(i >= 1 and c.choice("b", 2) == 1 and i >= n // 2)))
        z = z + c.real(p + "dz", 0, 100)
    check_read(c, trace, c.real("z", -200, 800), "trace")


def traced(c, kinds, cls):
    rt = c.rt
    els = []
    for i, k in enumerate(kinds):
        D = c.real("D%d" % i, 1, 30) if i == 1 else INF
        if k == "group":
            els.append(rt.MatrixGroup([element(c, "space", "g%ds" % i), element(c, "lens", "g%dl" % i, diameter=D)]))
        else:
            els.append(element(c, k, "e%d" % i, diameter=D))
    g = getattr(rt, cls)(els)
    r = rt.Ray(c.real("y", -20, 20), c.real("t", -1, 1), z=c.real("z0", -50, 50))
    trace = g.trace(r)
    z = c.real("z", -100, 600)
    check_read(c, trace, z, "through a path")
    first, last = trace[0], trace[-1]
    if not any(p.isBlocked for p in trace):
        got = rt.Ray.along(trace, z)
        if c.decide(c.And(z > r.z, z < last.z)):
            # what light has gone through by then
            m = g.transferMatrix(upTo=z - r.z)
            if c.decide(m.L == z - r.z) and all(k in ("space", "lens", "group") for k in kinds):
                if not c.decide(c.Or(*[p.z == z for p in trace])):
                    c.eq(got.y, m.A * r.y + m.B * r.theta, "as far as the path goes")
                    c.eq(got.theta, m.C * r.y + m.D * r.theta, "as far as the path goes")


def fan(c, N):
    rt = c.rt
    y, a, b = c.real("y", -50, 50), c.real("a", -3, 3), c.real("b", -3, 3)
    rays = rt.Ray.fan(y, a, b, N)
    c.check(isinstance(rays, list) and len(rays) == N, "fan: as many rays as asked for")
    for i, r in enumerate(rays):
        c.eq(r.y, y, "fan: all at the height")
        c.eq(r.theta * max(N - 1, 1), a * max(N - 1, 1) + (b - a) * i, "fan: angles regularly from first to last")
        c.eq(r.z, 0, "fan: at the origin")
        c.check(not r.isBlocked, "fan: not blocked")
        c.check(all(r is not q for q in rays[:i]), "fan: each its own ray")
    named = rt.Ray.fan(y=y, radianMin=a, radianMax=b, N=N)
    c.eq(named[-1].theta, b if N > 1 else a, "fan: last angle")
    c.eq(named[0].theta, a, "fan: first angle")


def fan_group(c, M, N):
    rt = c.rt
    p, q, a, b = c.real("yMin", -50, 50), c.real("yMax", -50, 50), c.real("a", -3, 3), c.real("b", -3, 3)
    rays = rt.Ray.fanGroup(p, q, M, a, b, N)
    c.check(len(rays) == M * N, "fan group: as many rays as asked for")
    for j in range(M):
        for i in range(N):
            r = rays[j * N + i]
            c.eq(r.y * max(M - 1, 1), p * max(M - 1, 1) + (q - p) * j, "fan group: heights regularly from first to last")
            c.eq(r.theta * max(N - 1, 1), a * max(N - 1, 1) + (b - a) * i, "fan group: angles regularly from first to last")
            c.check(not r.isBlocked, "fan group: not blocked")
    named = rt.Ray.fanGroup(yMin=p, yMax=q, M=M, radianMin=a, radianMax=b, N=N)
    c.eq(named[-1].theta, b if N > 1 else a, "fan group: last angle")
    c.eq(named[-1].y, q if M > 1 else p, "fan group: last height")


def fan_bad(c):
    rt = c.rt
    for n in (0, -1, -5):
        c.raises(ValueError, lambda: rt.Ray.fan(0, -1, 1, n), "a count below one is refused")
        c.raises(ValueError, lambda: rt.Ray.fanGroup(-1, 1, n, -1, 1, 2), "a count below one is refused")
        c.raises(ValueError, lambda: rt.Ray.fanGroup(-1, 1, 2, -1, 1, n), "a count below one is refused")


def equality(c):
    rt = c.rt
    a, b = a_ray(c, "a"), a_ray(c, "b")
    s = c.decide(c.And(a.y == b.y, a.theta == b.theta))
    c.check((a == b) == s, "equal exactly when height and angle are")
    c.check((b == a) == s, "equal exactly when height and angle are")
    c.check((a != b) == (not s), "different otherwise")
    c.check(a == a and not (a != a), "equal to itself")
    c.check(a == rt.Ray(a.y, a.theta), "wherever it is, blocked or not")
    b.apertureDiameter = 3.0
    c.check((a == b) == s, "equal exactly when height and angle are")
    for other in (3, None, "ray", (a.y, a.theta), rt.Space(1), rt.GaussianBeam(w=1, wavelength=0.5)):
        c.check(not (a == other) and a != other, "equal to no other kind of thing")
    c.reached("same" if s else "different")


def members(c):
    """membership and search use that equality"""
    a, b = a_ray(c, "a"), a_ray(c, "b")
    s = c.decide(c.And(a.y == b.y, a.theta == b.theta))
    c.check((a in [b]) == s, "found among rays exactly when equal")
    c.check([b].count(a) == (1 if s else 0), "found among rays exactly when equal")


def defaults(c):
    r = c.rt.Ray()
    c.check(r.y == 0 and r.theta == 0 and r.z == 0 and not r.isBlocked and r.isNotBlocked and r.wavelength is None, "an axial ray at the origin unless told otherwise")
    c.check(r.apertureDiameter == INF, "no aperture unless told otherwise")
    y, t, z = c.real("y", -50, 50), c.real("t", -2, 2), c.real("z", -50, 50)
    for q in (c.rt.Ray(y, t, z, True, 0.5), c.rt.Ray(y=y, theta=t, z=z, isBlocked=True, wavelength=0.5)):
        c.eq(q.y, y, "as given")
        c.eq(q.theta, t, "as given")
        c.eq(q.z, z, "as given")
        c.check(q.isBlocked and not q.isNotBlocked and q.wavelength == 0.5, "as given")


OPTIONS = {}
MUST_REACH = ["between points", "at or after the last point", "a count below one is refused", "same", "different", "as far as the path goes"]


def cases(tier):
    out = []
    big = tier == "thorough"

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    add("at", "at")
    for n in range(1, 8 if big else 6):
        add("along-%d" % n, "along", n)
    paths = [["space"], ["lens", "space"], ["space", "lens", "space"], ["space", "slab", "space"], ["thick", "space"], ["space", "group"], ["space", "aperture", "space"]]
    if big:
        paths += [["space", "lens", "space", "lens"], ["space", "thick", "space", "lens"], ["group", "space", "group"], ["slab", "aperture", "lens", "space"],
                  ["mirror", "space", "mirror", "space"], ["aperture", "space", "thick", "space"]]
    for ks in paths:
        for cls in (("MatrixGroup", "ImagingPath") if big else ("MatrixGroup",)):
            add("traced-%s-%s" % (cls, "-".join(ks)), "traced", ks, cls)
    for n in range(1, 8):
        add("fan-%d" % n, "fan", n)
    for m in range(1, 5):
        for n in range(1, 5):
            if big or m + n < 6:
                add("fangroup-%d-%d" % (m, n), "fan_group", m, n)
    add("fan-bad", "fan_bad")
    add("equality", "equality")
    add("members", "members")
    add("defaults", "defaults")
    return out
