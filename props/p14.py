"""P14: the aperture stop is what limits the axial bundle."""
from .common import *

BOUNDS = ("paths of 1 to 3 (thorough: 4) apertures on thin lenses, mirrors, interfaces or diaphragms separated by spaces, flat or nested; focal lengths "
          "1 to 500 mm of either sign, distances 0 to 500 mm, diameters 0.01 to 100 mm, object heights up to 50 mm, every ray angle")
OUTSIDE = ("numerical apertures, which the code does not count as stops; the entrance of elements of finite length (a known finding); "
           "two apertures that limit the bundle equally within floating-point rounding")


def dia(c, p):
    return c.real(p + "D", 0.01, 100)


def build(c, kinds):
    """elements, n at the end"""
    rt = c.rt
    els, n = [], 1.0
    for i, k in enumerate(kinds):
        p = "e%d" % i
        if k == "s":
            els.append(rt.Space(c.real(p + "d", 0.01, 500), n=n))
        elif k == "s0":
            els.append(rt.Space(c.real(p + "d", 0, 500), n=n))
        elif k == "lens":
            f = c.real(p + "f", -500, 500)
            c.assume(abs(f) >= 1)
            els.append(rt.Lens(f, diameter=dia(c, p)))
        elif k == "openlens":
            f = c.real(p + "f", -500, 500)
            c.assume(abs(f) >= 1)
            els.append(rt.Lens(f))
        elif k == "a":
            els.append(rt.Aperture(dia(c, p)))
        elif k == "mirror":
            R = c.real(p + "R", -500, 500)
            c.assume(abs(R) >= 1)
            els.append(rt.CurvedMirror(R, diameter=dia(c, p)))
        elif k == "i":
            m = index(c, p + "n")
            R = c.real(p + "R", -500, 500)
            c.assume(abs(R) >= 1)
            els.append(rt.DielectricInterface(n, m, R, diameter=dia(c, p)))
            n = m
        elif k == "slab":
            els.append(rt.DielectricSlab(c.real(p + "n", 1, 4), c.real(p + "t", 0.01, 100)))
        elif k == "thick":
            R1, R2 = c.real(p + "R1", 5, 500), c.real(p + "R2", -500, -5)
            els.append(rt.ThickLens(c.real(p + "n", 1, 4), R1, R2, c.real(p + "t", 0.01, 4)))
    return els


def path(c, els, shape):
    rt = c.rt
    if shape == "flat":
        return rt.ImagingPath(els)
    if shape == "head":
        return rt.ImagingPath([rt.MatrixGroup(els[:-1]), els[-1]])
    return rt.ImagingPath([els[0], rt.MatrixGroup(els[1:])])


def apertures(c, els):
    """(A, B, z, D): height at each finite aperture of a ray (y, theta) is A y + B theta"""
    m, z, out = (1, 0, 0, 1), 0, []
    for e in els:
        if e.apertureDiameter != INF:
            out.append((m[0], m[1], z, e.apertureDiameter))
        m = mul2(abcd(e), m)
        z = z + e.L
    return out


def the_stop(c, ap, stop):
    """index of the aperture that is the stop"""
    for i, (A, B, z, D) in enumerate(ap):
        if c.decide(c.And(stop.z == z, stop.diameter == D)):
            return i
    c.check(False, "the stop is one of the apertures, at its position and diameter")
    return None


def stop_of(c, kinds, shape):
    els = build(c, kinds)
    ap = apertures(c, els)
    g = path(c, els, shape)
    # something limits the bundle
    c.assume(c.Or(*[abs(B) >= 0.01 for A, B, z, D in ap]))
    s = g.apertureStop()
    i = the_stop(c, ap, s)
    if i is None:
        return
    A, B, z, D = ap[i]
    for k, (a, b, _, d) in enumerate(ap):
        if k != i:
            c.le(abs(b) * D, abs(B) * d, "no other aperture limits the axial bundle more")
    c.check(g.hasApertureStop(), "a path that limits the bundle has a stop")
    c.reached("stop %d" % i)


def rays_of(c, kinds, shape):
    """marginal and axial rays, against the path traced"""
    els = build(c, kinds)
    ap = apertures(c, els)
    g = path(c, els, shape)
    c.assume(c.Or(*[abs(B) >= 0.01 for A, B, z, D in ap]))
    s = g.apertureStop()
    i = the_stop(c, ap, s)
    if i is None:
        return
    A, B, z, D = ap[i]
    # the code takes a plane within 1e-5 of an image for an image
    c.assume(abs(B) >= 0.01)
    y = c.real("y", -50, 50)
    m = g.marginalRays(y)
    up, down = m.up, m.down
    c.check(up is not None and down is not None, "there are marginal rays")
    c.eq(up.y, y, "marginal rays start at the object height")
    c.eq(down.y, y, "marginal rays start at the object height")
    hu, hd = A * up.y + B * up.theta, A * down.y + B * down.theta
    c.eq(abs(hu), D / 2, "the marginal rays meet the two edges of the stop")
    c.eq(hd, -hu, "the marginal rays meet the two edges of the stop")
    c.le(down.theta, up.theta, "up is the upper ray")
    c.check(bool(up.isBlocked) is False and bool(down.isBlocked) is False, "marginal rays are not blocked")
    x = g.axialRay()
    c.eq(x.y, 0, "the axial ray is the upper marginal ray from the axis")
    c.eq(x.theta, D / 2 / abs(B), "the axial ray is the upper marginal ray from the axis")
    m0 = g.marginalRays()
    c.eq(m0.up.theta, x.theta, "marginal rays are by default those from the axis")
    c.eq(m0.down.theta, -x.theta, "marginal rays are by default those from the axis")


def bundle(c, kinds, shape):
    """a flatter axial ray goes through everything, a steeper one is blocked"""
    els = build(c, kinds)
    ap = apertures(c, els)
    g = path(c, els, shape)
    c.assume(c.Or(*[abs(B) >= 0.01 for A, B, z, D in ap]))
    x = g.axialRay()
    if x is None:
        return
    k = c.real("k", -2, 2)
    c.assume(c.Or(abs(k) <= 0.99, abs(k) >= 1.01))
    r = g.traceThrough(c.rt.Ray(y=0, theta=k * x.theta))
    if c.decide(abs(k) < 1):
        c.check(not r.isBlocked, "a flatter axial ray goes through")
    else:
        c.check(bool(r.isBlocked), "a steeper axial ray is blocked")


def none(c, kinds):
    """no finite aperture"""
    rt = c.rt
    els = []
    for i, k in enumerate(kinds):
        els.append(element(c, k, "e%d" % i))
    g = rt.ImagingPath(els)
    s = g.apertureStop()
    c.check(s.z is None, "no aperture: no stop")
    c.check(s.diameter == INF, "no aperture: no stop")
    c.check(not g.hasApertureStop(), "no aperture: no stop")
    m = g.marginalRays(c.real("y", -50, 50))
    c.check(m.up is None and m.down is None, "no aperture: no marginal ray")
    c.check(g.axialRay() is None, "no aperture: no axial ray")


def at_object(c):
    """an aperture in the object plane limits no axial ray"""
    rt = c.rt
    g = rt.ImagingPath([rt.Aperture(dia(c, "a")), rt.Space(c.real("d", 0.1, 100)), rt.Lens(c.real("f", 1, 100))])
    s = g.apertureStop()
    c.check(s.diameter == INF, "an aperture on the object does not limit the axial bundle")
    m = g.marginalRays(0)
    c.check(m.up is None and m.down is None, "an aperture on the object does not limit the axial bundle")


def entrance(c):
    """light that converges into an element of finite length with a diameter"""
    rt = c.rt
    d, f, L = c.real("d", 10, 100), c.real("f", 5, 9), c.real("L", 1, 5)
    e = rt.Space(L, diameter=dia(c, "a"))
    D2 = dia(c, "b")
    g = rt.ImagingPath([rt.Space(d), rt.Lens(f), e, rt.Aperture(D2)])
    B = d + L * (1 - d / f)
    c.assume(abs(B) >= 0.01)
    # the entrance is narrower than what follows
    c.assume(d / e.apertureDiameter >= 1.1 * abs(B) / D2)
    x = g.axialRay()
    c.eq(x.theta, e.apertureDiameter / 2 / d, "the entrance of an element of finite length limits the bundle")


PATHS = [["s", "lens"], ["s", "a", "s", "a"], ["s", "lens", "s", "lens"], ["s", "lens", "s", "a"], ["s", "a", "s", "lens", "s"], ["lens", "s", "a"],
         ["s", "lens", "a", "s"], ["s", "mirror", "s", "a"], ["s", "i", "s", "i", "s"], ["s", "openlens", "s", "a", "s", "a"],
         ["s", "a", "openlens", "s", "a"], ["s", "slab", "s", "a"], ["s", "a", "s", "a", "s", "a"], ["a", "s", "lens"]]
MORE = [["s", "lens", "s", "lens", "s", "a"], ["s", "thick", "s", "a"], ["s", "i", "s", "i", "s", "i"], ["s", "a", "s", "openlens", "s", "a", "s", "a"],
        ["s", "mirror", "s", "lens", "s", "a"], ["s", "a", "s", "a", "s", "a", "s", "a"]]


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    P = PATHS + (MORE if tier == "thorough" else [])
    for p in P:
        n = "-".join(p)
        add("stop-" + n, "stop_of", p, "flat")
        add("rays-" + n, "rays_of", p, "flat")
        add("bundle-" + n, "bundle", p, "flat")
        if len(p) == 4:
            add("stop-head-" + n, "stop_of", p, "head")
            add("bundle-tail-" + n, "bundle", p, "tail")
    for k in (["space", "lens", "space"], ["thick", "space"], ["slab", "mirror"], ["lens"], []):
        add("none-" + "-".join(k), "none", k)
    add("at-object", "at_object")
    add("entrance", "entrance")
    return out


MUST_REACH = ["stop 0", "stop 1", "a steeper axial ray is blocked", "a flatter axial ray goes through", "no aperture: no stop"]
