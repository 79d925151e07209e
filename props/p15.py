"""P15: chief ray, pupils, f-number and NA agree with the aperture stop."""
from .common import *
from .p14 import build, path, apertures, the_stop, dia, PATHS, MORE

BOUNDS = ("the paths of P14 (1 to 3, thorough 4, finite apertures on thin elements separated by spaces, focal lengths 1 to 500 mm of either sign, distances up to "
          "500 mm, diameters 0.01 to 100 mm), flat or nested, in air or immersed; every object height up to 50 mm; any field of view")
OUTSIDE = ("which aperture is the stop (P14) and what the field of view is (P16, a free value here); a stop within 1e-5 of an image of the object, "
           "which the code says has no chief ray; the stop seen through power below 1e-5; plain matrices of no length in contact with the stop")


def setup(c, kinds, shape):
    els = build(c, kinds)
    ap = apertures(c, els)
    g = path(c, els, shape)
    c.assume(c.Or(*[abs(B) >= 0.01 for A, B, z, D in ap]))
    i = the_stop(c, ap, g.apertureStop())
    if i is None:
        return None
    A, B, z, D = ap[i]
    c.assume(abs(B) >= 0.01)
    return g, els, A, B, z, D


def chief(c, kinds, shape):
    s = setup(c, kinds, shape)
    if s is None:
        return
    g, els, A, B, z, D = s
    y = c.real("y", -50, 50)
    r = g.chiefRay(y)
    c.check(r is not None, "there is a chief ray")
    c.eq(r.y, y, "the chief ray starts at the object height")
    c.eq(A * r.y + B * r.theta, 0, "the chief ray crosses the axis at the stop")
    c.check(not r.isBlocked, "the chief ray starts unblocked")
    # as traced, for a ray flat enough to go through everything
    t = g.transferMatrix(upTo=z) * c.rt.Ray(r.y, r.theta)
    c.eq(t.y, 0, "the chief ray traced crosses the axis at the stop")
    # by default the object is at the edge of the field
    fov = c.real("fov", 0, 50)
    g.halfFieldOfView = lambda: fov
    c.eq(g.chiefRay().y, fov, "by default the chief ray is from the edge of the field")
    p = g.principalRay()
    c.eq(p.y, fov, "the principal ray is the chief ray from the edge of the field")
    c.eq(A * p.y + B * p.theta, 0, "the principal ray is the chief ray from the edge of the field")
    g.halfFieldOfView = lambda: INF
    c.raises(ValueError, lambda: g.chiefRay(), "an infinite field has no chief ray at its edge")
    c.check(g.principalRay() is None, "an infinite field has no principal ray")


def pupil(c, kinds, shape):
    s = setup(c, kinds, shape)
    if s is None:
        return
    g, els, A, B, z, D = s
    p = g.entrancePupil()
    if c.decide(A == 0):
        c.check(not c.is_finite(p.z), "a stop in the focal plane has its pupil at infinity")
        c.check(not c.is_finite(p.diameter), "a stop in the focal plane has its pupil at infinity")
        c.reached("telecentric")
        return
    c.eq(p.diameter * abs(A), D, "the pupil's image has the diameter of the stop")
    n = g.frontIndex
    # a ray (h, theta) in the plane of the pupil is (h - z theta, theta) at the front of the path
    c.eq(p.z * A, B, "the pupil is conjugate to the stop")
    # rays through one point of the pupil's edge reach one point of the stop's
    for k in (1, 2):
        t = c.real("t%d" % k, -2, 2)
        h = A * (p.diameter / 2 - p.z * t) + B * t
        c.eq(abs(h), D / 2, "every ray through the edge of the pupil meets the edge of the stop")


def numbers(c, kinds, shape):
    s = setup(c, kinds, shape)
    if s is None:
        return
    g, els, A, B, z, D = s
    p, N = g.entrancePupil(), g.fNumber()
    f1, f2 = g.effectiveFocalLengths()
    if c.decide(A == 0):
        c.check(c.is_finite(N) or f1 == INF, "the f-number of an infinite pupil")
    elif c.is_finite(f1):
        c.eq(N * p.diameter, f1, "the f-number is the focal length over the entrance pupil diameter")
        c.reached("finite f-number")
    else:
        c.check(not c.is_finite(N), "no power: infinite f-number")
    m = (1, 0, 0, 1)
    for e in els:
        m = mul2(abcd(e), m)
    if c.is_finite(f1):
        c.eq(f1 * m[2] * g.backIndex, -g.frontIndex, "the focal length is that of the path")
    x = g.axialRay()
    c.eq(x.theta * abs(B), D / 2, "the axial ray meets the edge of the stop")
    c.eq(g.NA(), g.frontIndex * c.sin(x.theta), "the NA is the index times the sine of the axial ray's angle")


def immersed(c, what):
    """object in a medium: the pupil and NA are those of the object side"""
    rt = c.rt
    n, m = index(c, "n"), index(c, "m")
    d1, d2 = c.real("d1", 1, 100), c.real("d2", 1, 100)
    R = c.real("R", -500, 500)
    c.assume(abs(R) >= 1)
    i1 = rt.DielectricInterface(n, m, R)
    i2 = rt.DielectricInterface(m, 1.0, diameter=dia(c, "a"))
    els = [rt.Space(d1, n=n), i1, rt.Space(d2, n=m), i2]
    g = rt.ImagingPath(els)
    (A, B, z, D), = apertures(c, els)
    c.assume(abs(B) >= 0.01)
    if what == "pupil":
        p = g.entrancePupil()
        if c.decide(A == 0):
            return
        c.eq(p.z * A, B, "the pupil is conjugate to the stop")
        c.eq(p.diameter * abs(A), D, "the pupil's image has the diameter of the stop")
    elif what == "NA":
        x = g.axialRay()
        c.eq(x.theta * abs(B), D / 2, "the axial ray meets the edge of the stop")
        c.eq(g.NA(), n * c.sin(x.theta), "the NA is the index times the sine of the axial ray's angle")
    else:
        y = c.real("y", -50, 50)
        r = g.chiefRay(y)
        c.eq(A * r.y + B * r.theta, 0, "the chief ray crosses the axis at the stop")


def none(c, kinds):
    rt = c.rt
    g = rt.ImagingPath([element(c, k, "e%d" % i) for i, k in enumerate(kinds)])
    c.check(c.ok(lambda: g.chiefRay(c.real("y", -50, 50)), "no stop: no chief ray") is None, "no stop: no chief ray")
    c.check(c.ok(lambda: g.chiefRay(), "no stop: no chief ray") is None, "no stop: no chief ray")
    c.check(c.ok(g.principalRay, "no stop: no principal ray") is None, "no stop: no principal ray")
    p = c.ok(g.entrancePupil, "no stop: no entrance pupil")
    c.check(p.z is None and p.diameter is None, "no stop: no entrance pupil")
    c.check(c.ok(g.fNumber, "no stop: no f-number") is None, "no stop: no f-number")
    c.check(c.ok(g.NA, "no stop: no NA") is None, "no stop: no NA")


def at_object(c):
    """the only aperture is on the object: it limits no axial ray"""
    rt = c.rt
    g = rt.ImagingPath([rt.Aperture(dia(c, "a")), rt.Space(c.real("d", 0.1, 100)), rt.Lens(c.real("f", 1, 100))])
    c.check(c.ok(lambda: g.chiefRay(c.real("y", -50, 50)), "nothing limits the bundle") is None, "nothing limits the bundle: no chief ray")
    c.check(c.ok(g.NA, "nothing limits the bundle: no NA") is None, "nothing limits the bundle: no NA")
    p = c.ok(g.entrancePupil, "nothing limits the bundle: infinite pupil")
    c.check(p.diameter is None or not c.is_finite(p.diameter), "nothing limits the bundle: infinite pupil")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    P = PATHS + (MORE if tier == "thorough" else [])
    for p in P:
        n = "-".join(p)
        add("chief-" + n, "chief", p, "flat")
        add("pupil-" + n, "pupil", p, "flat")
        add("numbers-" + n, "numbers", p, "flat")
        if len(p) == 4:
            add("chief-head-" + n, "chief", p, "head")
            add("pupil-tail-" + n, "pupil", p, "tail")
    for w in ("pupil", "NA", "chief"):
        add("immersed-" + w, "immersed", w)
    for k in (["space", "lens", "space"], ["thick", "space"], ["lens"], []):
        add("none-" + "-".join(k), "none", k)
    add("at-object", "at_object")
    return out


MUST_REACH = ["telecentric", "finite f-number", "the pupil is conjugate to the stop", "the chief ray crosses the axis at the stop"]
