"""P16: the field stop is what limits the chief ray, and sets the field of view."""
from .common import *
from .p14 import build, path, apertures, the_stop, dia

BOUNDS = ("paths of 1 to 3 finite apertures (thin lenses, diaphragms, interfaces) with every diameter 0.01 to 100 mm symbolic, distances and focal lengths symbolic (one or two "
          "apertures) or fixed (three); search precision 1 or 2 mm with height limit 400 mm (the whole search symbolic), and the default precision 1e-6 with a field "
          "of view known to 1e-5 mm; a field of view down to the precision; any object height and any field of view for the image size")
OUTSIDE = ("field of view below the precision; two apertures that limit the chief ray within twice the precision of each other, of which either may be named; fields between 0.4 and 1 "
           "time the height limit, which the growing steps may or may not try; a stop within 1e-5 of an image of the object (no chief ray)")


def limits(c, ap, i):
    """chief ray height at each aperture per unit of object height, as (slope, z, D)"""
    A, B, z, D = ap[i]
    out = []
    for k, (a, b, zk, d) in enumerate(ap):
        if k != i:
            out.append(((a * B - b * A) / B, zk, d))
    return out


def search(c, kinds, shape, fixed, prec, hmax, what, window=None):
    rt = c.rt
    if fixed:
        els = []
        for k, v in fixed:
            if k == "s":
                els.append(rt.Space(v))
            elif k == "lens":
                els.append(rt.Lens(v, diameter=dia(c, "e%d" % len(els))))
            elif k == "openlens":
                els.append(rt.Lens(v))
            elif k == "a":
                els.append(rt.Aperture(dia(c, "e%d" % len(els))))
            elif k == "thick":
                els.append(rt.ThickLens(1.5, v, -v, 2, diameter=dia(c, "e%d" % len(els))))
    else:
        els = build(c, kinds)
    ap = apertures(c, els)
    g = path(c, els, shape)
    c.assume(c.Or(*[abs(B) >= 0.01 for A, B, z, D in ap]))
    if any(isinstance(e, rt.ThickLens) for e in els):
        # never the stop
        c.assume(els[-1].apertureDiameter >= els[1].apertureDiameter)
    i = the_stop(c, ap, g.apertureStop())
    if i is None:
        return
    c.assume(abs(ap[i][1]) >= 0.01)
    lim = limits(c, ap, i)
    if prec is not None:
        g.precision = prec
        g.maxHeight = hmax
    p, H = g.precision, g.maxHeight
    # the chief ray from y misses aperture k when y > D/(2|s|)
    if window is not None:
        c.assume(c.Or(*[c.And(2 * abs(s) * window[0] <= D, D <= 2 * abs(s) * window[1]) for s, z, D in lim]))
        c.assume(c.And(*[2 * abs(s) * window[0] <= D for s, z, D in lim]))
    # the field is not below the precision
    c.assume(c.And(*[2 * abs(s) * p <= D for s, z, D in lim]))
    # no limit where the growing steps may or may not look
    c.assume(c.And(*[c.Or(D > 2 * abs(s) * H * 1.001, D < 2 * abs(s) * H * 0.4) for s, z, D in lim]))
    inside = c.decide(c.Or(*[D < 2 * abs(s) * H * 0.4 for s, z, D in lim])) if lim else False
    if what == "stop":
        f = g.fieldStop()
        if not inside:
            c.check(f.z is None, "no aperture limits the chief ray: no field stop")
            c.check(f.diameter == INF, "no aperture limits the chief ray: no field stop")
            return
        c.check(f.z is not None, "an aperture limits the chief ray: there is a field stop")
        if f.z is None:
            return
        for s, z, D in lim:
            if c.decide(c.And(f.z == z, f.diameter == D)):
                c.check(2 * abs(s) * H > D, "the field stop blocks the chief ray as the object height grows")
                for s2, z2, D2 in lim:
                    # D/2|s| <= D2/2|s2| + 2p
                    c.le(D * abs(s2), D2 * abs(s) + 4.001 * p * abs(s) * abs(s2), "no aperture blocks the chief ray before the field stop")
                c.reached("field stop")
                return
        c.check(False, "the field stop is one of the apertures, at its position and diameter")
    else:
        h = g.halfFieldOfView()
        if not inside:
            c.check(h == INF, "no aperture limits the chief ray: infinite field of view")
            return
        c.check(c.is_finite(h), "an aperture limits the chief ray: finite field of view")
        if not c.is_finite(h):
            return
        c.check(h >= 0, "the half field of view is not negative")
        for s, z, D in lim:
            c.le(2 * abs(s) * h, D, "the chief ray from the edge of the field goes through")
        c.check(c.Or(*[2 * abs(s) * (h + 2.001 * p) >= D for s, z, D in lim]),
                "the chief ray from beyond the edge of the field is blocked")
        c.reached("finite field")


def derived(c, kinds):
    """field of view, image size and field stop presence from the half field"""
    els = build(c, kinds)
    g = path(c, els, "flat")
    h = c.real("h", 0, 50)
    g.halfFieldOfView = lambda: h
    c.eq(g.fieldOfView(), 2 * h, "the field of view is twice its half")
    m = (1, 0, 0, 1)
    for e in els:
        m = mul2(abcd(e), m)
    A, B, C, D = m
    o = c.real("o", 0, 50)
    g.objectHeight = o
    if c.decide(D == 0):
        c.check(not c.is_finite(g.imageSize()), "no image: infinite size")
        c.check(not c.is_finite(g.imageSize(useObject=True)), "no image: infinite size")
        return
    c.assume(abs(D) >= 1e-3)
    d, conj = g.forwardConjugate()
    # magnification of the image: 1/D in a single medium
    mag = g.frontIndex / g.backIndex / D
    c.eq(g.imageSize(), 2 * h * abs(mag), "the image size is the field of view times the magnification")
    c.eq(g.imageSize(useObject=True), o * abs(mag), "on request it is the object height times the magnification")
    g.halfFieldOfView = lambda: INF
    c.check(g.fieldOfView() == INF, "an infinite field of view")
    if c.decide(mag != 0):
        c.check(not c.is_finite(g.imageSize()), "infinite field: infinite image")
    c.eq(g.imageSize(useObject=True), o * abs(mag), "on request it is the object height times the magnification")
    g.fieldStop = lambda: c.rt.imagingpath.Stop(z=c.real("z", 0, 100), diameter=o)
    c.check(g.hasFieldStop(), "a path with a field stop has one")
    g.fieldStop = lambda: c.rt.imagingpath.Stop(z=None, diameter=INF)
    c.check(not g.hasFieldStop(), "a path without a field stop has none")
    del g.halfFieldOfView
    c.check(g.halfFieldOfView() == INF, "no field stop: infinite field of view")


def none(c, kinds):
    rt = c.rt
    g = rt.ImagingPath([element(c, k, "e%d" % i) for i, k in enumerate(kinds)])
    f = c.ok(g.fieldStop, "no aperture: no field stop")
    c.check(f.z is None and f.diameter == INF, "no aperture: no field stop")
    c.check(c.ok(g.halfFieldOfView, "no aperture: infinite field") == INF, "no aperture: infinite field")
    c.check(g.fieldOfView() == INF, "no aperture: infinite field")
    c.check(not g.hasFieldStop(), "no aperture: no field stop")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    sym = [["s", "a", "s", "a"], ["s", "lens", "s", "a"], ["s", "a", "openlens"], ["s", "a", "openlens", "s", "a"], ["s", "lens", "s", "lens"], ["s", "i", "s", "i"]]
    for k in sym:
        for w in ("stop", "field"):
            if tier == "thorough":
                add("%s-%s" % (w, "-".join(k)), "search", k, "flat", None, 2.0, 400.0, w, max_paths=4000, max_decisions=4000, weight=9)
            if tier == "quick" and k == ["s", "i", "s", "i"] and w == "field":
                continue
            win = None if k == ["s", "a", "openlens"] else [20.0, 40.0] if k == ["s", "a", "s", "a"] else [24.0, 28.0]
            add("window-%s-%s" % (w, "-".join(k)), "search", k, "flat", None, 2.0, 400.0, w, win, max_paths=4000, max_decisions=4000, weight=8)
    add("stop-nested", "search", ["s", "a", "s", "a"], "head", None, 2.0, 400.0, "stop", [20.0, 40.0], max_paths=4000, max_decisions=4000)
    three = [[("s", 100.0), ("lens", 50.0), ("s", 30.0), ("a", 0), ("s", 40.0), ("lens", 20.0)], [("s", 10.0), ("a", 0), ("s", 5.0), ("openlens", 10.0), ("a", 0), ("s", 15.0), ("a", 0)],
             [("s", 30.0), ("lens", 25.0), ("s", 20.0), ("thick", 40.0)]]
    for i, k in enumerate(three):
        for w in ("stop", "field"):
            add("three-%d-%s" % (i, w), "search", None, "flat", k, 2.0, 400.0, w, [10.0, 30.0] if tier == "quick" and i < 2 else None, max_paths=6000, max_decisions=4000)
    for w in ("stop", "field"):
        add("fine-" + w, "search", None, "flat", [("s", 10.0), ("lens", 50.0), ("s", 10.0), ("a", 0)], None, None, w, [5.0, 5.00001], max_paths=4000, max_decisions=6000)
        add("small-" + w, "search", None, "flat", [("s", 10.0), ("lens", 50.0), ("s", 10.0), ("a", 0)], 2.0, 400.0, w, [2.0, 90.0], max_paths=4000, max_decisions=6000)
    for k in (["s", "lens", "s"], ["i", "s"], ["s", "a", "s", "lens", "s", "a"], ["thick", "s"], ["s", "slab"], ["s", "i", "s"]):
        add("image-" + "-".join(k), "derived", k)
    for k in (["space", "lens", "space"], ["thick"], []):
        add("none-" + "-".join(k), "none", k)
    return out


MUST_REACH = ["field stop", "finite field", "the image size is the field of view times the magnification", "no aperture limits the chief ray: no field stop"]
