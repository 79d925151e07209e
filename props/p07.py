"""P07: a ray is blocked exactly when it misses an aperture, and stays so."""
from .common import *

BOUNDS = ("single elements of every kind with any diameter (0,100] and NA (0,2]; paths of 1 to 3 (thorough: 4) elements each with its own "
          "symbolic diameter, flat or nested; all rays |y|<=50, |theta|<=2, starting blocked or not")
OUTSIDE = ("a ray exactly at the edge within floating-point rounding; diameters of products (documented as lost)")


def dia(c, p):
    return c.real(p + "D", 0, 100, nonzero=True)


def make(c, kind, p):
    if kind == "NA":
        return c.rt.Aperture(dia(c, p), c.real(p + "NA", 0, 2, nonzero=True))
    if kind == "NAonly":
        return c.rt.Aperture(INF, c.real(p + "NA", 0, 2, nonzero=True))
    if kind == "spaceNA":
        d = c.real(p + "d", 0, 100, nonzero=True)
        return c.rt.Matrix(1, d, 0, 1, physicalLength=d, apertureDiameter=dia(c, p), apertureNA=c.real(p + "NA", 0, 2, nonzero=True))
    if kind in ("interface", "flat", "matrix", "matrixL0"):
        return element(c, kind, p, index(c, p + "n1"), index(c, p + "n2"), diameter=dia(c, p))
    return element(c, kind, p, diameter=dia(c, p))


def single(c, kind):
    e = make(c, kind, "a")
    r = ray(c)
    out = c.Or(abs(r.y) > e.apertureDiameter / 2, abs(r.theta) > e.apertureNA)
    blocked = bool((e * r).isBlocked)
    c.check(out if blocked else c.Not(out), "product: blocked exactly when outside")
    blocked = bool(e.traceThrough(r).isBlocked)
    c.check(out if blocked else c.Not(out), "trace: blocked exactly when outside")
    c.check((e * r).isNotBlocked == (not (e * r).isBlocked), "isNotBlocked is the contrary")
    c.reached("blocked" if blocked else "passes")
    # either sign
    s = c.rt.Ray(y=-r.y, theta=-r.theta)
    c.check(bool(e.traceThrough(s).isBlocked) == blocked, "same on both sides of the axis")


def unlimited(c, kind):
    e = element(c, kind, "a", *((index(c, "n1"), index(c, "n2")) if kind in ("interface", "flat", "matrix") else ()))
    r = ray(c)
    c.check(not (e * r).isBlocked, "unlimited never blocks")
    c.check(not e.traceThrough(r).isBlocked, "unlimited never blocks")
    c.check(not e.hasFiniteApertureDiameter(), "unlimited aperture is not finite")


def already(c, kind):
    e = make(c, kind, "a")
    r = ray(c)
    r.isBlocked = True
    c.check(bool((e * r).isBlocked), "blocked stays blocked")
    c.check(all(bool(p.isBlocked) for p in e.trace(r)), "blocked stays blocked")
    g = c.rt.MatrixGroup([e])
    c.check(all(bool(p.isBlocked) for p in g.trace(r)), "blocked stays blocked")


def path(c, kinds, shape, cls="MatrixGroup"):
    els = [make(c, k, "s%d" % i) for i, k in enumerate(kinds)]
    rt = c.rt
    if shape == "flat":
        top = els
    elif shape == "head":
        top = [rt.MatrixGroup(els[:-1]), els[-1]]
    else:
        top = [els[0], rt.MatrixGroup(els[1:])]
    g = getattr(rt, cls)(top)
    r = ray(c)
    t = g.trace(r)
    # where a ray that nothing stops would be
    y, th, z = r.y, r.theta, r.z
    first = None
    for i, e in enumerate(els):
        if c.decide(c.Or(abs(y) > e.apertureDiameter / 2, abs(th) > e.apertureNA)):
            first = (z, z + e.L)
            break
        y, th, z = e.A * y + e.B * th, e.C * y + e.D * th, z + e.L
    flags = [bool(p.isBlocked) for p in t]
    if first is None:
        c.check(not any(flags), "within every aperture: never blocked")
        c.eq(t[-1].y, y, "arrives where it should")
        c.eq(t[-1].z, z, "arrives where it should")
        c.reached("arrives")
    else:
        c.check(flags[-1], "outside one aperture: blocked")
        k = flags.index(True) if True in flags else len(flags)
        c.check(all(flags[k:]) and not any(flags[:k]), "once blocked stays blocked")
        if k < len(t):
            c.check(c.And(t[k].z >= first[0], t[k].z <= first[1]), "blocked at the first element it misses")
        c.reached("stopped")
    c.check(bool(g.traceThrough(r).isBlocked) == (first is not None), "traceThrough agrees")
    c.check(bool(g.hasFiniteApertureDiameter()) == any(e.apertureDiameter != INF for e in els), "finite aperture is reported")


def exit_side(c):
    """the documented check after having propagated through the element"""
    e = c.rt.Space(c.real("d", 0.1, 100), diameter=dia(c, "a"))
    r = ray(c)
    c.assume(abs(r.y) <= e.apertureDiameter / 2)
    o = e.traceThrough(r)
    c.check(c.Implies(abs(r.y + e.L * r.theta) > e.apertureDiameter / 2, bool(o.isBlocked)),
            "a ray beyond the aperture at the exit is blocked")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for k in ("space", "lens", "thick", "slab", "mirror", "aperture", "matrix", "matrixL0", "interface", "flat", "NA", "NAonly", "spaceNA"):
        add("single-" + k, "single", k)
        add("already-" + k, "already", k)
    for k in ("space", "lens", "thick", "slab", "mirror", "aperture", "matrix", "interface", "flat"):
        if k != "aperture":
            add("unlimited-" + k, "unlimited", k)
    P = [["space"], ["aperture"], ["lens", "space"], ["space", "lens"], ["NA", "lens"], ["space", "NA"], ["mirror", "space", "aperture"],
         ["NAonly"], ["space", "NAonly"], ["NAonly", "lens", "space"], ["space", "lens", "aperture"], ["space", "lens", "space"], ["thick", "aperture"], ["slab", "lens"]]
    if tier == "thorough":
        P += [["space", "lens", "space", "aperture"], ["lens", "space", "lens", "space"], ["thick", "space", "aperture"],
              ["spaceNA", "lens", "NA"]]
    for p in P:
        add("path-" + "-".join(p), "path", p, "flat")
        if len(p) == 3:
            add("head-" + "-".join(p), "path", p, "head")
            add("tail-" + "-".join(p), "path", p, "tail")
    add("imaging", "path", ["space", "lens", "aperture"], "flat", "ImagingPath")
    add("exit", "exit_side")
    return out


MUST_REACH = ["blocked", "passes", "arrives", "stopped", "blocked stays blocked", "unlimited never blocks"]
