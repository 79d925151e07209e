"""P02: every element obeys the paraxial law of its optics."""
from .common import *

BOUNDS = ("one element of each kind, all parameters real variables: distances 0..500, |f|,|R| in (0,500] or infinite, "
          "indices 1..4, thickness 0..100, diameters (0,100]; general matrices with entries up to 50; rays |y|<=50, |theta|<=2")
OUTSIDE = "non-numeric parameters; f or R equal to zero"


def law(c, m, r, y, theta, L, n1=1.0, n2=1.0, label=""):
    o = m * r
    c.eq(o.y, y, label + "height")
    c.eq(o.theta, theta, label + "angle")
    c.eq(o.z, r.z + L, label + "position")
    c.eq(m.L, L, label + "length")
    c.eq(m.frontIndex, n1, label + "front index")
    c.eq(m.backIndex, n2, label + "back index")
    c.eq(m.A * m.D - m.B * m.C, n1 / n2, label + "det")
    c.eq(m.determinant, n1 / n2, label + "determinant")
    c.check(m.isFlipped == False, label + "not flipped")


def vertices(c, m, fv, bv):
    c.eq(m.frontVertex, fv, "front vertex")
    c.eq(m.backVertex, bv, "back vertex")


def space(c, how):
    d, n, D = c.real("d", 0, 500), index(c, "n"), c.real("D", 0, 100, nonzero=True)
    r = ray(c)
    if how == 0:
        m = c.rt.Space(d)
        n = 1.0
        c.eq(m.apertureDiameter, INF, "unlimited aperture")
    elif how == 1:
        m = c.rt.Space(d=d, n=n, diameter=INF, label="x")
        c.check(m.label == "x", "label")
    else:
        m = c.rt.Space(d, n, D)
        c.eq(m.apertureDiameter, D, "aperture")
        c.assume(abs(r.y) <= D / 2)
    law(c, m, r, r.y + d * r.theta, r.theta, d, n, n)
    vertices(c, m, None, None)


def lens(c, how):
    f, D = c.real("f", -500, 500, nonzero=True), c.real("D", 0, 100, nonzero=True)
    r = ray(c)
    if how == 0:
        m = c.rt.Lens(f)
        c.eq(m.apertureDiameter, INF, "unlimited aperture")
    else:
        m = c.rt.Lens(f=f, diameter=D, label="x")
        c.eq(m.apertureDiameter, D, "aperture")
        c.assume(abs(r.y) <= D / 2)
    law(c, m, r, r.y, r.theta - r.y / f, 0)
    vertices(c, m, 0, 0)
    # parallel rays meet at the focal point
    p = m * c.rt.Ray(y=r.y, theta=0)
    c.eq(p.y + f * p.theta, 0, "lens focuses at f")


def lens_inf(c):
    m = c.rt.Lens(f=INF)
    r = ray(c)
    law(c, m, r, r.y, r.theta, 0)


def mirror(c, how):
    R, D = c.real("R", -500, 500, nonzero=True), c.real("D", 0, 100, nonzero=True)
    r = ray(c)
    if how == 0:
        m = c.rt.CurvedMirror(R)
    elif how == 1:
        m = c.rt.CurvedMirror(R=R, diameter=D, label="x")
        c.eq(m.apertureDiameter, D, "aperture")
        c.assume(abs(r.y) <= D / 2)
    else:
        m = c.rt.CurvedMirror(R=INF)
        law(c, m, r, r.y, r.theta, 0)
        return
    law(c, m, r, r.y, r.theta + 2 * r.y / R, 0)
    vertices(c, m, 0, 0)
    p = m * c.rt.Ray(y=r.y, theta=0)
    # concave (R < 0) mirrors converge, to half their radius
    c.eq(p.y - R / 2 * p.theta, 0, "mirror focuses at R/2")


def interface(c, flat, ap):
    n1, n2 = index(c, "n1"), index(c, "n2")
    D = c.real("D", 0, 100, nonzero=True) if ap else INF
    r = ray(c)
    if ap:
        c.assume(abs(r.y) <= D / 2)
    if flat:
        m = c.rt.DielectricInterface(n1, n2) if not ap else c.rt.DielectricInterface(n1=n1, n2=n2, diameter=D)
        law(c, m, r, r.y, n1 * r.theta / n2, 0, n1, n2)
        c.eq(m.R, INF, "flat radius")
    else:
        R = c.real("R", -500, 500, nonzero=True)
        m = c.rt.DielectricInterface(n1, n2, R, D) if ap else c.rt.DielectricInterface(n1=n1, n2=n2, R=R)
        law(c, m, r, r.y, (n1 * r.theta - (n2 - n1) * r.y / R) / n2, 0, n1, n2)
        c.eq(m.R, R, "radius")
    c.eq(m.apertureDiameter, D, "aperture")
    c.eq(m.n1, n1, "n1")
    c.eq(m.n2, n2, "n2")
    vertices(c, m, 0, 0)


def surfaces(r, n, R1, R2, t):
    """a ray through two surfaces of glass, step by step"""
    inv1 = 0 if R1 is None else 1 / R1
    inv2 = 0 if R2 is None else 1 / R2
    y = r.y
    th = (r.theta - (n - 1) * y * inv1) / n
    y = y + t * th
    th = n * th - (1 - n) * y * inv2
    return y, th


def thick(c, f1, f2, ap):
    """f1, f2: that surface is flat"""
    n, t = index(c, "n"), c.real("t", 0, 100)
    R1 = None if f1 else c.real("R1", -500, 500, nonzero=True)
    R2 = None if f2 else c.real("R2", -500, 500, nonzero=True)
    D = c.real("D", 0, 100, nonzero=True) if ap else INF
    r = ray(c)
    if ap:
        c.assume(abs(r.y) <= D / 2)
    a1, a2 = (INF if R1 is None else R1), (INF if R2 is None else R2)
    m = c.rt.ThickLens(n, a1, a2, t, D) if ap else c.rt.ThickLens(n=n, R1=a1, R2=a2, thickness=t)
    y, th = surfaces(r, n, R1, R2, t)
    law(c, m, r, y, th, t)
    vertices(c, m, 0, t)
    c.eq(m.apertureDiameter, D, "aperture")
    c.eq(m.n, n, "glass index")
    whole = c.rt.DielectricInterface(n, 1.0, a2) * c.rt.Space(t, n) * c.rt.DielectricInterface(1.0, n, a1)
    check_abcd(c, abcd(m), abcd(whole), "interface, glass, interface")
    c.eq(whole.L, t, "thickness")
    g = c.rt.MatrixGroup([c.rt.DielectricInterface(1.0, n, a1), c.rt.Space(t, n), c.rt.DielectricInterface(n, 1.0, a2)])
    check_abcd(c, abcd(g), abcd(m), "group of its parts")


def slab(c, ap):
    n, t = index(c, "n"), c.real("t", 0, 100)
    D = c.real("D", 0, 100, nonzero=True) if ap else INF
    r = ray(c)
    if ap:
        c.assume(abs(r.y) <= D / 2)
    m = c.rt.DielectricSlab(n, t, D) if ap else c.rt.DielectricSlab(n=n, thickness=t)
    law(c, m, r, r.y + t * r.theta / n, r.theta, t)
    vertices(c, m, 0, t)
    c.eq(m.apertureDiameter, D, "aperture")


def aperture(c, na):
    D = c.real("D", 0, 100, nonzero=True)
    NA = c.real("NA", 0, 2, nonzero=True) if na else INF
    r = ray(c)
    c.assume(abs(r.y) <= D / 2)
    m = c.rt.Aperture(D, NA) if na else c.rt.Aperture(diameter=D)
    c.eq(m.apertureDiameter, D, "aperture")
    c.eq(m.apertureNA, NA, "aperture NA")
    if na:
        c.assume(abs(r.theta) <= NA)
    law(c, m, r, r.y, r.theta, 0)


def matrix(c):
    """the general matrix is accepted exactly when its determinant fits its indices"""
    n1, n2 = index(c, "n1"), index(c, "n2")
    A, B, C, D = c.reals("A B C D", -50, 50)
    L = c.real("L", 0, 500)
    det = A * D - B * C
    bad = abs(det - n1 / n2) > 1e-5
    try:
        m = c.rt.Matrix(A, B, C, D, physicalLength=L, frontIndex=n1, backIndex=n2)
    except ValueError:
        c.check(bad, "refused only when inconsistent")
        return
    c.check(c.Not(bad), "accepted only when consistent")
    c.check(c.And(m.A == A, m.B == B, m.C == C, m.D == D, m.L == L), "recorded as given")
    c.eq(m.frontIndex, n1, "front index")
    c.eq(m.backIndex, n2, "back index")
    vertices(c, m, None, None)
    c.eq(m.apertureDiameter, INF, "unlimited aperture")
    c.eq(m.apertureNA, INF, "unlimited NA")
    r = ray(c)
    o = m * r
    c.eq(o.y, A * r.y + B * r.theta, "height")
    c.eq(o.theta, C * r.y + D * r.theta, "angle")
    c.eq(o.z, r.z + L, "position")


def vertexed(c):
    n1 = index(c, "n1")
    fv, bv = c.real("fv", -10, 10), c.real("bv", -10, 10)
    d, na = c.real("D", 0, 100, nonzero=True), c.real("NA", 0, 2, nonzero=True)
    m = c.rt.Matrix(1, 0, 0, 1, frontVertex=fv, backVertex=bv, frontIndex=n1, backIndex=n1, apertureDiameter=d,
                    apertureNA=na, label="x")
    vertices(c, m, fv, bv)
    c.eq(m.apertureDiameter, d, "aperture")
    c.eq(m.apertureNA, na, "aperture NA")
    c.check(m.label == "x", "label")


def refused(c, kind):
    D = c.real("D", -100, 0)
    rt = c.rt
    makers = {
        "matrix": lambda: rt.Matrix(apertureDiameter=D),
        "na": lambda: rt.Matrix(apertureNA=D),
        "space": lambda: rt.Space(1.0, 1.0, D),
        "lens": lambda: rt.Lens(10.0, D),
        "mirror": lambda: rt.CurvedMirror(10.0, D),
        "interface": lambda: rt.DielectricInterface(1.0, 1.5, 10.0, D),
        "thick": lambda: rt.ThickLens(1.5, 10.0, -10.0, 2.0, D),
        "slab": lambda: rt.DielectricSlab(1.5, 2.0, D),
        "aperture": lambda: rt.Aperture(D),
        "aperture-na": lambda: rt.Aperture(10.0, D),
    }
    c.raises(ValueError, makers[kind], "non-positive aperture is refused")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for h in (0, 1, 2):
        add(f"space-{h}", "space", h)
        add(f"mirror-{h}", "mirror", h)
    for h in (0, 1):
        add(f"lens-{h}", "lens", h)
        add(f"aperture-{h}", "aperture", h)
        add(f"slab-{h}", "slab", h)
    add("lens-inf", "lens_inf")
    for flat in (0, 1):
        for ap in (0, 1):
            add(f"interface-{flat}{ap}", "interface", flat, ap)
    for f1 in (0, 1):
        for f2 in (0, 1):
            for ap in (0, 1):
                add(f"thick-{f1}{f2}{ap}", "thick", f1, f2, ap)
    add("matrix", "matrix")
    add("vertices", "vertexed")
    for k in ("matrix", "na", "space", "lens", "mirror", "interface", "thick", "slab", "aperture", "aperture-na"):
        add(f"refused-{k}", "refused", k)
    return out


MUST_REACH = ["refused only when inconsistent", "accepted only when consistent", "lens focuses at f",
              "mirror focuses at R/2", "interface, glass, interface.A", "non-positive aperture is refused"]
