"""P10: focal and principal points are where rays say they are."""
from .common import *

BOUNDS = ("one element of every kind, general matrices and groups of 2 to 3 elements, all parameters symbolic (|A|,|B|,|C|,|D| up to 50, "
          "lengths up to 500, indices 1..4, vertices anywhere on or off), |C| >= 1e-4 or C = 0; any reference position z in -100..100")
OUTSIDE = "0 < |C| < 1e-4, which the code treats as no power below its documented 1e-5"


def prod(c, *ms):
    m = ms[0]
    for n in ms[1:]:
        m = mul2(m, n)
    return m


def sp(d):
    return (1, d, 0, 1)


def system(c, kind):
    """(system, its matrix by hand or None)"""
    rt = c.rt
    if kind in ("matrix", "matrixv", "immersed", "immersedv"):
        n1, n2 = (index(c, "n1"), index(c, "n2")) if kind.startswith("immersed") else (1.0, 1.0)
        A = c.real("A", -50, 50, nonzero=True)
        B = c.real("B", -50, 50)
        C = c.real("C", -50, 50)
        L = c.real("L", 0, 500)
        v = dict(frontVertex=c.real("fv", -100, 500), backVertex=c.real("bv", -100, 500)) if kind.endswith("v") else {}
        return rt.Matrix(A, B, C, (n1 / n2 + B * C) / A, physicalLength=L, frontIndex=n1, backIndex=n2, **v)
    if kind in ("A0", "A0immersed"):
        n1, n2 = (index(c, "n1"), index(c, "n2")) if kind == "A0immersed" else (1.0, 1.0)
        C = c.real("C", -50, 50, nonzero=True)
        return rt.Matrix(0, -(n1 / n2) / C, C, c.real("D", -50, 50), physicalLength=c.real("L", 0, 500), frontIndex=n1, backIndex=n2)
    if kind == "interface":
        return element(c, kind, "a", index(c, "n1"), index(c, "n2"))
    if kind in ("lens", "thick", "mirror", "slab", "space", "aperture"):
        return element(c, kind, "a")
    if kind == "lens-space-lens":
        return rt.MatrixGroup([element(c, "lens", "a"), element(c, "space", "b"), element(c, "lens", "c")])
    if kind == "space-lens-space":
        return rt.ImagingPath([element(c, "space", "a"), element(c, "lens", "b"), element(c, "space", "c")])
    if kind == "glass":
        n = index(c, "n")
        return rt.MatrixGroup([element(c, "interface", "a", 1.0, n), rt.Space(c.real("d", 0, 100), n=n), element(c, "interface", "b", n, 1.0)])
    if kind == "intoglass":
        n1, n2 = index(c, "n1"), index(c, "n2")
        return rt.MatrixGroup([rt.Space(c.real("d", 0, 100), n=n1), element(c, "interface", "a", n1, n2), rt.Space(c.real("e", 0, 100), n=n2)])
    if kind == "product":
        return element(c, "lens", "c") * (element(c, "space", "b") * element(c, "lens", "a"))
    if kind == "nested":
        return rt.MatrixGroup([rt.MatrixGroup([element(c, "space", "a"), element(c, "thick", "b")]), element(c, "space", "d")])
    raise ValueError(kind)


def cardinal(c, kind):
    m = system(c, kind)
    z = c.real("z", -100, 100)
    if c.decide(m.C == 0):
        f1, f2 = m.effectiveFocalLengths()
        c.check(f1 == INF and f2 == INF, "no power: infinite focal lengths")
        c.check(m.focalDistances() == (INF, INF), "no power: infinite focal lengths")
        c.check(not m.hasPower, "no power is reported")
        c.check(tuple(m.focusPositions(z)) == (None, None), "no power: no focus")
        c.check(tuple(m.principalPlanePositions(z)) == (None, None), "no power: no principal planes")
        c.check(m.backFocalLength() is None and m.frontFocalLength() is None, "no power: no back or front focal length")
        c.raises(ValueError, lambda: c.rt.ToFocus(m), "no power: no way to the focus")
        c.raises(ValueError, lambda: m.fromFocusToFocus(), "no power: no way between foci")
        return
    c.assume(abs(m.C) >= 1e-4)
    c.reached("power")
    M = abcd(m)
    F = m.focusPositions(z)
    P = m.principalPlanePositions(z)
    f1, f2 = m.effectiveFocalLengths()
    c.check(m.hasPower, "power is reported")
    c.eq(F.z1, F[0], "named")
    c.eq(P.z2, P[1], "named")
    # parallel in: crosses the axis at the back focus
    out = c.ok(lambda: m.traceThrough(c.rt.Ray(y=1, theta=0, z=z)), "parallel ray traced")
    c.eq(out.y + (F.z2 - out.z) * out.theta, 0, "a parallel ray crosses the axis at the back focus")
    # from the front focus: leaves parallel
    y0 = (z - F.z1) * 1
    out = m.traceThrough(c.rt.Ray(y=y0, theta=1, z=z))
    c.eq(out.theta, 0, "a ray from the front focus leaves parallel")
    # principal planes
    T = prod(c, sp(P.z2 - z - m.L), M, sp(z - P.z1))
    c.eq(T[1], 0, "principal planes are conjugate")
    c.eq(T[0], 1, "principal planes have unit magnification")
    c.eq(f2, F.z2 - P.z2, "back effective focal length is from principal plane to focus")
    c.eq(f1, P.z1 - F.z1, "front effective focal length is from focus to principal plane")
    c.eq(f1 * m.backIndex, f2 * m.frontIndex, "focal lengths in the ratio of the indices")
    c.eq(m.focalDistances()[0], f1, "focal distances are the effective focal lengths")
    c.eq(m.focalDistances()[1], f2, "focal distances are the effective focal lengths")
    if m.backVertex is not None:
        c.eq(m.backFocalLength(), F.z2 - (z + m.backVertex), "back focal length is from the back vertex")
    else:
        c.check(m.backFocalLength() is None, "no vertex: no back focal length")
    if m.frontVertex is not None:
        c.eq(m.frontFocalLength(), z + m.frontVertex - F.z1, "front focal length is to the front vertex")
    else:
        c.check(m.frontFocalLength() is None, "no vertex: no front focal length")
    # position shifts with z only
    G = m.focusPositions(0)
    c.eq(G.z1 + z, F.z1, "foci move with the element")
    c.eq(G.z2 + z, F.z2, "foci move with the element")


def tofocus(c, kind):
    m = system(c, kind)
    c.assume(abs(m.C) >= 1e-4)
    s = c.ok(lambda: c.rt.ToFocus(m), "the way to the focus exists")
    t = s * m
    c.eq(t.A, 0, "to the focus: parallel rays meet there")
    c.eq(s.frontIndex, m.backIndex, "to the focus: in the medium behind")
    g = c.ok(lambda: m.fromFocusToFocus(), "the way between foci exists")
    c.eq(g.A, 0, "from focus to focus")
    c.eq(g.D, 0, "from focus to focus")
    c.eq(g.C, m.C, "from focus to focus: same power")
    c.eq(g.L, m.focusPositions(0).z2 - m.focusPositions(0).z1, "from focus to focus: length")
    c.reached("tofocus")


def points(c, kind):
    """points of interest are the foci"""
    m = system(c, kind)
    z = c.real("z", -100, 100)
    c.assume(abs(m.C) >= 1e-4)
    F = m.focusPositions(z)
    pts = {p["label"]: p["z"] for p in m.pointsOfInterest(z)}
    c.eq(pts["$F_f$"], F.z1, "labelled front focus")
    c.eq(pts["$F_b$"], F.z2, "labelled back focus")


KINDS = ("matrix", "matrixv", "immersed", "immersedv", "A0", "A0immersed", "interface", "lens", "thick", "mirror", "slab", "space", "aperture",
         "lens-space-lens", "space-lens-space", "glass", "intoglass", "product", "nested")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for k in KINDS:
        add("cardinal-" + k, "cardinal", k)
        if k not in ("slab", "space", "aperture"):
            add("tofocus-" + k, "tofocus", k)
    for k in ("lens", "thick", "mirror"):
        add("points-" + k, "points", k)
    return out


MUST_REACH = ["power", "tofocus", "no power: no focus"]
