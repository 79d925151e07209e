"""P12: flipping an element or group is the optical reversal."""
from .common import *

BOUNDS = ("every kind of element, immersed or not, all parameters symbolic; groups, nested groups, achromats, singlets, objectives and "
          "imaging paths of up to 4 (thorough: 5) elements; all rays |y|<=50, |theta|<=2; one and two flips")
OUTSIDE = ("foci and focal lengths of groups of five elements; apertures and blocking of a reversed ray (the aperture of a finite-length element is at its entrance on either side); vertices of a plain Matrix, "
           "see known_findings.json; a mirror is turned around, not traversed: its power changes sign")


def els_of(c, kinds, p="s"):
    """a list of elements whose indices follow one another"""
    rt = c.rt
    els, n = [], 1.0
    for i, k in enumerate(kinds):
        q = p + str(i)
        if k == "in":
            m = index(c, q + "n")
            els.append(element(c, "interface", q, n, m))
            n = m
        elif k == "out":
            els.append(element(c, "interface", q, n, 1.0))
            n = 1.0
        elif k == "space":
            els.append(rt.Space(c.real(q + "d", 0, 500), n=n))
        elif k == "mat":
            m = index(c, q + "n")
            els.append(rt_matrix(c, q, n, m))
            n = m
        elif k == "group":
            els.append(rt.MatrixGroup([rt.Space(c.real(q + "d", 0, 500), n=n), element(c, "lens", q)]))
        elif k == "thick15":
            els.append(rt.ThickLens(1.5, c.real(q + "R1", -500, 500, nonzero=True), c.real(q + "R2", -500, 500, nonzero=True), c.real(q + "t", 0, 100)))
        else:
            els.append(element(c, k, q))
    return els


def quiet(fn):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def build(c, kind):
    rt = c.rt
    if isinstance(kind, list):
        return rt.MatrixGroup(els_of(c, kind))
    if kind == "immersed":
        return rt_matrix(c, "a", index(c, "n1"), index(c, "n2"))
    if kind == "interface":
        return element(c, kind, "a", index(c, "n1"), index(c, "n2"))
    if kind == "flat":
        return element(c, kind, "a", index(c, "n1"), index(c, "n2"))
    if kind == "spacen":
        return rt.Space(c.real("d", 0, 500), n=index(c, "n"))
    if kind == "objective":
        f, ff, wd = c.real("f", 1, 20), c.real("ff", 20, 150), c.real("wd", 0.1, 1)
        c.assume(2 * f <= ff)
        return quiet(lambda: rt.Objective(f=f, NA=0.5, focusToFocusLength=ff, backAperture=7, workingDistance=wd))
    if kind == "compound":
        n = index(c, "n")
        return rt.CompoundLens([element(c, "interface", "a", 1.0, n), rt.Space(c.real("t", 0, 50), n=n), element(c, "interface", "b", n, 1.0)],
                               designFocalLength=100)
    return element(c, kind, "a")


def leaves(c, m):
    return flatten(c, m.elements) if isinstance(m, c.rt.MatrixGroup) else [m]


def props(m):
    out = [("A", m.A), ("B", m.B), ("C", m.C), ("D", m.D), ("L", m.L), ("front vertex", m.frontVertex), ("back vertex", m.backVertex),
           ("front index", m.frontIndex), ("back index", m.backIndex), ("aperture", m.apertureDiameter)]
    for k in ("R", "R1", "R2", "n1", "n2", "n", "f"):
        if hasattr(m, k):
            out.append((k, getattr(m, k)))
    return out


def retrace(c, kind):
    m = build(c, kind)
    vertices = kind not in ("matrix", "immersed") and not (isinstance(kind, list) and "mat" in kind)
    before = dict(props(m))
    order = list(m.elements) if isinstance(m, c.rt.MatrixGroup) else None
    small = not isinstance(kind, list) or len(kind) < 5
    foc = m.focusPositions(0) if small and c.decide(abs(m.C) >= 1e-4) else None
    bfl, ffl = (m.backFocalLength(), m.frontFocalLength()) if small else (None, None)
    r = c.rt.Ray(y=c.real("y", -50, 50), theta=c.real("theta", -2, 2))
    there = m.trace(r)
    o = there[-1]
    c.assume(not o.isBlocked)
    back = c.ok(lambda: m.flipOrientation(), "flipping is accepted")
    c.check(back is m, "flipping returns the element itself")
    c.check(m.isFlipped == True, "flipped is recorded")
    ret = m.trace(c.rt.Ray(y=o.y, theta=-o.theta))
    c.check(not ret[-1].isBlocked, "sent back: not blocked")
    c.eq(ret[-1].y, r.y, "sent back: height")
    c.eq(ret[-1].theta, -r.theta, "sent back: angle")
    c.eq(ret[-1].z, before["L"], "sent back: distance")
    c.eq(m.L, before["L"], "same length")
    c.eq(m.frontIndex, before["back index"], "indices exchange")
    c.eq(m.backIndex, before["front index"], "indices exchange")
    c.eq(m.determinant, m.frontIndex / m.backIndex, "determinant")
    if foc is not None:
        F = m.focusPositions(0)
        c.eq(F.z1, before["L"] - foc.z2, "foci exchange")
        c.eq(F.z2, before["L"] - foc.z1, "foci exchange")
        c.reached("power")
    if vertices:
        c.check((m.frontVertex is None) == (before["back vertex"] is None), "vertices exchange: present")
        if m.frontVertex is not None and before["back vertex"] is not None:
            c.eq(m.frontVertex, before["L"] - before["back vertex"], "vertices exchange")
            c.eq(m.backVertex, before["L"] - before["front vertex"], "vertices exchange")
            if foc is not None and bfl is not None:
                c.eq(m.frontFocalLength(), bfl, "front and back focal lengths exchange")
                c.eq(m.backFocalLength(), ffl, "front and back focal lengths exchange")
    if order is not None:
        c.check(len(m.elements) == len(order) and all(a is b for a, b in zip(m.elements, order[::-1])), "order of elements reverses")
        # at every element on the way back the ray is where it was on the way there
        L = before["L"]
        ys = [(p.z, p.y) for p in there]
        zr = [(L - p.z, p.y) for p in ret]
        want = [(p.z, p.y) for p in there]
        for e in leaves(c, m):
            c.eq(e.A * e.D - e.B * e.C, e.frontIndex / e.backIndex, "every element: determinant")
        for z, y in zr:
            c.check(c.Or(*[c.And(z == a, c.near(y, b)) for a, b in want]), "sent back: same height at every boundary")


def twice(c, kind):
    m = build(c, kind)
    before = props(m)
    lv = [(e, props(e)) for e in leaves(c, m)]
    order = list(m.elements) if isinstance(m, c.rt.MatrixGroup) else None
    m.flipOrientation()
    c.ok(lambda: m.flipOrientation(), "flipping back is accepted")
    c.check(m.isFlipped == False, "flipped twice is not flipped")
    for (k, a), (k2, b) in zip(props(m), before):
        c.eq(a, b, "flipped twice: " + k)
    for e, p in lv:
        for (k, a), (k2, b) in zip(props(e), p):
            c.eq(a, b, "flipped twice: element " + k)
    if order is not None:
        c.check(all(a is b for a, b in zip(m.elements, order)), "flipped twice: order")


def turned_mirror(c, group):
    rt = c.rt
    R = c.real("R", -500, 500, nonzero=True)
    m = rt.CurvedMirror(R)
    g = rt.MatrixGroup([rt.Space(c.real("d", 0, 100)), m]) if group else m
    d = g.L
    g.flipOrientation()
    check_abcd(c, abcd(m), (1, 0, -2 / R, 1), "mirror turned around: opposite power")
    if group:
        check_abcd(c, abcd(g), (1 - 2 * d / R, d, -2 / R, 1), "group with a mirror turned around")


def plain_vertices(c):
    m = c.rt.Matrix(1, c.real("B", 0, 50), 0, 1, physicalLength=c.real("L", 1, 100), frontVertex=c.real("fv", 0, 1), backVertex=c.real("bv", 0, 1))
    L, fv, bv = m.L, m.frontVertex, m.backVertex
    m.flipOrientation()
    c.eq(m.frontVertex, L - bv, "vertices of a plain matrix exchange")
    c.eq(m.backVertex, L - fv, "vertices of a plain matrix exchange")


SINGLE = ("space", "spacen", "lens", "thick", "slab", "aperture", "matrix", "immersed", "interface", "flat", "compound", "objective")
GROUPS = [["lens"], ["space", "lens"], ["lens", "space", "lens"], ["thick", "space"], ["space", "in", "space"], ["in", "space", "out"],
          ["space", "slab", "lens"], ["mat", "space"], ["space", "group"], ["group", "thick15"], ["aperture", "space", "lens"],
          ["in", "space", "in", "space", "out"]]


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for k in SINGLE:
        add("retrace-" + k, "retrace", k)
        add("twice-" + k, "twice", k)
    add("twice-mirror", "twice", "mirror")
    for g in GROUPS + ([["space", "lens", "space", "lens", "space"], ["thick15", "space", "thick15"], ["space", "in", "space", "out", "lens"],
                        ["group", "space", "group"]] if tier == "thorough" else []):
        add("retrace-g-" + "-".join(g), "retrace", g)
        add("twice-g-" + "-".join(g), "twice", g)
    add("mirror", "turned_mirror", False)
    add("mirror-group", "turned_mirror", True)
    add("plain-vertices", "plain_vertices")
    return out


MUST_REACH = ["power", "sent back: height", "vertices exchange"]
