"""P01: matrix composition is faithful to tracing."""
from .common import *

BOUNDS = ("pairs and triples of one element of each kind, every parameter a real variable: lengths 0..500, |f|,|R| up "
          "to 500 and nonzero, n in 1..4, general matrices (with or without vertices anywhere) with |A|,|B|,|C| up to 50 and any consistent determinant; "
          "rays |y| up to 50, |theta| up to 2, |z| up to 100")
OUTSIDE = "infinite matrix entries; products of more than three factors (they follow from associativity)"

KINDS = ["space", "lens", "thick", "slab", "mirror", "aperture", "matrix", "interface", "flat"]


def pair(c, k1, k2, immersed):
    if immersed:
        n0, n1, n2 = index(c, "n0"), index(c, "n1"), index(c, "n2")
    else:
        n0 = n1 = n2 = 1.0
    if k1 == "space":
        n1 = n0
    if k2 == "space":
        n2 = n1
    m1 = element(c, k1, "a", n0, n1)
    m2 = element(c, k2, "b", n1, n2)
    m = m2 * m1
    check_abcd(c, abcd(m), mul2(abcd(m2), abcd(m1)), "product")
    c.eq(m.L, m1.L + m2.L, "length adds")
    c.eq(m.A * m.D - m.B * m.C, m1.frontIndex / m2.backIndex, "determinant is n_front/n_back")
    c.eq(m.frontIndex / m.backIndex, m1.frontIndex / m2.backIndex, "index ratio")
    c.eq(m.frontIndex, n0, "front index")
    c.eq(m.backIndex, n2, "back index")
    r = ray(c)
    a = m * r
    b = m2 * (m1 * r)
    c.eq(a.y, b.y, "ray height")
    c.eq(a.theta, b.theta, "ray angle")
    c.eq(a.z, b.z, "ray position")
    c.check(a.isNotBlocked, "unobstructed ray is not blocked")
    # operators dispatch to the same computation
    d = m2.mul_matrix(m1)
    check_abcd(c, abcd(d), abcd(m), "operator")
    # vertices: the first real interface and the last one, from the front edge
    fv = m1.frontVertex if m1.frontVertex is not None else (
        None if m2.frontVertex is None else m1.L + m2.frontVertex)
    bv = m1.backVertex if m2.backVertex is None else m1.L + m2.backVertex
    c.eq(m.frontVertex, fv, "front vertex")
    c.eq(m.backVertex, bv, "back vertex")


def vertices(c, shapes):
    """elements whose interfaces are anywhere inside them (or that have none)"""
    ms, zs, L = [], [], 0
    for i, shape in enumerate(shapes):
        p = f"m{i}"
        k = {"L": c.real(p + "L", 0, 500)}
        m = c.rt.Matrix(1, c.real(p + "B", -50, 50), 0, 1, physicalLength=k["L"],
                        frontVertex=c.real(p + "F", -50, 500) if "F" in shape else None,
                        backVertex=c.real(p + "V", -50, 500) if "B" in shape else None)
        ms.append(m)
        if m.frontVertex is not None:
            zs.append(("F", L + m.frontVertex))
        if m.backVertex is not None:
            zs.append(("B", L + m.backVertex))
        L = L + k["L"]
    total = ms[0]
    for m in ms[1:]:
        total = m * total
    front = [z for w, z in zs if w == "F"]
    back = [z for w, z in zs if w == "B"]
    c.eq(total.frontVertex, front[0] if front else None, "first interface")
    c.eq(total.backVertex, back[-1] if back else None, "last interface")
    c.eq(total.L, L, "length of all")


def triple(c, k1, k2, k3):
    m1, m2, m3 = element(c, k1, "a"), element(c, k2, "b"), element(c, k3, "c")
    l = (m3 * m2) * m1
    r = m3 * (m2 * m1)
    check_abcd(c, abcd(l), abcd(r), "associative")
    c.eq(l.L, r.L, "associative.L")
    c.eq(l.frontVertex, r.frontVertex, "associative.frontVertex")
    c.eq(l.backVertex, r.backVertex, "associative.backVertex")
    c.eq(l.frontIndex, r.frontIndex, "associative.frontIndex")
    c.eq(l.backIndex, r.backIndex, "associative.backIndex")


def identity(c, k, side):
    m = element(c, k, "a")
    i = c.rt.Matrix()
    p = m * i if side == "right" else i * m
    check_abcd(c, abcd(p), abcd(m), "identity is neutral")
    c.eq(p.L, m.L, "identity.L")
    c.eq(p.frontVertex, m.frontVertex, "identity.frontVertex")
    c.eq(p.backVertex, m.backVertex, "identity.backVertex")
    c.eq(p.frontIndex, m.frontIndex, "identity.frontIndex")
    c.eq(p.backIndex, m.backIndex, "identity.backIndex")


def immersed_identity(c, order):
    """an index-less identity element inside a medium keeps the medium's index"""
    n = index(c, "n")
    s = c.rt.Space(c.real("d", 0.001, 500), n=n)
    a = c.rt.Aperture(c.real("D", 0.1, 50))
    m = s * a if order else a * s
    c.eq(m.frontIndex, n, "medium.frontIndex")
    c.eq(m.backIndex, n, "medium.backIndex")


def wrong_type(c):
    m = element(c, "matrix", "a")
    x = c.real("x", -10, 10)
    for v in (x, "ray", None, [1.0]):
        c.raises(TypeError, lambda: m * v, "product with something else is refused")


def cases(tier):
    out = []
    air = [k for k in KINDS if k not in ("interface", "flat")]
    for a in air:
        for b in air:
            out.append(dict(name=f"pair-{a}-{b}", fn="pair", args=[a, b, False]))
    for a in ["space", "interface", "flat", "matrix"]:
        for b in ["space", "interface", "flat", "matrix"]:
            out.append(dict(name=f"immersed-{a}-{b}", fn="pair", args=[a, b, True]))
    trip = ["space", "lens", "matrix"] if tier == "quick" else ["space", "lens", "matrix", "thick", "mirror", "aperture"]
    for a in trip:
        for b in trip:
            for d in trip:
                if tier == "thorough" or (a, b, d).count("matrix") < 3:
                    out.append(dict(name=f"triple-{a}-{b}-{d}", fn="triple", args=[a, b, d]))
    two = ["", "FB", "F", "B"]
    for a in two:
        for b in two:
            out.append(dict(name=f"vertices-{a}-{b}", fn="vertices", args=[[a, b]]))
            for d in (two if tier == "thorough" else ["", "FB"]):
                out.append(dict(name=f"vertices-{a}-{b}-{d}", fn="vertices", args=[[a, b, d]]))
    for k in air:
        for s in ("left", "right"):
            out.append(dict(name=f"identity-{k}-{s}", fn="identity", args=[k, s]))
    for o in (0, 1):
        out.append(dict(name=f"medium-{o}", fn="immersed_identity", args=[o]))
    out.append(dict(name="wrong-type", fn="wrong_type"))
    return out


MUST_REACH = ["ray height", "associative.A", "identity is neutral.A", "product with something else is refused"]
