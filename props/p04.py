"""P04: partial propagation splits a path exactly."""
from .common import *

BOUNDS = ("z any real in [0, 2000]; single elements of every kind and paths of 1 to 4 elements (flat, nested once or twice), "
          "all parameters symbolic (lengths 0..500, thickness 0..100, indices 1..4)")
OUTSIDE = "negative z; the inside of an element that is neither a space, slab, thick lens nor a group (it is refused, which is checked)"


def inside(c, e, z):
    """matrix and index from the front of e to z inside it (0 <= z < e.L)"""
    if isinstance(e, c.rt.ThickLens):          # a slab too
        inv = 0 if (not c.symbolic and e.R1 == INF) or (c.symbolic and isinstance(e.R1, float)) else 1 / e.R1
        m1 = (1, 0, -(e.n - 1) * inv / e.n, 1 / e.n)
        return mul2((1, z, 0, 1), m1), e.n
    return (1, z, 0, 1), e.frontIndex


def expected(c, els, z):
    """(matrix, length, back index); branches on where z falls"""
    m, L = (1, 0, 0, 1), 0
    back = els[0].frontIndex if els else 1
    for e in els:
        if e.L <= z - L:
            m = mul2(abcd(e), m)
            L = L + e.L
            back = e.backIndex
        else:
            p, back = inside(c, e, z - L)
            return mul2(p, m), z, back, True
    return m, L, back, False


def check_upto(c, x, els, z, label):
    m, L, back, cut = expected(c, els, z)
    t = x.transferMatrix(upTo=z)
    check_abcd(c, abcd(t), m, label)
    c.eq(t.L, L, label + ": length")
    if els:
        c.eq(t.frontIndex, els[0].frontIndex, label + ": front index")
        c.eq(t.backIndex, back, label + ": back index")
        c.eq(t.determinant, els[0].frontIndex / back, label + ": determinant")
    if cut:
        c.reached(label + ": inside an element")
    return t


def single(c, kind):
    e = element(c, kind, "a")
    z = c.real("z", 0, 2000)
    check_upto(c, e, [e], z, "single")
    check_abcd(c, abcd(e.transferMatrix()), abcd(e), "whole")
    c.check(e.transferMatrices() == [e], "one matrix")


def immersed_single(c):
    n = index(c, "n")
    e = c.rt.Space(c.real("d", 0, 500), n=n)
    z = c.real("z", 0, 2000)
    check_upto(c, e, [e], z, "single")


def flipped_thick(c):
    e = element(c, "thick", "a")
    R1, R2, n, t = e.R1, e.R2, e.n, e.L
    e.flipOrientation()
    z = c.real("z", 0, 200)
    m = e.transferMatrix(upTo=z)
    if z < t:
        want = mul2((1, z, 0, 1), (1, 0, (n - 1) / R2 / n, 1 / n))
        check_abcd(c, abcd(m), want, "flipped: the other surface comes first")
        c.eq(m.L, z, "flipped: length")
    else:
        check_abcd(c, abcd(m), abcd(e), "flipped: whole")


def path(c, kinds, cls="MatrixGroup", immersed=False):
    els = []
    if immersed:
        n, m = index(c, "n"), index(c, "m")
        els = [c.rt.Space(c.real("s0d", 0, 500), n=n), c.rt.DielectricInterface(n, m, c.real("R", 1, 500)),
               c.rt.Space(c.real("s1d", 0, 500), n=m)]
    else:
        els = [element(c, k, "s%d" % i) for i, k in enumerate(kinds)]
    g = getattr(c.rt, cls)(els)
    z = c.real("z", 0, 2000)
    t = check_upto(c, g, els, z, "path")
    w = g.transferMatrix()
    if z >= g.L:
        check_abcd(c, abcd(t), abcd(w), "whole path from its length on")
        c.eq(t.L, g.L, "whole path length")
    r = ray(c)
    a, b = t * r, expected(c, els, z)[0]
    c.eq(a.y, b[0] * r.y + b[1] * r.theta, "ray there")
    c.eq(a.z, r.z + t.L, "position there")


def nested(c, shape):
    a, b, d = element(c, "space", "a"), element(c, "lens", "b"), element(c, "space", "d")
    rt = c.rt
    if shape == 0:
        g = rt.MatrixGroup([rt.MatrixGroup([a, b]), d])
    elif shape == 1:
        g = rt.MatrixGroup([a, rt.MatrixGroup([b, d])])
    elif shape == 2:
        g = rt.MatrixGroup([rt.MatrixGroup([rt.MatrixGroup([a, b]), d])])
    else:
        g = rt.ImagingPath([a, rt.ImagingPath([b, d])])
    z = c.real("z", 0, 2000)
    check_upto(c, g, [a, b, d], z, "nested")


def thick_nested(c):
    a, b = element(c, "space", "a"), element(c, "slab", "b")
    g = c.rt.MatrixGroup([a, c.rt.MatrixGroup([b])])
    z = c.real("z", 0, 2000)
    check_upto(c, g, [a, b], z, "nested")


def opaque(c):
    """the inside of a generic element of finite length is not known: it is refused"""
    a = element(c, "space", "a")
    m = rt_matrix(c, "m")
    z = c.real("z", 0, 2000)
    g = c.rt.MatrixGroup([a, m])
    c.assume(z >= a.L)
    if z < a.L + m.L:
        c.raises(TypeError, lambda: g.transferMatrix(upTo=z), "inside of an unknown element is refused")
        c.raises(TypeError, lambda: m.transferMatrix(upTo=z - a.L), "inside of an unknown element is refused")
    else:
        check_abcd(c, abcd(g.transferMatrix(upTo=z)), mul2(abcd(m), abcd(a)), "after an unknown element")


def achromat(c):
    n1, n2 = c.real("n1", 1.2, 2), c.real("n2", 1.2, 2)
    R1, R2, R3 = c.real("R1", 20, 200), c.real("R2", -200, -20), c.real("R3", -500, -20)
    t1, t2 = c.real("t1", 1, 20), c.real("t2", 1, 20)
    rt = c.rt
    els = [rt.DielectricInterface(1.0, n1, R1), rt.Space(t1, n1), rt.DielectricInterface(n1, n2, R2), rt.Space(t2, n2),
           rt.DielectricInterface(n2, 1.0, R3)]
    lens = rt.CompoundLens(elements=els, designFocalLength=10)
    sp = element(c, "space", "a")
    g = rt.MatrixGroup([sp, lens])
    z = c.real("z", 0, 2000)
    check_upto(c, g, [sp] + els, z, "compound lens")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for k in ("space", "lens", "thick", "slab", "mirror", "aperture"):
        add("single-" + k, "single", k)
    add("single-immersed", "immersed_single")
    add("flipped-thick", "flipped_thick")
    paths = [[], ["space"], ["space", "lens"], ["lens", "space"], ["space", "lens", "space"], ["thick", "space"],
             ["space", "thick"], ["slab", "lens"], ["space", "space", "space"], ["space", "aperture", "lens"], ["mirror", "space", "mirror"]]
    if tier == "thorough":
        paths += [["space", "thick", "space"], ["space", "lens", "space", "lens"], ["thick", "slab"],
                  ["slab", "space", "slab"], ["space", "lens", "space", "lens", "space"], ["space", "thick", "slab", "lens"]]
    for p in paths:
        add("path-" + "-".join(p), "path", p)
    add("imaging-path", "path", ["space", "lens", "space"], "ImagingPath")
    add("immersed-path", "path", [], "MatrixGroup", True)
    for s in range(4):
        add(f"nested-{s}", "nested", s)
    add("nested-slab", "thick_nested")
    add("opaque", "opaque")
    add("compound", "achromat")
    return out


MUST_REACH = ["single: inside an element", "path: inside an element", "nested: inside an element",
              "whole path from its length on.A", "inside of an unknown element is refused", "flipped: the other surface comes first.A"]
