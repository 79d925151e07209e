"""P11: conjugate planes really are conjugate."""
from .common import *
from .p10 import system, prod, sp

BOUNDS = ("general matrices and every kind of element, immersed or not, groups of 1 to 3 elements, all parameters symbolic; the "
          "degenerate cases A = 0 and D = 0 included; intermediate conjugates of paths of up to 4 (thorough: 5) elements, flat or nested")
OUTSIDE = ("intermediate images closer than 1e-3 in both position and magnification to one already listed, which the code merges; the "
           "matrix returned with an infinite backward conjugate distance")


def forward(c, kind):
    m = system(c, kind)
    r = m.forwardConjugate()
    c.check(r.d is r[0] and r.transferMatrix is r[1], "named")
    if c.decide(m.D == 0):
        c.check(not c.is_finite(r.d) and r.transferMatrix is None, "no finite image is said")
        c.raises(ValueError, lambda: c.rt.ToConjugate(m), "no way to an image at infinity")
        return
    T, M = r.transferMatrix, abcd(m)
    want = prod(c, sp(r.d), M)
    c.eq(want[1], 0, "every ray from the object meets at the image")
    check_abcd(c, abcd(T), want, "matrix to the image")
    c.eq(T.L, m.L + r.d, "length to the image")
    c.eq(T.frontIndex, m.frontIndex, "index at the object")
    c.eq(T.backIndex, m.backIndex, "index at the image")
    mag = T.magnification()
    c.check(T.isImaging, "isImaging")
    c.eq(mag.transverse, T.A, "transverse magnification")
    c.eq(mag.angular, T.D, "angular magnification")
    # two rays from one object point
    y = c.real("y", -50, 50)
    a = T.traceThrough(c.rt.Ray(y=y, theta=c.real("t1", -2, 2)))
    b = T.traceThrough(c.rt.Ray(y=y, theta=c.real("t2", -2, 2)))
    c.eq(a.y, b.y, "rays from one point meet")
    c.eq(a.y, mag.transverse * y, "image size")
    s = c.ok(lambda: c.rt.ToConjugate(m), "the way to the image exists")
    c.eq(s.L, r.d, "the way to the image: length")
    c.eq(s.frontIndex, m.backIndex, "the way to the image: medium")
    c.eq((s * m).B, 0, "the way to the image leads there")
    c.reached("forward")


def backward(c, kind):
    m = system(c, kind)
    r = c.ok(lambda: m.backwardConjugate(), "backwardConjugate exists")
    c.check(r.d is r[0] and r.transferMatrix is r[1], "named")
    if c.decide(m.A == 0):
        c.check(not c.is_finite(r.d), "no finite object is said")
        return
    T, M = r.transferMatrix, abcd(m)
    want = prod(c, M, sp(r.d))
    c.eq(want[1], 0, "every ray from the object meets at the back")
    check_abcd(c, abcd(T), want, "matrix from the object")
    c.eq(T.L, m.L + r.d, "length from the object")
    c.eq(T.frontIndex, m.frontIndex, "index at the object")
    c.eq(T.backIndex, m.backIndex, "index at the image")
    mag = T.magnification()
    c.eq(mag.transverse, T.A, "transverse magnification")
    c.eq(mag.angular, T.D, "angular magnification")
    c.eq(T.A * T.D, m.frontIndex / m.backIndex, "product of the magnifications")
    c.reached("backward")


def roundtrip(c, kind):
    """the image of the object is where it should"""
    m = system(c, kind)
    d = c.real("d", 0, 200)
    s = c.rt.Space(d, n=m.frontIndex)
    g = m * s
    c.assume(abs(g.D) >= 1e-3)
    c.assume(abs(m.A) >= 1e-3)
    f = g.forwardConjugate()
    h = c.rt.Space(f.d, n=m.backIndex) * m
    c.assume(h.A != 0)
    b = c.ok(lambda: h.backwardConjugate(), "backwardConjugate exists")
    c.eq(b.d, d, "the object of the image is the object")
    c.eq(b.transferMatrix.A, f.transferMatrix.A, "same magnification both ways")
    c.reached("round trip")


def notimaging(c):
    A, B = c.real("A", -50, 50, nonzero=True), c.real("B", -50, 50)
    C = c.real("C", -50, 50)
    m = c.rt.Matrix(A, B, C, (1 + B * C) / A)
    if c.decide(B == 0):
        c.check(m.isImaging, "B = 0 is imaging")
        c.eq(m.magnification().transverse, A, "magnification A")
        c.eq(m.magnification().angular, m.D, "magnification D")
    else:
        c.assume(abs(B) > 1e-4)
        c.check(not m.isImaging, "B != 0 is not imaging")
        c.check(tuple(m.magnification()) == (None, None), "no magnification when not imaging")


def intermediate(c, kinds, shape):
    rt = c.rt
    els = []
    n = 1.0
    for i, k in enumerate(kinds):
        if k == "in":
            n2 = index(c, "n%d" % i)
            els.append(element(c, "interface", "s%d" % i, n, n2))
            n = n2
        elif k == "out":
            els.append(element(c, "interface", "s%d" % i, n, 1.0))
            n = 1.0
        elif k == "space" or k == "space+":
            els.append(rt.Space(c.real("s%dd" % i, 0, 500, nonzero=k == "space+"), n=n))
        else:
            els.append(element(c, k, "s%d" % i))
    if shape == "nested":
        top = [rt.MatrixGroup(els[:-1]), els[-1]]
    elif shape == "tail":
        top = [els[0], rt.MatrixGroup(els[1:])]
    else:
        top = els
    g = rt.ImagingPath(top)
    planes = g.intermediateConjugates()
    # by hand: the image formed by the elements so far
    M, L = (1, 0, 0, 1), 0
    want = []
    for e in els:
        M = prod(c, abcd(e), M)
        L = L + e.L
        if c.decide(M[3] == 0):
            continue
        d = -M[1] / M[3]
        want.append((L + d, M[0] + d * M[2]))
    for p, mag in planes:
        c.check(c.Or(*[c.And(p == z, mag == a) for z, a in want]), "every listed plane is an image, with its magnification")
        c.check(p != 0, "the object is not its own image")
    tol = 1e-3
    for z, a in want:
        hit = [c.And(abs(p - z) <= tol, abs(m - a) <= tol) for p, m in planes]
        c.check(c.Or(z == 0, *hit), "every image is listed")
    if planes:
        c.reached("images")
    c.check(len(planes) <= len(want), "none listed twice")
    for i in range(len(planes)):
        for j in range(i):
            c.check(c.Not(c.And(planes[i][0] == planes[j][0], planes[i][1] == planes[j][1])), "none listed twice")


KINDS = ("matrix", "immersed", "A0", "A0immersed", "interface", "lens", "thick", "mirror", "slab", "space", "aperture",
         "lens-space-lens", "space-lens-space", "glass", "intoglass", "product", "nested")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for k in KINDS:
        add("forward-" + k, "forward", k)
        add("backward-" + k, "backward", k)
    for k in ("matrix", "immersed", "lens", "interface", "thick", "space-lens-space"):
        add("roundtrip-" + k, "roundtrip", k)
    add("notimaging", "notimaging")
    P = [["space"], ["lens"], ["space", "lens"], ["space+", "lens", "space+"], ["lens", "space", "lens"], ["space", "mirror"],
         ["space", "in", "space"], ["space", "in", "out"], ["thick", "space"], ["space", "aperture", "lens"]]
    if tier == "thorough":
        P += [["space+", "lens", "space+", "lens"], ["space+", "lens", "space+", "lens", "space+"], ["space+", "in", "space+", "out"]]
    else:
        P += [["space+", "lens", "space+", "lens"]]
    for p in P:
        add("inter-" + "-".join(p), "intermediate", p, "flat")
        if len(p) == 3:
            add("inter-nested-" + "-".join(p), "intermediate", p, "nested")
            add("inter-tail-" + "-".join(p), "intermediate", p, "tail")
    return out


MUST_REACH = ["forward", "backward", "round trip", "images", "no finite image is said", "no finite object is said"]
