"""P17: Gaussian beams follow the ABCD law."""
import math
from .common import *

BOUNDS = ("every beam with |Re q| <= 500, Im q in [0.001, 500] (and non-finite ones apart), wavelength 1e-4 to 1e-2 mm, index 1 to 4, position and clipping; every kind of "
          "element, products of 2, paths of 2 and 3 elements, flat or nested; apertures 0.01 to 100 mm; beams made from w 0.001 to 50 and R of either sign or infinite")
OUTSIDE = "a beam whose radius equals half the aperture within floating-point rounding, not exactly; the numerical value of the tolerance when both q and w are given beyond 0.4% and 0.6%"

LEAVES = ["space", "lens", "thick", "slab", "mirror", "aperture", "interface", "flat", "matrix", "matrixL0"]


def beam(c, n=1.0, p="", finite=True, z=None):
    rt = c.rt
    re, im = c.real(p + "re", -500, 500), c.real(p + "im", 0.001, 500) if finite else c.real(p + "im", -500, 0)
    b = rt.GaussianBeam(q=re + im * 1j, n=n, wavelength=c.real(p + "lam", 1e-4, 1e-2), z=c.real(p + "z", -100, 100) if z is None else z)
    return b


def apart(q):
    return q.real, q.imag


def moebius(m, q):
    """(Aq+B)/(Cq+D) for q = (re, im), real and imaginary parts by hand"""
    A, B, C, D = m
    x, y = q
    nr, ni = A * x + B, A * y
    dr, di = C * x + D, C * y
    d2 = dr * dr + di * di
    return (nr * dr + ni * di) / d2, (ni * dr - nr * di) / d2


def make(c, kind, p, diameter=INF):
    n1, n2 = (index(c, p + "n1"), index(c, p + "n2")) if kind in ("interface", "flat", "matrix", "matrixL0") else (1.0, 1.0)
    return element(c, kind, p, n1, n2, diameter=diameter)


def same_q(c, b, want, label):
    r, i = apart(b.q)
    c.eq(r, want[0], label)
    c.eq(i, want[1], label)


def single(c, kind):
    e = make(c, kind, "a")
    b = beam(c, e.frontIndex)
    lam, z, q = b.wavelength, b.z, b.q
    o = e * b
    same_q(c, o, moebius(abcd(e), apart(q)), "q follows the ABCD law")
    c.check(o.n == e.backIndex, "the beam takes the element's back index")
    c.eq(o.wavelength, lam, "the beam keeps its wavelength")
    c.eq(o.z, z + e.L, "the beam's position advances by the length")
    c.check(o.isClipped is False, "no aperture: not clipped")
    # the beam given is as it was
    c.check(b.q is q or b.q == q, "the beam given is unchanged")
    c.check(b.z is z and b.isClipped is False, "the beam given is unchanged")
    t = e.trace(b)
    same_q(c, t[-1], apart(o.q), "tracing is the same as multiplying")
    c.eq(t[-1].z, o.z, "tracing is the same as multiplying")


def clip(c, kind):
    D = c.real("D", 0.01, 100)
    e = make(c, kind, "a", D)
    b = beam(c, e.frontIndex, z=0)
    b.isClipped = bool(c.choice("before", 2))
    before = b.isClipped
    o = e * b
    x, y = moebius(abcd(e), apart(b.q))
    # w^2 = lambda |q|^2 / (pi n Im q)
    w2 = b.wavelength * (x * x + y * y) / (math.pi * e.backIndex * y)
    if o.isClipped:
        c.check(before or c.And(4 * w2 > D * D * 0.999999), "clipped only when wider than the aperture or before")
        c.reached("clipped")
    else:
        c.check(not before, "clipped stays clipped")
        c.check(4 * w2 <= D * D * 1.000001, "wider than the aperture: clipped")
        c.reached("passes")


def pair(c, k1, k2):
    a = make(c, k1, "a")
    n = a.backIndex
    if k2 in ("interface", "flat", "matrix"):
        b = element(c, k2, "b", n, index(c, "bn"))
    elif k2 == "space":
        b = c.rt.Space(c.real("bd", 0, 500), n=n)
    else:
        b = element(c, k2, "b")
    g = beam(c, a.frontIndex)
    one, two = b * (a * g), (b * a) * g
    same_q(c, one, apart(two.q), "the product acts as its elements in turn")
    c.check(one.n == two.n, "the product acts as its elements in turn")
    c.eq(one.z, two.z, "the product acts as its elements in turn")
    c.eq(one.wavelength, two.wavelength, "the product acts as its elements in turn")


def trace(c, kinds, shape, cls):
    rt = c.rt
    els, n = [], 1.0
    for i, k in enumerate(kinds):
        p = "e%d" % i
        D = c.real(p + "D", 0.01, 100) if k in ("lens", "aperture") else INF
        if k == "in":
            m = index(c, p + "n")
            els.append(element(c, "interface", p, n, m))
            n = m
        elif k == "space":
            els.append(rt.Space(c.real(p + "d", 0, 500), n=n))
        else:
            els.append(element(c, k, p, diameter=D))
    g = getattr(rt, cls)(els if shape == "flat" else [rt.MatrixGroup(els[:-1]), els[-1]])
    b = beam(c)
    t = g.trace(b)
    if shape == "flat":
        c.check(len(t) == len(els) + 1, "one beam after each element")
    q, z, clipped, k = apart(b.q), b.z, False, 1
    c.check(t[0] == b or t[0] is b, "the trace starts with the beam")
    for e in els:
        q, z = moebius(abcd(e), q), z + e.L
    last = t[-1]
    same_q(c, last, q, "the last beam is the ABCD law of the whole path")
    c.eq(last.z, z, "the last beam is at the end")
    c.check(last.n == g.backIndex, "the last beam is in the last medium")
    c.eq(last.wavelength, b.wavelength, "wavelength kept along the path")
    flags = [bool(x.isClipped) for x in t]
    first = flags.index(True) if True in flags else len(flags)
    c.check(all(flags[first:]), "clipped stays clipped")
    if first < len(flags):
        w, D = t[first].w, [e for e in els][first - 1].apertureDiameter if shape == "flat" else None
        if D is not None:
            c.le(D / 2, w, "clipped where the beam is wider than the aperture")
        c.reached("clipped on the way")
    if shape == "flat":
        for i, e in enumerate(els):
            if e.apertureDiameter != INF and not flags[i + 1]:
                c.le(t[i + 1].w, e.apertureDiameter / 2, "not clipped where the beam is within the aperture")
    one = g.traceThrough(b)
    same_q(c, one, q, "traceThrough gives the last beam")
    c.check(bool(one.isClipped) == flags[-1], "traceThrough gives the last beam")


def wR(c, flat):
    rt = c.rt
    w, n, lam = c.real("w", 0.001, 50), index(c, "n"), c.real("lam", 1e-4, 1e-2)
    if flat:
        b = rt.GaussianBeam(w=w, n=n, wavelength=lam)
    else:
        R = c.real("R", -1000, 1000)
        c.assume(abs(R) >= 0.01)
        b = rt.GaussianBeam(w=w, R=R, n=n, wavelength=lam)
    c.check(b.isFinite, "a beam made from w and R is finite")
    c.eq(b.w, w, "it reports its w back")
    if flat:
        c.check(not c.is_finite(b.R), "it reports its R back")
        c.eq(b.wo, w, "a flat beam is at its waist")
        c.eq(b.waistPosition, 0, "a flat beam is at its waist")
    else:
        c.eq(b.R, R, "it reports its R back")
    c.check(b.n is n or b.n == n, "it reports its index back")
    c.eq(b.wavelength, lam, "it reports its wavelength back")


def derived(c):
    """waist, position and Rayleigh range of any beam"""
    rt = c.rt
    n = index(c, "n")
    b = beam(c, n, z=0)
    x, y = apart(b.q)
    c.check(b.isFinite, "positive imaginary part: finite")
    c.eq(b.w * b.w * math.pi * n * y, b.wavelength * (x * x + y * y), "w of q")
    if c.decide(x == 0):
        c.check(not c.is_finite(b.R), "R of q")
    else:
        c.eq(b.R * x, x * x + y * y, "R of q")
    c.eq(b.zo, y, "the Rayleigh range is the imaginary part of q")
    c.eq(b.rayleighRange, y, "the Rayleigh range is the imaginary part of q")
    c.eq(b.confocalParameter, y, "the Rayleigh range is the imaginary part of q")
    c.eq(b.wo * b.wo * math.pi * n, y * b.wavelength, "the waist is that of the Rayleigh range")
    c.eq(b.waist, b.wo, "waist is wo")
    c.eq(b.waistPosition, -x, "the waist is at -Re q")
    # taken there, the beam has that size and is flat
    o = rt.Space(b.waistPosition, n=n) * b
    c.eq(o.w, b.wo, "at the waist position the beam has its waist")
    c.eq(o.q.real, 0, "at the waist position the beam is flat")


def notfinite(c):
    b = beam(c, finite=False)
    c.check(not b.isFinite, "no positive imaginary part: not finite")
    c.check(b.w == INF, "not finite: infinite w")
    c.check(b.wo is None, "not finite: no waist")
    c.eq(b.waistPosition, -b.q.real, "the waist position is -Re q")
    c.eq(b.rayleighRange, b.q.imag, "the Rayleigh range is the imaginary part of q")
    # sent through elements
    q, lam, z = b.q, b.wavelength, b.z
    for e in (c.rt.Space(c.real("d", 0, 100)), c.rt.Lens(50), c.rt.Lens(-20, diameter=10)):
        if c.decide(q.imag > -0.001):
            continue
        o = e * b
        same_q(c, o, moebius(abcd(e), apart(q)), "q follows the ABCD law")
        c.check(not o.isFinite, "not finite stays so")
        c.check(bool(o.isClipped) == (e.apertureDiameter != INF), "an infinitely wide beam is clipped by any aperture")
        c.eq(o.wavelength, lam, "the beam keeps its wavelength")


def edge(c, finite):
    """a beam exactly as wide as the aperture goes through"""
    b = beam(c)
    free = c.rt.Matrix() * b
    D = 2 * free.w
    o = c.rt.Matrix(apertureDiameter=D) * b
    c.check(not o.isClipped, "a beam exactly as wide as the aperture is not clipped")
    o = c.rt.Matrix(apertureDiameter=D / 2) * b
    c.check(bool(o.isClipped), "a beam wider than the aperture is clipped")


def wrong(c, kind):
    e = make(c, kind, "a")
    n = index(c, "nb")
    c.assume(n != e.frontIndex)
    b = beam(c, n)
    c.raises(RuntimeError, lambda: e * b, "a beam in the wrong index is refused")


def given(c):
    """q and w together, and neither"""
    rt = c.rt
    c.raises(ValueError, lambda: rt.GaussianBeam(), "neither q nor w is refused")
    w, lam, n = c.real("w", 0.01, 10), c.real("lam", 1e-4, 1e-2), index(c, "n")
    y = math.pi * w * w * n / lam
    k = c.real("k", 0.9, 1.1)
    c.assume(c.Or(abs(k - 1) <= 0.004, abs(k - 1) >= 0.006))
    f = lambda: rt.GaussianBeam(q=k * y * 1j, w=w, wavelength=lam, n=n)
    if c.decide(abs(k - 1) < 0.005):
        b = c.ok(f, "consistent q and w are accepted")
        c.eq(b.w, w, "consistent q and w: w is kept", tol=0.01)
    else:
        c.raises(ValueError, f, "inconsistent q and w are refused")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for k in LEAVES:
        if k != "aperture":
            add("single-" + k, "single", k)
        add("clip-" + k, "clip", k)
        if k != "aperture":
            add("wrong-" + k, "wrong", k)
    P = [("space", "lens"), ("lens", "space"), ("space", "interface"), ("interface", "space"), ("thick", "space"), ("mirror", "space"), ("matrix", "flat"), ("slab", "lens")]
    if tier == "thorough":
        P = [(a, b) for a in ("space", "lens", "thick", "slab", "mirror") for b in ("space", "lens", "thick", "mirror", "interface", "flat")] + P[3:4] + P[6:7]
    for a, b in P:
        add("pair-%s-%s" % (a, b), "pair", a, b)
    T = [["space", "lens"], ["lens", "space", "aperture"], ["space", "aperture", "space"], ["in", "space"]]
    if tier == "thorough":
        T += [["space", "lens", "space", "aperture"], ["in", "space", "in", "space"], ["thick", "space", "aperture"]]
    for k in T:
        add("trace-" + "-".join(k), "trace", k, "flat", "LaserPath")
        if len(k) > 2:
            add("nested-" + "-".join(k), "trace", k, "nested", "MatrixGroup")
    add("wR", "wR", False)
    add("w-flat", "wR", True)
    add("derived", "derived")
    add("notfinite", "notfinite")
    add("edge", "edge", True)
    add("given", "given")
    return out


MUST_REACH = ["clipped", "passes", "clipped on the way", "a beam in the wrong index is refused"]
