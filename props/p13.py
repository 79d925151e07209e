"""P13: the optical invariant is conserved."""
from .common import *
from .p12 import els_of

BOUNDS = ("pairs of rays |y|<=50, |theta|<=2 through every kind of element and paths of 1 to 4 (thorough: 5) elements, flat or nested, "
          "immersed or not, at any z from 0 to beyond the end; axial and principal rays any pair for the Lagrange invariant")
OUTSIDE = ("blocked rays; z inside a general matrix or mirror group that has no partial propagation (TypeError as documented); that the axial and principal "
           "rays are the right ones (P14, P15)")


def two(c):
    rt = c.rt
    return (rt.Ray(y=c.real("y1", -50, 50), theta=c.real("t1", -2, 2)), rt.Ray(y=c.real("y2", -50, 50), theta=c.real("t2", -2, 2)))


def inv(n, a, b):
    return n * (a.theta * b.y - a.y * b.theta)


def along(c, kinds, cls, shape):
    rt = c.rt
    els = els_of(c, kinds)
    top = [rt.MatrixGroup(els[:-1]), els[-1]] if shape == "nested" else els
    g = getattr(rt, cls)(top)
    a, b = two(c)
    z = c.real("z", 0, 3000)
    L = 0
    for e in els:
        # a general matrix has no inside
        if type(e).__name__ == "Matrix":
            c.assume(c.Or(z < L, z >= L + e.L))
        L = L + e.L
    want = inv(g.frontIndex, a, b)
    v = c.ok(lambda: g.opticalInvariant(a, b, z=z), "the invariant exists everywhere")
    c.eq(v, want, "same at any distance")
    c.eq(g.opticalInvariant(b, a, z=z), -v, "antisymmetric")
    c.eq(g.opticalInvariant(a, a, z=z), 0, "zero for a ray with itself")
    c.eq(g.opticalInvariant(a, b, z=INF), want, "same at the end")
    if type(els[0]).__name__ != "Matrix":
        c.eq(g.opticalInvariant(a, b), want, "same at the start")
    # the invariant of the traced rays themselves
    p, q = g.traceThrough(a), g.traceThrough(b)
    c.eq(inv(g.backIndex, p, q), want, "same for the traced rays")
    if c.decide(c.And(z > 0, z < L)):
        c.reached("inside")


def single(c, kind):
    n1, n2 = (index(c, "n1"), index(c, "n2")) if kind in ("interface", "flat", "matrix", "matrixL0") else (1.0, 1.0)
    e = c.rt.Space(c.real("d", 0, 500), n=index(c, "n")) if kind == "spacen" else element(c, kind, "a", n1, n2)
    a, b = two(c)
    want = inv(e.frontIndex, a, b)
    c.eq(e.opticalInvariant(a, b, z=INF), want, "through one element")
    if kind in ("space", "spacen", "thick", "slab"):
        z = c.real("z", 0, 600)
        c.eq(e.opticalInvariant(a, b, z=z), want, "inside one element")
    if kind in ("lens", "mirror", "interface", "flat", "aperture", "matrixL0"):
        c.eq(e.opticalInvariant(a, b), want, "at one element")
    c.eq(e.opticalInvariant(b, a, z=INF), -e.opticalInvariant(a, b, z=INF), "antisymmetric")


def lagrange(c, which):
    rt = c.rt
    n = index(c, "n")
    g = rt.ImagingPath([rt.Space(c.real("d", 1, 100), n=n), element(c, "interface", "i", n, index(c, "m"))])
    a, b = two(c)
    g.axialRay = lambda: None if which in ("no axial", "none") else a
    g.principalRay = lambda: None if which in ("no principal", "none") else b
    v = g.lagrangeInvariant()
    if which == "both":
        c.eq(v, inv(n, a, b), "Lagrange invariant of the axial and principal rays")
    else:
        c.check(v == INF, "no rays: infinite Lagrange invariant")


PATHS = [["space"], ["lens"], ["space", "lens"], ["space", "lens", "space"], ["lens", "space", "lens"], ["space", "in", "space"],
         ["in", "space", "out"], ["thick", "space"], ["space", "slab"], ["space", "mirror", "space"], ["mat", "space"], ["space", "in", "in", "space"],
         ["space", "thick", "lens"], ["space", "aperture", "lens", "space"]]


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for k in ("space", "spacen", "lens", "thick", "slab", "mirror", "aperture", "matrix", "matrixL0", "interface", "flat"):
        add("single-" + k, "single", k)
    P = PATHS + ([["space", "in", "space", "out", "space"], ["space", "lens", "space", "lens", "space"], ["thick", "space", "thick"],
                  ["space", "slab", "space", "slab"]] if tier == "thorough" else [])
    for p in P:
        add("path-" + "-".join(p), "along", p, "MatrixGroup" if len(p) % 2 else "ImagingPath", "flat")
        if len(p) >= 3:
            add("nested-" + "-".join(p), "along", p, "ImagingPath", "nested")
    for w in ("both", "no axial", "no principal", "none"):
        add("lagrange-" + w.replace(" ", ""), "lagrange", w)
    return out


MUST_REACH = ["inside", "same at any distance", "Lagrange invariant of the axial and principal rays"]
