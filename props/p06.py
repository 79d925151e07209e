"""P06: a trace is the ray carried through each element in order."""
from .common import *

BOUNDS = ("rays of any height (|y|<=50), angle (|theta|<=2), position (|z|<=100) and wavelength; single elements, paths of 0 to 4 (thorough: 5) elements "
          "without finite apertures, flat or nested twice, in air or through changes of index; all element parameters symbolic")
OUTSIDE = "finite apertures (P07); more elements (each is handled by the same loop body)"


def start_ray(c):
    r = ray(c)
    r.wavelength = c.real("wl", 0.1, 10)
    return r


def check_trace(c, x, els, r, label, group=True):
    t = x.trace(r)
    want = expected_trace(c, els, r)
    if not group:
        want = want[1:]
    same_trace(c, t, want, label)
    for p in t:
        c.check(not p.isBlocked and p.isNotBlocked, label + ": unobstructed")
        c.eq(p.wavelength, r.wavelength, label + ": wavelength")
    if group:
        c.eq(t[0].y, r.y, label + ": starts with the ray")
        c.eq(t[0].theta, r.theta, label + ": starts with the ray")
        c.eq(t[0].z, r.z, label + ": starts with the ray")
    last = x.traceThrough(r)
    c.eq(last.y, want[-1].y, label + ": traceThrough")
    c.eq(last.theta, want[-1].theta, label + ": traceThrough")
    c.eq(last.z, want[-1].z, label + ": traceThrough")
    return t


def whole(c, x, els, r, t, label):
    m = (1, 0, 0, 1)
    L = 0
    for e in els:
        m = mul2(abcd(e), m)
        L = L + e.L
    c.eq(t[-1].y, m[0] * r.y + m[1] * r.theta, label + ": whole matrix")
    c.eq(t[-1].theta, m[2] * r.y + m[3] * r.theta, label + ": whole matrix")
    c.eq(t[-1].z, r.z + L, label + ": whole length")
    o = x * r
    c.eq(o.y, t[-1].y, label + ": product with the path")
    c.eq(o.theta, t[-1].theta, label + ": product with the path")
    c.eq(o.z, t[-1].z, label + ": product with the path")


def single(c, kind):
    e = element(c, kind, "a", *((index(c, "n1"), index(c, "n2")) if kind in ("interface", "flat", "matrix") else ()))
    r = start_ray(c)
    check_trace(c, e, [e], r, "element", group=False)


def path(c, kinds, cls):
    els = [element(c, k, "s%d" % i) for i, k in enumerate(kinds)]
    g = getattr(c.rt, cls)(els)
    r = start_ray(c)
    t = check_trace(c, g, els, r, "path")
    whole(c, g, els, r, t, "path")


def immersed(c):
    n, m = index(c, "n"), index(c, "m")
    els = [c.rt.Space(c.real("s0d", 0, 500), n=n), c.rt.DielectricInterface(n, m, c.real("R", 1, 500)),
           c.rt.Space(c.real("s1d", 0, 500), n=m)]
    g = c.rt.MatrixGroup(els)
    r = start_ray(c)
    t = check_trace(c, g, els, r, "immersed")
    whole(c, g, els, r, t, "immersed")


def nested(c, shape):
    a, b, d = element(c, "space", "a"), element(c, "lens", "b"), element(c, "thick", "d")
    rt = c.rt
    g = [lambda: rt.MatrixGroup([rt.MatrixGroup([a, b]), d]), lambda: rt.MatrixGroup([a, rt.MatrixGroup([b, d])]),
         lambda: rt.ImagingPath([rt.MatrixGroup([rt.MatrixGroup([a]), b]), d]),
         lambda: rt.MatrixGroup([a, rt.MatrixGroup([]), b, d])][shape]()
    r = start_ray(c)
    t = check_trace(c, g, g.elements, r, "nested")
    whole(c, g, [a, b, d], r, t, "nested")


def refused(c):
    x = c.real("x", -10, 10)
    e = element(c, "space", "a")
    g = c.rt.MatrixGroup([e, element(c, "lens", "b")])
    for v in (x, None, "ray", [c.rt.Ray(x, 0)], e):
        c.raises(TypeError, lambda: g.trace(v), "anything else is refused by a path")
        c.raises(TypeError, lambda: g.traceThrough(v), "anything else is refused by a path")
        if v is not e:
            c.raises(TypeError, lambda: e.trace(v), "anything else is refused by an element")


def beam(c, kinds):
    els = [element(c, k, "s%d" % i) for i, k in enumerate(kinds)]
    g = c.rt.LaserPath(els)
    q = c.rt.GaussianBeam(w=c.real("w", 0.01, 10), R=c.real("R", 1, 500), wavelength=c.real("wl", 1e-4, 1e-2))
    t = g.trace(q)
    c.check(len(t) == len(els) + 1, "beam: one point per element")
    p = q
    c.eq(t[0].q, q.q, "beam: starts with the beam")
    for e, got in zip(els, t[1:]):
        p = e * p
        c.eq(got.q, p.q, "beam: through each element")
        c.eq(got.z, p.z, "beam: position")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for k in ("space", "lens", "thick", "slab", "mirror", "aperture", "matrix", "interface", "flat"):
        add("single-" + k, "single", k)
    paths = [[], ["space"], ["lens"], ["space", "lens"], ["lens", "space"], ["space", "lens", "space"], ["thick", "space"],
             ["slab", "mirror"], ["space", "matrix"], ["matrix", "space"], ["space", "aperture", "lens"],
             ["space", "lens", "space", "lens"], ["space", "space", "space"]]
    if tier == "thorough":
        paths += [["space", "lens", "space", "lens", "space"], ["thick", "space", "slab"], ["matrix", "matrix"],
                  ["mirror", "space", "mirror", "space"], ["thick", "space", "thick"]]
    for p in paths:
        add("path-" + "-".join(p), "path", p, "MatrixGroup")
    for cl in ("ImagingPath", "LaserPath", "LaserCavity"):
        add("path-" + cl, "path", ["space", "lens", "space"], cl)
    add("immersed", "immersed")
    for s in range(4):
        add(f"nested-{s}", "nested", s)
    add("refused", "refused")
    for p in (["space"], ["lens", "space"], ["space", "mirror"]):
        add("beam-" + "-".join(p), "beam", p)
    return out


MUST_REACH = ["path: height", "nested: height", "immersed: whole matrix", "anything else is refused by a path", "beam: position"]
