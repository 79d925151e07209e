"""P26: a sub-path is the part of the path after (or before) a plane."""
from .common import *

BOUNDS = ("paths of 1 to 5 elements (thorough: 6) of every kind with any parameters, in air or immersed, with apertures of any diameter, and any plane inside any of their spaces, "
          "forwards and backwards; any ray starting at the plane; planes inside other elements, before and beyond the path; sub-paths of sub-paths")
OUTSIDE = "planes exactly between two elements, and curved mirrors inside a nested group met backwards"


def build(c, kinds):
    """elements with matching indices; kinds 'n-space' etc. are spaces of the medium there"""
    rt = c.rt
    n = 1.0
    els = []
    for i, k in enumerate(kinds):
        p = "e%d" % i
        if k == "space":
            els.append(rt.Space(c.real(p + "d", 0.5, 100), n=n))
        elif k == "dspace":
            els.append(rt.Space(c.real(p + "d", 0.5, 100), n=n, diameter=c.real(p + "D", 0.5, 60)))
        elif k == "in":
            m = c.real("n%d" % i, 1.1, 3)
            els.append(rt.DielectricInterface(n, m, c.real(p + "R", 1, 100), diameter=c.real(p + "D", 0.5, 60)))
            n = m
        elif k == "out":
            els.append(rt.DielectricInterface(n, 1.0, c.real(p + "R", -100, -1)))
            n = 1.0
        elif k == "lensD":
            els.append(rt.Lens(c.real(p + "f", -100, 100, nonzero=True), diameter=c.real(p + "D", 0.5, 60)))
        elif k == "apertureD":
            els.append(rt.Aperture(c.real(p + "D", 0.5, 60)))
        elif k == "group":
            els.append(rt.MatrixGroup([rt.Lens(c.real(p + "f", 1, 100)), rt.Space(c.real(p + "d", 0.5, 50)), rt.ThickLens(1.5, 20, c.real(p + "R", 10, 30), 4)]))
        elif k == "matrix":
            els.append(rt_matrix(c, p))
        else:
            els.append(element(c, k, p))
    return els


def content(e):
    out = dict(vars(e))
    if "elements" in out:
        out["elements"] = [content(x) for x in e.elements]
    out.pop("_lastRayToBeTraced", None), out.pop("_lastRayTrace", None), out.pop("iteration", None)
    out.pop("figure", None), out.pop("design", None)
    return out


def same_content(c, a, b, label):
    c.check(set(a) == set(b), label)
    for k in a:
        x, y = a[k], b[k]
        if k == "elements":
            c.check(len(x) == len(y), label)
            for u, v in zip(x, y):
                same_content(c, u, v, label)
        elif x is None or isinstance(x, (str, bool)):
            c.check(x is y or x == y, label)
        elif isinstance(x, (int, float)) or c.symbolic and not isinstance(x, (list, dict, tuple, type)) and not hasattr(x, "__dict__"):
            c.eq(y, x, label)


def reverse(m, n1, n2):
    """matrix for light going the other way; n1, n2: indices before and after, going forwards"""
    A, B, C, D = m
    return (D * n2 / n1, B * n2 / n1, C * n2 / n1, A * n2 / n1)


def before(els, i):
    m = (1, 0, 0, 1)
    for e in els[:i]:
        m = mul2(abcd(e), m)
    return m


def split(c, kinds, at, cls="ImagingPath"):
    rt = c.rt
    els = build(c, kinds)
    path = rt.ImagingPath(els)
    z0 = 0
    for e in els[:at]:
        z0 = z0 + e.L
    sp = els[at]
    a = c.real("a", 0.01, 100)
    c.assume(a < sp.L)
    z = z0 + a
    kept = list(path.elements)
    was = [content(e) for e in kept]
    m = before(els, at)
    n = sp.frontIndex
    n0 = els[0].frontIndex
    f = path.subPath(z)
    b = path.subPath(zStart=z, backwards=True)
    # forwards
    c.check(isinstance(f, rt.ImagingPath), "a path")
    after = (1, sp.L - a, 0, 1)
    L = sp.L - a
    for e in els[at + 1:]:
        after = mul2(abcd(e), after)
        L = L + e.L
    check_abcd(c, abcd(f), after, "after the plane")
    c.eq(f.L, L, "length of what is after the plane")
    c.eq(f.frontIndex, n, "in the medium of the plane")
    c.eq(f.backIndex, path.backIndex, "ends in the same medium")
    upto = mul2((1, a, 0, 1), m)
    check_abcd(c, mul2(abcd(f), upto), abcd(path), "up to the plane, then from it")
    t = path.transferMatrix(upTo=z)
    check_abcd(c, abcd(t), upto, "what transferMatrix says is before the plane")
    c.check(len(f.elements) == len(els) - at, "the elements after the plane")
    c.eq(f.elements[0].L, sp.L - a, "what is left of the space")
    c.eq(f.elements[0].frontIndex, n, "what is left of the space")
    same_diameter(c, f.elements[0], sp, "the space keeps its aperture")
    for x, y in zip(f.elements[1:], els[at + 1:]):
        same_diameter(c, x, y, "apertures after the plane")
        check_abcd(c, abcd(x), abcd(y), "elements after the plane")
    # backwards
    c.check(isinstance(b, rt.ImagingPath), "a path")
    c.eq(b.L, z, "length of what is before the plane")
    c.eq(b.frontIndex, n, "backwards, in the medium of the plane")
    c.eq(b.backIndex, n0, "backwards, ends in the first medium")
    check_abcd(c, abcd(b), reverse(upto, n0, n), "backwards")
    c.check(len(b.elements) == at + 1, "the elements before the plane")
    c.eq(b.elements[0].L, a, "what there is before in the space")
    same_diameter(c, b.elements[0], sp, "the space keeps its aperture")
    for x, y in zip(b.elements[1:], els[:at][::-1]):
        same_diameter(c, x, y, "apertures before the plane")
        check_abcd(c, abcd(x), reverse(abcd(y), y.frontIndex, y.backIndex), "elements before the plane")
        c.eq(x.L, y.L, "elements before the plane")
        c.eq(x.frontIndex, y.backIndex, "elements before the plane")
        c.eq(x.backIndex, y.frontIndex, "elements before the plane")
    # the path itself
    c.check(len(path.elements) == len(kept) and all(x is y for x, y in zip(path.elements, kept)), "the path keeps its elements")
    for e, w in zip(kept, was):
        same_content(c, w, content(e), "the path is unchanged")


def same_diameter(c, x, y, label):
    if c.is_finite(y.apertureDiameter):
        c.eq(x.apertureDiameter, y.apertureDiameter, label)
    else:
        c.check(not c.is_finite(x.apertureDiameter), label)


def light(c, kinds, at):
    """rays: on from the plane as in the whole path, and back from it to where they came from"""
    rt = c.rt
    els = build(c, kinds)
    path = rt.ImagingPath(els)
    z0 = 0
    for e in els[:at]:
        z0 = z0 + e.L
    a = c.real("a", 0.01, 100)
    c.assume(a < els[at].L)
    z = z0 + a
    f, b = path.subPath(z), path.subPath(z, backwards=True)
    r = rt.Ray(c.real("y", -30, 30), c.real("t", -1, 1))
    whole = path.trace(r)
    plane = rt.Ray.along(whole, z)
    if c.decide(plane.isBlocked):
        # back along the same line, the ray is stopped at the same apertures
        m = mul2((1, a, 0, 1), before(els, at))
        back = b.traceThrough(rt.Ray(m[0] * r.y + m[1] * r.theta, -(m[2] * r.y + m[3] * r.theta)))
        c.check(back.isBlocked, "what does not get to the plane does not get back from it")
        c.reached("blocked before")
        return
    on = f.traceThrough(rt.Ray(plane.y, plane.theta))
    end = whole[-1]
    c.check(bool(on.isBlocked) == bool(end.isBlocked), "on from the plane: blocked as in the whole path")
    c.eq(on.y, end.y, "on from the plane: height")
    c.eq(on.theta, end.theta, "on from the plane: angle")
    c.eq(on.z + z, end.z, "on from the plane: position")
    back = b.traceThrough(rt.Ray(plane.y, -plane.theta))
    c.check(not back.isBlocked, "back from the plane: not blocked")
    c.eq(back.y, r.y, "back from the plane: height")
    c.eq(back.theta, -r.theta, "back from the plane: angle")
    c.eq(back.z, z, "back from the plane: position")
    c.reached("back")


def twice(c, kinds, at):
    """a sub-path of a sub-path"""
    rt = c.rt
    els = build(c, kinds)
    path = rt.ImagingPath(els)
    z0 = 0
    for e in els[:at]:
        z0 = z0 + e.L
    a, b = c.real("a", 0.01, 100), c.real("b", 0.01, 100)
    c.assume(a + b < els[at].L)
    f = path.subPath(z0 + a).subPath(b)
    g = path.subPath(z0 + a + b)
    check_abcd(c, abcd(f), abcd(g), "in two steps")
    c.eq(f.L, g.L, "in two steps")
    c.eq(f.frontIndex, g.frontIndex, "in two steps")
    # turning round: back from the plane b further, to the plane, is the space between them
    h = path.subPath(z0 + a + b, backwards=True).subPath(b)
    i = path.subPath(z0 + a, backwards=True)
    check_abcd(c, abcd(h), abcd(i), "back in two steps")
    c.eq(h.L, i.L, "back in two steps")
    j = path.subPath(z0 + a).subPath(b, backwards=True)
    check_abcd(c, abcd(j), (1, b, 0, 1), "on and back")
    # forth again: turning round twice is what was there
    k = path.subPath(z0 + a + b, backwards=True)
    L = k.L
    if at > 0 and len(k.elements) > 1 and isinstance(k.elements[-1], rt.Space):
        e = c.real("e", 0.01, 100)
        c.assume(e < els[0].L)
        m = k.subPath(L - e, backwards=True)
        c.eq(m.L, L - e, "turning round twice")
        want = (1, els[0].L - e, 0, 1)
        for x in els[1:at]:
            want = mul2(abcd(x), want)
        check_abcd(c, abcd(m), mul2((1, a + b, 0, 1), want), "turning round twice")


def refused(c, kinds, at, where):
    rt = c.rt
    els = build(c, kinds)
    path = rt.ImagingPath(els)
    z0 = 0
    for e in els[:at]:
        z0 = z0 + e.L
    a = c.real("a", 0.01, 200)
    if where == "inside":
        c.assume(a < els[at].L)
        z = z0 + a
    elif where == "beyond":
        z = path.L + a
    else:
        z = -a
    for back in (False, True):
        c.raises(Exception, lambda: path.subPath(z, backwards=back), "a plane " + where + " is refused")
    c.check(len(path.elements) == len(els) and all(x is y for x, y in zip(path.elements, els)), "the path keeps its elements")


OPTIONS = {}
MUST_REACH = ["back", "blocked before", "a plane inside is refused", "a plane beyond is refused", "a plane before is refused", "backwards.A"]


def cases(tier):
    out = []
    big = tier == "thorough"

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))

    def spaces(ks):
        return [i for i, k in enumerate(ks) if k.endswith("space")]
    paths = [["space"], ["dspace"], ["space", "lensD"], ["lensD", "space"], ["space", "lensD", "dspace"], ["apertureD", "space", "lensD", "space"],
             ["thick", "space"], ["space", "thick", "space"], ["slab", "space", "mirror"], ["mirror", "space", "lens"], ["matrix", "space"], ["space", "matrix", "space"],
             ["in", "space", "out", "space"], ["in", "dspace", "out"], ["space", "in", "space"], ["group", "space"], ["space", "group", "space"],
             ["space", "lens", "space", "lens", "space"]]
    if big:
        paths += [["space", "in", "space", "out", "space"], ["lens", "space", "thick", "space", "slab"], ["space", "mirror", "space", "mirror", "space"],
                  ["matrix", "space", "matrix", "space"], ["group", "space", "lensD", "dspace"], ["in", "space", "in", "space", "out"], ["space", "lensD", "dspace", "apertureD", "space", "lens"]]
    for ks in paths:
        for at in spaces(ks):
            add("split-%s-%d" % ("-".join(ks), at), "split", ks, at)
    lights = [["space", "lensD"], ["lensD", "space"], ["apertureD", "space", "lensD", "space"], ["space", "thick", "space"], ["mirror", "space", "lens"], ["in", "space", "out", "space"],
              ["space", "lensD", "space", "apertureD"], ["matrix", "space"]]
    if big:
        lights += [["space", "lensD", "space", "apertureD", "space"], ["in", "space", "space", "out"], ["space", "group", "space"], ["lensD", "space", "lensD", "space", "lensD"]]
    for ks in lights:
        for at in spaces(ks):
            add("light-%s-%d" % ("-".join(ks), at), "light", ks, at, may_be_empty=False)
    for ks in [["space"], ["space", "lens", "space"], ["space", "thick", "space"], ["in", "space", "out"]] + ([["space", "mirror", "space"], ["space", "in", "space", "out"], ["space", "matrix", "space", "lens"]] if big else []):
        for at in spaces(ks):
            add("twice-%s-%d" % ("-".join(ks), at), "twice", ks, at)
    for k in ("thick", "slab", "matrix", "group"):
        add("refused-%s" % k, "refused", ["space", k, "space"], 1, "inside")
        add("refused-first-%s" % k, "refused", [k, "space"], 0, "inside")
    for w in ("beyond", "before"):
        add("refused-" + w, "refused", ["space", "lens", "space"], 0, w)
        add("refused-%s-lens" % w, "refused", ["lens"], 0, w)
    return out
