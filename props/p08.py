"""P08: tracing has no memory and no side effects."""
import os
from .common import *

BOUNDS = ("every kind of element and groups of 2 to 3 elements, flat or nested, traced with any ray (|y|<=50, |theta|<=2, any z, blocked "
          "or not) or beam; histories trace, 1 edit (thorough: 2), trace, each edit one of append, pop, insert, item and slice "
          "assignment, flip, load, and changing an element's aperture, power or length; the second ray the same object, the same "
          "object changed, an equal one, or one differing in height, angle, position, blocking or wavelength")
OUTSIDE = "display (it is not tracing); changes made through the element's derived attributes rather than A, B, C, D, L or apertures"


def dia(c, p):
    return c.real(p + "D", 0, 100, nonzero=True)


def state(o):
    return dict(o.__dict__)


def untouched(c, o, before, label, skip=("iteration", "_lastRayToBeTraced", "_lastRayTrace", "figure", "design")):
    now = o.__dict__
    c.check(set(now) == set(before), label + ": same attributes")
    for k, v in before.items():
        if k in skip or k not in now:
            continue
        w = now[k]
        if isinstance(v, list):
            c.check(len(v) == len(w) and all(a is b for a, b in zip(v, w)), label + ": " + k)
        elif v is None or isinstance(v, (bool, str)):
            c.check(v is w or v == w, label + ": " + k)
        elif hasattr(v, "__dict__") and not isinstance(v, (int, float)) and type(v).__module__.startswith("raytracing"):
            c.check(v is w, label + ": " + k)
        else:
            c.eq(w, v, label + ": " + k)


def equal_traces(c, a, b, label):
    c.check(len(a) == len(b), label + ": number of points")
    for g, w in zip(a, b):
        c.eq(g.y, w.y, label + ": height")
        c.eq(g.theta, w.theta, label + ": angle")
        c.eq(g.z, w.z, label + ": position")
        c.check(bool(g.isBlocked) == bool(w.isBlocked), label + ": blocked")
        c.check(g.wavelength == w.wavelength, label + ": wavelength")


def snaps(t):
    from types import SimpleNamespace as N
    return [N(y=r.y, theta=r.theta, z=r.z, isBlocked=bool(r.isBlocked), wavelength=r.wavelength) for r in t]


def elem(c, kind, p, n1=1.0, n2=1.0, lim=True):
    return element(c, kind, p, n1, n2, diameter=dia(c, p) if lim else INF)


def build(c, shape, kinds, lim=True):
    els = [elem(c, k, "s%d" % i, lim=lim) for i, k in enumerate(kinds)]
    rt = c.rt
    if shape == "one":
        return els[0], els
    if shape == "flat":
        return rt.MatrixGroup(els), els
    if shape == "imaging":
        return rt.ImagingPath(els), els
    if shape == "cavity":
        return rt.LaserCavity(els), els
    return rt.ImagingPath([rt.MatrixGroup(els[:-1]), els[-1]]), els


def aray(c, p="", wl=None):
    r = ray(c, p)
    r.wavelength = wl
    if c.choice(p + "blocked", 2):
        r.isBlocked = True
    return r


def pure(c, shape, kinds):
    g, els = build(c, shape, kinds)
    r = aray(c, wl=0.5)
    r0, g0, e0 = state(r), state(g), [state(e) for e in els]
    t1 = g.trace(r)
    s1 = snaps(t1)
    last = g.traceThrough(r)
    many = [r, r]
    g.traceMany(many)
    g.traceManyThrough(many, progress=False)
    c.check(len(many) == 2 and many[0] is r and many[1] is r, "list unchanged")
    g * r
    bundle = c.rt.Rays([r])
    g.traceManyThrough(bundle, progress=False)
    c.check(bundle.count == 1 and bundle[0] is r, "bundle unchanged")
    g.opticalInvariant(r, c.rt.Ray(y=1, theta=0.25), z=INF)
    t2 = g.trace(r)
    untouched(c, r, r0, "ray unchanged")
    untouched(c, g, g0, "path unchanged")
    for e, s in zip(els, e0):
        untouched(c, e, s, "elements unchanged")
    equal_traces(c, s1, t2, "traced again")
    equal_traces(c, s1, t1, "first trace not changed by later ones")
    c.eq(last.y, t2[-1].y, "traceThrough again")
    c.check(all(p.wavelength == 0.5 for p in t2), "wavelength kept")


def beam(c, shape, kinds):
    g, els = build(c, shape, kinds)
    q = complex(c.real("qr", -100, 100), c.real("qi", 0.1, 100))
    b = c.rt.GaussianBeam(q=q, wavelength=0.001, z=c.real("z", -100, 100))
    b.isClipped = bool(c.choice("clipped", 2))
    b0, g0, e0 = state(b), state(g), [state(e) for e in els]
    t1 = g.trace(b)
    s1 = [(p.q, p.z, bool(p.isClipped)) for p in t1]
    g * b
    t2 = g.trace(b)
    untouched(c, b, b0, "beam unchanged")
    untouched(c, g, g0, "path unchanged")
    for e, s in zip(els, e0):
        untouched(c, e, s, "elements unchanged")
    c.check(len(s1) == len(t2), "beam traced again")
    for (q, z, cl), p in zip(s1, t2):
        c.eq(p.q, q, "beam traced again")
        c.eq(p.z, z, "beam traced again")
        c.check(bool(p.isClipped) == cl, "beam traced again")


def second_ray(c, r, how):
    """the ray of the second trace"""
    rt = c.rt
    if how == "same":
        return r
    if how == "mutated":
        r.z = c.real("z2", -100, 100)
        r.y = c.real("y2", -50, 50)
        return r
    if how == "mutated-blocked":
        r.isBlocked = True
        return r
    n = rt.Ray(r.y, r.theta, r.z, r.isBlocked, r.wavelength)
    if how == "z":
        n.z = c.real("z2", -100, 100)
    elif how == "blocked":
        n.isBlocked = not r.isBlocked
    elif how == "y":
        n.y = c.real("y2", -50, 50)
    elif how == "theta":
        n.theta = c.real("theta2", -2, 2)
    elif how == "wavelength":
        n.wavelength = 0.7
    return n


def edit(c, g, els, op, k):
    new = lambda: elem(c, "lens", "n" + k)
    n = len(g.elements)
    if op == "append":
        g.append(new())
    elif op == "pop":
        g.pop(c.choice("i" + k, n))
    elif op == "insert":
        g.insert(c.choice("i" + k, n + 1), new())
    elif op == "set":
        g[c.choice("i" + k, n)] = new()
    elif op == "setslice":
        i = c.choice("i" + k, n)
        g[i:i + 1] = [new()]
    elif op == "flip":
        g.flipOrientation()
    elif op == "load":
        p = os.path.join(c.tmp(), "f.pkl")
        c.rt.MatrixGroup([new(), elem(c, "space+", "m" + k)]).save(p)
        g.load(p, append=bool(c.choice("a" + k, 2)))
    elif op == "aperture":
        els[c.choice("i" + k, len(els))].apertureDiameter = c.real("D2" + k, 0, 100, nonzero=True)
    elif op == "power":
        els[c.choice("i" + k, len(els))].C = c.real("C2" + k, -5, 5)
    elif op == "length":
        e = els[c.choice("i" + k, len(els))]
        d = c.real("d2" + k, 0, 100, nonzero=True)
        e.L = d
        e.B = d
    elif op == "stop":
        g.apertureStop()
    elif op == "read":
        g.effectiveFocalLengths()
        g.forwardConjugate()
        g.transferMatrix(upTo=c.real("u" + k, 0, 100))
    else:
        raise ValueError(op)


def history(c, shape, kinds, ops, how):
    g, els = build(c, shape, kinds)
    r = ray(c)
    r.wavelength = 0.5
    t1 = g.trace(r)
    s1 = snaps(t1)
    for k, op in enumerate(ops):
        edit(c, g, els, op, str(k))
    if how not in ("same", "mutated", "mutated-blocked"):
        equal_traces(c, s1, t1, "an earlier trace is not rewritten")
    r2 = second_ray(c, r, how)
    want = expected_trace(c, g.elements, r2)
    got = g.trace(r2)
    same_trace(c, got, want, "trace after edit")
    c.check(all(p.wavelength == r2.wavelength for p in got), "trace after edit: wavelength")
    o = g.traceThrough(r2)
    c.eq(o.y, want[-1].y, "traceThrough after edit")
    c.check(bool(o.isBlocked) == bool(want[-1].blocked), "traceThrough after edit: blocked")
    c.reached("how " + how)


def equality(c, kinds):
    """two equal groups remain equal when one of them is used"""
    rt = c.rt
    els = [elem(c, k, "s%d" % i) for i, k in enumerate(kinds)]
    g, h = rt.MatrixGroup(els), rt.MatrixGroup(list(els))
    c.check(g == h, "equal groups are equal")
    g.trace(ray(c))
    c.check(g == h and h == g, "tracing does not change equality")
    for e in g:
        break
    len(list(e for e in g))
    c.check(g == h and h == g, "iterating does not change equality")
    g.append(rt.Space(c.real("d9", 1, 2)))
    c.check(not (g == h), "a different group is not equal")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for k in ("space", "lens", "thick", "slab", "mirror", "aperture", "matrix", "matrixL0"):
        add("pure-" + k, "pure", "one", [k])
        add("beam-" + k, "beam", "one", [k])
    for sh in ("flat", "imaging", "nested", "cavity"):
        add("pure-" + sh, "pure", sh, ["space", "lens", "space"])
        add("pure2-" + sh, "pure", sh, ["aperture", "space"])
        add("pure3-" + sh, "pure", sh, ["thick", "lens"])
        if sh != "cavity":
            add("beam-" + sh, "beam", sh, ["space", "lens"])
    hows = ("same", "mutated", "mutated-blocked", "equal", "z", "blocked", "y", "theta", "wavelength")
    for h in hows:
        for sh in ("flat", "imaging", "nested"):
            add(f"noedit-{sh}-{h}", "history", sh, ["space+", "lens"], [], h)
        add(f"stop-imaging-{h}", "history", "imaging", ["space+", "lens"], ["stop"], h)
    OPS = ("append", "pop", "insert", "set", "setslice", "flip", "load", "aperture", "power")
    for op in OPS:
        for h in ("same", "equal"):
            add(f"edit-{op}-{h}", "history", "flat", ["space+", "lens"], [op], h)
            add(f"edit-imaging-{op}-{h}", "history", "imaging", ["lens", "space+"], [op], h)
    for op in ("aperture", "power"):
        for h in ("same", "equal"):
            add(f"edit-nested-{op}-{h}", "history", "nested", ["space+", "lens", "aperture"], [op], h)
    add("edit-length", "history", "flat", ["space+"], ["length"], "same")
    add("edit-length2", "history", "imaging", ["space+", "space+"], ["length"], "equal")
    add("edit-read", "history", "imaging", ["space+", "lens"], ["read", "aperture"], "same")
    add("edit-stop2", "history", "imaging", ["space+", "lens"], ["stop", "aperture"], "same")
    add("equality-1", "equality", ["lens"])
    add("equality-2", "equality", ["space", "lens"])
    if tier == "thorough":
        for a in OPS:
            for b in OPS:
                add(f"edit2-{a}-{b}", "history", "flat", ["space+", "lens"], [a, b], "same")
                add(f"edit2n-{a}-{b}", "history", "nested", ["space+", "lens"], [a, b], "equal")
    return out


MUST_REACH = ["how " + h for h in ("same", "mutated", "mutated-blocked", "equal", "z", "blocked", "y", "theta", "wavelength")]
