"""P29: an axicon deviates rays towards the axis by (n-1) alpha."""
from .common import *

BOUNDS = ("any ray (blocked or not), alpha in [-0.5, 0.5], index in [1, 4] and diameter (or none); paths and groups of up to two axicons, "
          "spaces, lenses and apertures, with the ray traced through them alone or among others, once or twice, either way round")
OUTSIDE = "a single combined matrix of a path with axicons, which cannot deviate rays (the code lets them be combined)"
ASSUMPTIONS = ["the deviation is the small-angle one the formalism uses, (n-1) alpha"]


def axicon(c, p, finite=True):
    n, alpha = c.real(p + "n", 1, 4), c.real(p + "a", -0.5, 0.5)
    D = c.real(p + "D", 0, 200, nonzero=True) if finite else INF
    return c.rt.Axicon(alpha=alpha, n=n, diameter=D), n, alpha, D


def ray(c, p, blocked=False, z=None):
    w = (None, 0.6)[c.choice(p + "w", 2)]
    return c.rt.Ray(y=c.real(p + "y", -100, 100), theta=c.real(p + "t", -2, 2),
                    z=c.real(p + "z", -50, 50) if z is None else z, isBlocked=blocked, wavelength=w)


def fields(r):
    return (r.y, r.theta, r.z, bool(r.isBlocked), r.apertureDiameter, r.wavelength)


def unchanged(c, r, f, label):
    for a, b, what in zip(fields(r), f, ("y", "theta", "z", "isBlocked", "apertureDiameter", "wavelength")):
        if what in ("y", "theta", "z"):
            c.eq(a, b, label + ": the ray given is unchanged")
        elif what == "apertureDiameter":
            c.check((a == b) if not (a is b) else True, label + ": the ray given is unchanged")
        else:
            c.check(a == b, label + ": the ray given is unchanged")


def side(c, y):
    if c.decide(y > 0):
        return 1
    return -1 if c.decide(y < 0) else 0


def one(c, finite, blocked):
    ax, n, alpha, D = axicon(c, "", finite)
    r = ray(c, "", blocked)
    f = fields(r)
    c.eq(ax.deviationAngle(), (n - 1) * alpha, "deviation angle")
    outs = [("times", ax * r), ("times again", ax * r), ("traced through", ax.traceThrough(r)),
            ("traced", ax.trace(r)[-1]), ("mul_ray", ax.mul_ray(r))]
    for label, o in outs:
        unchanged(c, r, f, label)
        c.eq(o.y, f[0], label + ": height unchanged")
        c.eq(o.z, f[2], label + ": an axicon is thin")
        c.check(o.wavelength == f[5], label + ": wavelength unchanged")
        if blocked:
            c.check(bool(o.isBlocked), label + ": a blocked ray stays blocked")
            c.eq(o.theta, f[1], label + ": a blocked ray is not bent")
            continue
        c.eq(o.theta, f[1] - side(c, f[0]) * (n - 1) * alpha, label + ": bent towards the axis")
        out = finite and c.decide(abs(f[0]) > D / 2)
        c.check(bool(o.isBlocked) == out, label + ": blocked beyond the aperture only")
        c.check(o is not r, label + ": a new ray")
    if not blocked:
        c.reached("not blocked before")


def mirror_image(c):
    """turned upside down, a ray comes out upside down; and turned round, the axicon does the same"""
    ax, n, alpha, D = axicon(c, "")
    y, t = c.real("y", -100, 100), c.real("t", -2, 2)
    o, m = ax * c.rt.Ray(y, t), ax * c.rt.Ray(-y, -t)
    c.eq(m.y, -o.y, "upside down: height")
    c.eq(m.theta, -o.theta, "upside down: angle")
    c.check(bool(m.isBlocked) == bool(o.isBlocked), "upside down: blocking")
    ax.flipOrientation()
    o2 = ax * c.rt.Ray(y, t)
    c.eq(o2.y, o.y, "turned round: height")
    c.eq(o2.theta, o.theta, "turned round: angle")
    c.eq(ax.deviationAngle(), (n - 1) * alpha, "turned round: deviation")
    c.check(bool(o2.isBlocked) == bool(o.isBlocked), "turned round: blocking")


def line(c, which):
    """the focal line reaches where the ray at that height crosses the axis"""
    n, alpha = 1 + c.real("dn", 0.001, 3), c.real("a", 0.001, 0.5)
    D = c.real("D", 0, 200, nonzero=True)
    ax = c.rt.Axicon(alpha=alpha, n=n, diameter=D if which != "open" else INF)
    if which == "open":
        c.check(ax.focalLineLength() == INF, "without an aperture the line has no end")
        return
    if which == "edge":
        y = D / 2
        lengths = [ax.focalLineLength(), ax.focalLineLength(None), ax.focalLineLength(yMax=y)]
    else:
        y = c.real("y", -100, 100)
        c.assume(abs(y) <= D / 2)
        lengths = [ax.focalLineLength(y), ax.focalLineLength(yMax=-y)]
    for length in lengths:
        c.eq(length * (n - 1) * alpha, abs(y), "where the ray crosses the axis")
        o = c.rt.Space(1) * (ax * c.rt.Ray(y, 0))
        c.eq((ax * c.rt.Ray(y, 0)).y + length * (ax * c.rt.Ray(y, 0)).theta, 0, "a ray parallel to the axis reaches the axis there")
        c.check(not o.isBlocked, "a ray within the aperture is not blocked")
    if which == "height":
        y2 = c.real("y2", 0, 100)
        if c.decide(y2 >= abs(y)):
            c.le(ax.focalLineLength(y), ax.focalLineLength(y2), "higher rays cross further")


def follow(c, elements, y, t, z, blocked):
    """points of the trace after each element; (kind, data)"""
    for kind, e in elements:
        if blocked:
            continue
        if kind == "space":
            y, z = y + e[0] * t, z + e[0]
        elif kind == "lens":
            blocked = e[1] is not None and c.decide(abs(y) > e[1] / 2)
            t = t - y / e[0]
        elif kind == "aperture":
            blocked = c.decide(abs(y) > e[0] / 2)
        else:
            blocked = e[2] is not None and c.decide(abs(y) > e[2] / 2)
            t = t - side(c, y) * (e[0] - 1) * e[1]
    return y, t, z, blocked


def build(c, kinds):
    made, what = [], []
    for i, k in enumerate(kinds):
        p = f"e{i}"
        if k == "S":
            d = c.real(p + "d", 0, 300)
            made.append(c.rt.Space(d))
            what.append(("space", (d,)))
        elif k == "L":
            f = c.choice(p + "sign", 2) * 80 - 40
            made.append(c.rt.Lens(f))
            what.append(("lens", (f, None)))
        elif k == "A":
            D = c.real(p + "D", 1, 100)
            made.append(c.rt.Aperture(D))
            what.append(("aperture", (D,)))
        elif k in "Xx":
            ax, n, alpha, D = axicon(c, p, k == "X")
            made.append(ax)
            what.append(("axicon", (n, alpha, D if k == "X" else None)))
    return made, what


def path(c, kinds, how):
    made, what = build(c, kinds)
    if how == "path":
        top = c.rt.ImagingPath(list(made))
    elif how == "group":
        top = c.rt.MatrixGroup(list(made))
    elif how == "nested":
        top = c.rt.OpticalPath([c.rt.MatrixGroup(list(made[:2]))] + list(made[2:]))
    else:
        top = c.rt.MatrixGroup(list(made[::-1]))
        top.flipOrientation()
    # the ray may come in blocked
    blocked = how == "path" and bool(c.choice("b", 2))
    r = ray(c, "r", blocked)
    f = fields(r)
    y, t, z, b = follow(c, what, f[0], f[1], f[2], f[3])
    for label, trace in [("traced", top.trace(r)), ("traced again", top.trace(r)), ("among many", top.traceMany([r, r])[1])]:
        o = trace[-1]
        c.check(bool(o.isBlocked) == b, label + ": blocking")
        unchanged(c, r, f, label)
        if not b:
            c.eq(o.y, y, label + ": height at the end")
            c.eq(o.theta, t, label + ": angle at the end")
            c.eq(o.z, z, label + ": position of the end")
        elif blocked:
            for q in trace:
                c.eq(q.theta, f[1], label + ": a blocked ray is not bent")
                c.eq(q.y, f[0], label + ": a blocked ray is not bent")
        else:
            c.reached("blocked inside")
    # what was recorded before the ray was blocked stays as it was recorded
    first, again = top.trace(r), top.trace(r)
    for p, q in zip(first, again):
        c.eq(p.theta, q.theta, "the same trace twice")
        c.eq(p.y, q.y, "the same trace twice")


def stops(c):
    """a ray blocked by an element before the axicon leaves the trace untouched after it"""
    D = c.real("D", 1, 100)
    ax, n, alpha, _ = axicon(c, "", False)
    r = ray(c, "r")
    f = fields(r)
    c.assume(abs(f[0]) > D / 2)
    block = c.rt.Aperture(D)
    after = block * r
    g = fields(after)
    o = ax * after
    unchanged(c, after, g, "blocked before")
    c.check(bool(o.isBlocked), "blocked before: still blocked")
    many = c.rt.ImagingPath([c.rt.Aperture(D), c.rt.Axicon(alpha=alpha, n=n), c.rt.Space(10)]).traceManyThrough([r], progress=False)
    c.check(len(many) == 0, "blocked rays do not come out")


def refused(c):
    ax, n, alpha, D = axicon(c, "")
    w = c.real("w", 0.001, 10)
    beam = c.rt.GaussianBeam(w=w)
    q = beam.q
    for label, f in [("times", lambda: ax * beam), ("mul_beam", lambda: ax.mul_beam(beam)), ("trace", lambda: ax.trace(beam)),
                     ("path", lambda: c.rt.LaserPath([c.rt.Space(10), c.rt.Axicon(alpha=alpha, n=n)]).trace(beam)),
                     ("group", lambda: c.rt.MatrixGroup([c.rt.Axicon(alpha=alpha, n=n)]).trace(beam))]:
        c.raises(TypeError, f, label + ": a Gaussian beam is refused")
    c.check(beam.q == q, "the beam is unchanged")
    for label, other in [("a number", 3.0), ("text", "x"), ("nothing", None)]:
        c.raises(TypeError, lambda: ax * other, label + " is refused")


MUST_REACH = ["not blocked before", "blocked inside"]


def cases(tier):
    out = []
    for finite in (True, False):
        for blocked in (False, True):
            out.append(dict(name=f"one-{'aperture' if finite else 'open'}-{'blocked' if blocked else 'free'}", fn="one", args=(finite, blocked)))
    out.append(dict(name="image", fn="mirror_image"))
    for w in ("edge", "height", "open"):
        out.append(dict(name=f"line-{w}", fn="line", args=(w,)))
    sets = ["X", "Sx", "XS", "SXS", "AxS", "LXS", "xSx"] + (["SXSXS", "SLSXS", "XLSxA", "SxSLSx", "ASxSAx"] if tier == "thorough" else ["SxSX"])
    for k in sets:
        for how in ("path", "group", "nested", "flipped"):
            if how == "nested" and len(k) < 2 or how == "flipped" and len(k) < 2:
                continue
            out.append(dict(name=f"path-{k}-{how}", fn="path", args=(k, how), max_paths=20000, weight=len(k)))
    out.append(dict(name="stopped", fn="stops"))
    out.append(dict(name="refused", fn="refused"))
    return out
