"""P27: what is displayed is what was traced."""
import sys
import warnings
from .common import *

BOUNDS = ("paths of up to 4 (thorough: 5) elements of every kind, with any lengths, diameters, radii and indices, nested groups and flipped elements among them; "
          "lists of up to 3 rays of any height and angle, and objects and lamps of any size anywhere in the first or last space; up to two displays of the "
          "same path; beams of any waist and position")
OUTSIDE = ("what matplotlib does with the lines, curves, labels and positions given to it; fonts, colours beyond one per ray, scaling and overlap of labels; "
           "groups within groups within groups")
ASSUMPTIONS = ["the windows of matplotlib are not opened: MplFigure.create and display2D only record what they were given"]


# ---- recording what would be drawn
class Shown:
    def __init__(self, c):
        self.m = sys.modules["raytracing.figure"]
        self.old = (self.m.MplFigure.create, self.m.MplFigure.display2D)
        self.figures = []

        def create(fig, comments=None, title=None):
            self.figures.append(fig)
        self.m.MplFigure.create = create
        self.m.MplFigure.display2D = lambda fig, interactive=True, filepath=None: None

    def close(self):
        self.m.MplFigure.create, self.m.MplFigure.display2D = self.old


def shown(c, f):
    """the figures drawn by f()"""
    s = Shown(c)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c.ok(f, "it can be displayed")
    finally:
        s.close()
    return s.figures


def path_of(c, kinds, fixed=""):
    """(path, [(kind, element, position)])"""
    rt = c.rt

    def val(name, lo, hi):
        if len(fixed) > 2 and name != fixed or name[-1] in fixed and len(fixed) <= 2 or name[-2:] == "d2" and "d" in fixed:
            return {"d": 60, "2": 40, "D": 25, "t": 6, "L": 9, "B": 5}[name[-1]] + int(name[1])
        return c.real(name, lo, hi)
    els, where, z = [], [], 0
    for i, k in enumerate(kinds):
        p = f"e{i}"
        if k == "S":
            e = rt.Space(val(p + "d", 1, 300))
        elif k == "L":
            e = rt.Lens(f=(50, -80, 30)[i % 3], diameter=val(p + "D", 1, 100))
        elif k == "l":
            e = rt.Lens(f=(50, -80, 30)[i % 3])
        elif k == "A":
            e = rt.Aperture(val(p + "D", 1, 100))
        elif k == "T":
            e = rt.ThickLens(1.5, 40, -60, val(p + "t", 1, 20), diameter=val(p + "D", 1, 50))
        elif k == "B":
            e = rt.DielectricSlab(1.5, val(p + "t", 1, 20), diameter=val(p + "D", 1, 50))
        elif k == "M":
            e = rt.Matrix(1, val(p + "B", -20, 20), 0, 1, physicalLength=val(p + "L", 1, 50), apertureDiameter=val(p + "D", 1, 50))
        elif k == "m":
            e = rt.Matrix(1, val(p + "B", -20, 20), 0, 1, physicalLength=val(p + "L", 1, 50))
        elif k == "G":
            e = rt.MatrixGroup([rt.Space(val(p + "d", 1, 100)), rt.Lens(50, diameter=val(p + "D", 1, 50)), rt.Space(val(p + "d2", 1, 100)),
                                rt.Matrix(1, 2, 0, 1, physicalLength=val(p + "L", 1, 50))])
        els.append(e)
        where.append((k, e, z))
        z = z + e.L
    return rt.ImagingPath(els), where, z


def points_of(c, trace):
    return [(r.z, r.y) for r in trace if not r.isBlocked]


def same_line(c, xs, ys, pts, label):
    """the line is the one through the points (in order; a point may be there twice)"""
    c.check(len(xs) == len(ys), label + ": as many heights as positions")
    if len(xs) == len(pts):
        for (x, y), (z, h) in zip(zip(xs, ys), pts):
            c.eq(x, z, label + ": goes through the points of the trace (position)")
            c.eq(y, h, label + ": goes through the points of the trace (height)")
        return
    a, b = [], []
    for out, src in ((a, zip(xs, ys)), (b, pts)):
        for p in src:
            if not out or not c.decide(c.And(out[-1][0] == p[0], out[-1][1] == p[1])):
                out.append(p)
    c.check(len(a) == len(b), label + ": goes through the points of the trace and no others")
    for (x, y), (z, h) in zip(a, b):
        c.eq(x, z, label + ": goes through the points of the trace (position)")
        c.eq(y, h, label + ": goes through the points of the trace (height)")


def lines(c, kinds, vanish):
    path, where, L = path_of(c, kinds)
    rays = [c.rt.Ray(c.real(f"y{i}", -50, 50), c.real(f"t{i}", -1, 1)) for i in range(1 if len(kinds) > 3 else 2)]
    path.design(rayColors=["b"])
    path.figure.designParams["removeBlockedRaysCompletely"] = vanish
    got = c.ok(lambda: path.figure.rayTraceLines(list(rays)), "rays can be drawn")
    want = []
    for r in rays:
        # an independent trace, element by element
        y, t, z, stopped = r.y, r.theta, 0, False
        pts = [(z, y)]
        for k, e, at in where:
            for part in (e.elements if k == "G" else [e]):
                if stopped:
                    break
                D = part.apertureDiameter
                if D != INF and c.decide(abs(y) > D / 2):
                    stopped = True
                    break
                if part.L != 0:
                    pts.append((z, y))
                y, t, z = part.A * y + part.B * t, part.C * y + part.D * t, z + part.L
                pts.append((z, y))
        if stopped and vanish:
            c.reached("vanishes")
            continue
        if stopped:
            c.reached("stops")
        want.append(pts)
    c.check(len(got) == len(want), "a line for every ray that is drawn")
    for g, w in zip(got, want):
        # points in a straight line need not be listed twice
        a, b = [], []
        for out, src in ((a, list(zip(g.xData, g.yData))), (b, w)):
            for p in src:
                if not out or not c.decide(c.And(out[-1][0] == p[0], out[-1][1] == p[1])):
                    out.append(p)
        same_line(c, [p[0] for p in a], [p[1] for p in a], b, "line")


def source(c, kinds, where_, lamp):
    """an object or lamp inside the path: rays go both ways from it"""
    path, where, L = path_of(c, kinds)
    h, t = c.real("h", 0.5, 20), c.real("t", 0.001, 1)
    k, e, z0 = where[0] if where_ == "first" else where[-1]
    s = c.real("s", 0, 300)
    c.assume(s < e.L)
    c.assume(s > 0)
    z = z0 + s
    if lamp:
        rays = c.rt.LampRays(diameter=2 * h, NA=t, N=2, T=2, z=z)
        rays.rayColors = ["y"]
    else:
        rays = c.rt.ObjectRays(diameter=2 * h, halfAngle=t, H=2, T=2, z=z, rayColors=["b"])
    path.figure.designParams["removeBlockedRaysCompletely"] = False
    starts = [(r.y, r.theta) for r in rays]
    got = c.ok(lambda: path.figure.rayTraceLines(rays), "rays can be drawn")
    c.check([(r.y is y or r.y == y) and (r.theta is q or r.theta == q) for r, (y, q) in zip(rays, starts)] == [True] * 4, "the rays are unchanged")

    def follow(y, q, z, parts, direction):
        pts = [(z, y)]
        for A, B, C, D, dL, dia in parts:
            if dia != INF and c.decide(abs(y) > dia / 2):
                break
            y, q = A * y + B * q, C * y + D * q
            z = z + direction * dL
            pts.append((z, y))
        return pts
    fwd = [(1, e.L - s, 0, 1, e.L - s, INF)] + [(x.A, x.B, x.C, x.D, x.L, x.apertureDiameter) for kk, x, at in where if x is not e and where_ == "first"]
    if where_ == "first":
        bwd = [(1, s, 0, 1, s, INF)]
    else:
        bwd = [(1, s, 0, 1, s, INF)]
        for kk, x, at in reversed(where[:-1]):
            d = x.A * x.D - x.B * x.C
            bwd.append((x.D / d, x.B / d, x.C / d, x.A / d, x.L, x.apertureDiameter))
    want = [follow(y, q, z, fwd, 1) for y, q in starts] + [follow(y, q, z, bwd, -1) for y, q in starts]
    c.check(len(got) == len(want), "a line forwards and a line backwards for every ray")
    for g, w in zip(got, want):
        a, b = [], []
        for out, src in ((a, list(zip(g.xData, g.yData))), (b, w)):
            for p in src:
                if not out or not c.decide(c.And(out[-1][0] == p[0], out[-1][1] == p[1])):
                    out.append(p)
        same_line(c, [p[0] for p in a], [p[1] for p in a], b, "from inside")
    c.reached("from inside")


# ---- elements
def span(c, graphic, fixed=True):
    """(least, greatest) position and greatest height of what is drawn"""
    xs, ys = [], []
    for comp in graphic.components:
        for curve in comp.bezierCurves:
            for x, y in (curve.controlPoints[0], curve.controlPoints[-1]):
                xs.append(graphic.x + x)
                ys.append(y)
    return xs, ys


def extreme(c, values, best):
    out = values[0]
    for v in values[1:]:
        if c.decide(v > out if best == "max" else v < out):
            out = v
    return out


def elements(c, kinds):
    path, where, L = path_of(c, kinds)
    for _, e, _ in where:
        e.label = "label"
    got = c.ok(lambda: path.figure.graphicsOfElements, "elements can be drawn")
    want = []
    for k, e, z in where:
        if k == "G":
            inner = z
            for x in e.elements:
                if not isinstance(x, c.rt.Space):
                    want.append(("L" if isinstance(x, c.rt.Lens) else "m", x, inner))
                inner = inner + x.L
        elif k != "S":
            want.append((k, e, z))
    c.check(len(got) == len(want), "everything but spaces is drawn, once")
    for g, (k, e, z) in zip(got, want):
        c.eq(g.x, z, "drawn where it is")
        xs, ys = span(c, g)
        if k in "LAMTB":
            half = e.apertureDiameter / 2
            c.eq(extreme(c, ys, "max"), half, "drawn as high as it is")
            c.eq(extreme(c, ys, "min"), -half, "drawn as low as it is")
        if k in "Mm":
            c.eq(extreme(c, xs, "min"), z, "drawn from its front")
            c.eq(extreme(c, xs, "max"), z + e.L, "drawn to its back")
        if k == "B":
            c.eq(extreme(c, xs, "min"), z, "drawn from its front")
            c.eq(extreme(c, xs, "max"), z + e.L, "drawn to its back")
        if g.hasLabel:
            c.check(g.label.text == "label" or k in "Lm", "labelled as it is")
            c.eq(g.x, z, "labelled where it is")
    path.showElementLabels = False
    c.check(all(not g.hasLabel for g in path.figure.graphicsOfElements), "labels are not shown unless asked")


def diameters(c, k):
    """the size of elements and groups"""
    rt = c.rt
    D = c.real("D", 0.5, 200)
    if k == "lens":
        e = rt.Lens(50, diameter=D)
    elif k == "thick":
        e = rt.ThickLens(1.5, 100, -100, 5, diameter=D)
    elif k == "matrix":
        e = rt.Matrix(apertureDiameter=D)
    elif k == "aperture":
        e = rt.Aperture(D)
    elif k == "group":
        D2 = c.real("D2", 0.5, 200)
        e = rt.MatrixGroup([rt.Lens(20, diameter=D), rt.Space(10), rt.Lens(30, diameter=D2), rt.Lens(10)])
        want = D if c.decide(D >= D2) else D2
        c.eq(e.largestDiameter, want, "largest diameter")
        return
    else:
        e = rt.Lens(50)
        c.check(e.largestDiameter == INF, "a lens without limits has no largest diameter")
        c.check(c.And(e.displayHalfHeight() > 0, e.displayHalfHeight() < 1000), "it is drawn all the same")
        c.check(e.largestDiameter == INF, "a lens without limits has no largest diameter once drawn")
        return
    c.eq(e.largestDiameter, D, "largest diameter")
    c.eq(e.displayHalfHeight(), D / 2, "half height drawn")
    c.eq(e.largestDiameter, D, "largest diameter once drawn")


# ---- surfaces
def doublet(c, cls):
    """lenses made of interfaces: their own constructors check manufacturers' figures"""


def optical(c, e):
    """[(R, index after, distance to the next)] of the interfaces light meets, from the optics"""
    rt = c.rt
    if isinstance(e, rt.ThickLens):
        return [(e.R1, e.n, e.L), (e.R2, 1.0, 0)]
    if isinstance(e, rt.DielectricInterface):
        return [(e.R, e.n2, 0)]
    if isinstance(e, rt.CurvedMirror):
        return None
    out = []
    for x in e.elements:
        if isinstance(x, rt.Space):
            out[-1] = (out[-1][0], out[-1][1], out[-1][2] + x.L)
        else:
            out.append((x.R, x.n2, 0))
    return out


def make(c, kind, light=False):
    rt = c.rt
    D = [10.0, 25.0][c.choice("D", 2)] if light and kind in ("doublet", "singlet", "planosinglet") else c.real("D", 0.5, 50)
    t = c.real("t", 0.5, 30)
    if light:
        R1, R2, n = [80, -30][c.choice("R1", 2)], [50, -400][c.choice("R2", 2)], 1.5
    else:
        R1, R2 = c.real("R1", -500, 500, nonzero=True), c.real("R2", -500, 500, nonzero=True)
        n = c.real("n", 1, 4)
        for R in (R1, R2):
            c.assume(abs(R) > D / 2)
    if kind == "thick":
        return rt.ThickLens(n, R1, R2, t, diameter=D), [(R1, n, t), (R2, 1.0, 0)], D
    if kind == "plano":
        return rt.ThickLens(n, R1, INF, t, diameter=D), [(R1, n, t), (INF, 1.0, 0)], D
    if kind == "slab":
        return rt.DielectricSlab(n, t, diameter=D), [(INF, n, t), (INF, 1.0, 0)], D
    if kind == "interface":
        return rt.DielectricInterface(1.0, n, R1, diameter=D), [(R1, n, 0)], D
    if kind == "flat":
        return rt.DielectricInterface(1.0, n, diameter=D), [(INF, n, 0)], D
    if kind == "compound":
        n2, t2, R3 = 2.0 if light else c.real("n2", 1, 4), c.real("t2", 0.5, 30), INF
        e = rt.CompoundLens([rt.DielectricInterface(1.0, n, R1, diameter=D), rt.Space(t, n=n), rt.DielectricInterface(n, n2, R2, diameter=D), rt.Space(t2, n=n2),
                             rt.DielectricInterface(n2, 1.0, R3, diameter=D)], designFocalLength=100, diameter=D)
        return e, [(R1, n, t), (R2, n2, t2), (R3, 1.0, 0)], D
    if kind in ("doublet", "singlet", "planosinglet"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if kind == "doublet":
                n2, t2, R3 = 2.0, 2.5, [60.0, -90.0][c.choice("R3", 2)]
                e = rt.AchromatDoubletLens(fa=100.0, fb=100.0, R1=R1, R2=R2, R3=R3, tc1=t, tc2=t2, te=5.0, n1=1.5, n2=n2, diameter=D,
                                           url=None, label="x")
                return e, [(R1, 1.5, t), (R2, n2, t2), (R3, 1.0, 0)], D
            R2 = INF if kind == "planosinglet" else R2
            e = rt.SingletLens(f=100.0, fb=100.0, R1=R1, R2=R2, tc=t, te=5.0, n=1.5, diameter=D, url=None, label="x")
            return e, [(R1, 1.5, t), (R2, 1.0, 0)], D
    if kind == "mirror":
        e = rt.CurvedMirror(R1, diameter=D)
        return e, [(R1, 1.0, 0)], D
    raise ValueError(kind)


def reverse(spec, first=1.0):
    """the interfaces met from the other side"""
    ns = [first] + [n for _, n, _ in spec]
    out = []
    for i in reversed(range(len(spec))):
        R = spec[i][0]
        out.append((-R if R is not INF else INF, ns[i], spec[i - 1][2] if i > 0 else 0))
    return out


def is_flat(R):
    return type(R) is float and R in (INF, -INF)


def compare(c, surfaces, spec, label):
    c.check(len(surfaces) == len(spec), label + ": number of surfaces")
    for s, (R, n, L) in zip(surfaces, spec):
        if is_flat(R):
            c.check(s.R in (INF, -INF) if is_flat(s.R) else False, label + ": a flat surface is flat")
        elif is_flat(s.R):
            c.check(False, label + ": a curved surface is curved")
        else:
            c.eq(s.R, R, label + ": radius of curvature")
        if len(spec) > 1:
            c.eq(s.L, L, label + ": distance to the next surface")
            c.eq(s.n, n, label + ": index after the surface")


def surfaces(c, kind):
    if kind == "mirror":
        e, spec, D = make(c, kind)
        c.eq(e.surfaces[0].R * e.C, 2 * c.one if hasattr(c, "one") else 2, "mirror: as curved as it focuses")
        R = e.surfaces[0].R
        e.flipOrientation()
        c.eq(e.surfaces[0].R, -R, "mirror flipped: curved the other way")
        c.eq(e.surfaces[0].R * e.C, 2, "mirror flipped: as curved as it focuses")
        e.flipOrientation()
        c.eq(e.surfaces[0].R, R, "mirror flipped twice: as at first")
        return
    e, spec, D = make(c, kind, light=kind in ("doublet", "singlet", "planosinglet"))
    compare(c, e.surfaces, spec, "surfaces")
    compare(c, e.surfaces, spec, "surfaces asked again")
    e.flipOrientation()
    compare(c, e.surfaces, reverse(spec), "flipped")
    compare(c, e.surfaces, reverse(spec), "flipped, asked again")
    e.flipOrientation()
    compare(c, e.surfaces, spec, "flipped twice")


def outline(c, kind, flipped):
    """the curves drawn start and end on the surfaces"""
    e, spec, D = make(c, kind, light=True)
    if flipped:
        e.flipOrientation()
        spec = reverse(spec)
    x = c.real("x", -100, 100)
    h = D / 2
    G = sys.modules["raytracing.graphics"]
    g = c.ok(lambda: G.GraphicOf(e, x=x), "it can be drawn")
    c.eq(g.x, x, "drawn where it is")
    pts = []
    for comp in g.components:
        for curve in comp.bezierCurves:
            pts += [curve.controlPoints[0], curve.controlPoints[-1]]
    v = 0
    for i, (R, n, L) in enumerate(spec):
        if is_flat(R):
            ok = lambda p: p[0] == v
        else:
            # on the sphere of radius R centred R after the vertex, on the side of the vertex
            ok = lambda p: c.And(c.near((p[0] - v - R) * (p[0] - v - R) + h * h, R * R), (R - (p[0] - v)) * R >= 0)
            c.check(c.Or(*[c.And(p[0] == v, p[1] == 0) for p in pts]), "a curved surface crosses the axis at its vertex")
        c.check(c.Or(*[c.And(p[1] == h, ok(p)) for p in pts]), "the edge of a surface is on it (top)")
        c.check(c.Or(*[c.And(p[1] == -h, ok(p)) for p in pts]), "the edge of a surface is on it (bottom)")
        v = v + L


def bars(c, g):
    """[(x1, x2, y)] of the aperture bars of a graphic"""
    out = []
    for comp in g.components:
        if type(comp).__name__ == "ApertureBars":
            for curve in comp.bezierCurves:
                a, b = curve.controlPoints[0], curve.controlPoints[-1]
                out.append((a[0], b[0], a[1]))
    return out


def edges(c, kind, flipped):
    """the aperture of a lens is drawn from the edge of its first surface to that of its last one"""
    e, spec, D = make(c, kind, light=True)
    if flipped:
        e.flipOrientation()
        spec = reverse(spec)
    G = sys.modules["raytracing.graphics"]
    g = c.ok(lambda: G.GraphicOf(e, x=c.real("x", -100, 100)), "it can be drawn")
    h = D / 2
    v = 0
    for _, _, L in spec[:-1]:
        v = v + L
    got = bars(c, g)
    c.check(len(got) > 0, "its aperture is drawn")
    for x1, x2, y in got:
        c.check(c.Or(c.near(y, h), c.near(y, -h)), "its aperture is as wide as it is")
        if c.decide(x2 - x1 <= 0.0101):
            continue                    # no glass at the edge: a mark
        for x, vertex, R in ((x1, 0, spec[0][0]), (x2, v, spec[-1][0])):
            if is_flat(R):
                c.eq(x, vertex, "its aperture goes from edge to edge")
            else:
                c.check(c.And(c.near((x - vertex - R) * (x - vertex - R) + h * h, R * R), (R - (x - vertex)) * R >= 0),
                        "its aperture goes from edge to edge")


def alone(c, kind, flipped):
    """an element displayed alone, with its focal points, principal planes and vertices"""
    rt = c.rt
    if kind == "lens":
        e = rt.Lens(c.real("f", -200, 200, nonzero=True), diameter=c.real("D", 1, 50))
    elif kind == "thick":
        e = rt.ThickLens(1.5, 60, c.real("R2", -300, -50), c.real("t", 1, 9), diameter=20)
    elif kind == "matrix":
        C = c.real("C", -1, 1, nonzero=True)
        e = rt.Matrix(1, c.real("B", -20, 20), C, 1 + c.real("B", -20, 20) * C, physicalLength=10, frontVertex=c.real("Vf", 0, 4), backVertex=c.real("Vb", 5, 10),
                      apertureDiameter=20)
    elif kind == "interface":
        e = rt.DielectricInterface(1.0, 1.5, c.real("R", -200, 200, nonzero=True), diameter=1)
    elif kind == "objective":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e = rt.Objective(f=c.real("f", 2, 9), NA=0.8, focusToFocusLength=75, backAperture=18, workingDistance=2)
    elif kind == "doublet":
        e, _, _ = make(c, "compound", light=True)
    if flipped:
        e.flipOrientation()
    c.assume(abs(e.C) >= 1e-4)
    figs = shown(c, e.display)
    c.check(len(figs) == 1, "one figure")
    (g,) = figs[0].graphicGroups["Elements"][:1]
    c.eq(g.x, 0, "it is drawn at the start")
    P, F = e.principalPlanePositions(z=0), e.focusPositions(z=0)
    V = (e.frontVertex, e.backVertex)

    def texts(t):
        return [q for q in g.points if q.text is not None and t in q.text]
    for pair, names, what in ((P, ("$P_f$", "$P_b$"), "principal planes"), (V, ("$V_f$", "$V_b$"), "vertices")):
        if what == "vertices" and (kind in ("lens", "interface") or pair[0] is None):
            continue
        for x, name in zip(pair, names):
            mine = texts(name)
            c.check(len(mine) == 1, what + " are marked once")
            c.eq(mine[0].x, x, what + " are marked where they are")
    for x in P:
        c.check(c.Or(*[c.And(c.near(l.xData[0], x), c.near(l.xData[1], x)) for l in g.lines]), "principal planes are drawn where they are")
    c.check(len(g.lines) == 2, "nothing else is drawn as a plane")
    for x in F:
        c.check(c.Or(*[c.near(q.x, x) for q in g.points]), "focal points are marked where they are")
    ends = [(a.A[0], a.B[0]) for a in g.annotations]
    for a, b, what in ((P[0], F[0], "front focal length"), (P[1], F[1], "back focal length"), (V[0], F[0], "front focal distance"), (V[1], F[1], "back focal distance")):
        if a is None:
            continue
        c.check(c.Or(*[c.And(c.near(x, a), c.near(y, b)) for x, y in ends]), "the arrow of the " + what + " goes from where it starts to the focus")
    for x, y in ends:
        c.check(c.Or(*[c.And(c.near(x, a), c.near(y, b)) for a, b in zip(tuple(P) + V, tuple(F) * 2) if a is not None]), "no other arrow")
    c.check(len(ends) <= 4, "no other arrow")
    c.reached("alone")


def objective(c, flipped):
    """an objective is drawn from its back aperture to its front aperture, with its apertures as wide as they are"""
    rt = c.rt
    f, wd, b = c.real("f", 2, 9), c.real("wd", 0.2, 2), c.real("b", 5, 20)
    NA, L, x = 0.8, c.real("L", 40, 80), c.real("x", -100, 100)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e = rt.Objective(f=f, NA=NA, focusToFocusLength=L, backAperture=b, workingDistance=wd)
    if flipped:
        e.flipOrientation()
    G = sys.modules["raytracing.graphics"]
    g = c.ok(lambda: G.GraphicOf(e, x=x), "it can be drawn")
    c.eq(g.x, x, "drawn where it is")
    back, front = (L, wd) if flipped else (0, L - wd)
    front_d = 2 * NA * wd
    pts = [p for comp in g.components if type(comp).__name__ != "ApertureBars" for curve in comp.bezierCurves for p in (curve.controlPoints[0], curve.controlPoints[-1])]
    for z, d, what in ((back, b, "back"), (front, front_d, "front")):
        for s in (1, -1):
            c.check(c.Or(*[c.And(c.near(p[0], z), c.near(p[1], s * d / 2)) for p in pts]), "its outline reaches its %s aperture" % what)
    for p in pts:
        c.check(c.And(p[0] >= (wd if flipped else 0) - 1e-6, p[0] <= (L if flipped else L - wd) + 1e-6), "its outline stays between its vertices")
    got = bars(c, g)
    for x1, x2, y in got:
        mid = (x1 + x2) / 2
        c.check(c.Or(*[c.And(c.near(mid, z), c.Or(c.near(y, d / 2), c.near(y, -d / 2))) for z, d in ((back, b), (front, front_d))]),
                "its apertures are drawn where and as wide as they are")
    c.check(len(got) == 4, "its two apertures are drawn")


# ---- planes and labels
def inside(c, where):
    """the planes conjugate to an object placed within the path"""
    rt = c.rt
    f, d1, d2 = 64, (c.real("d1", 20, 300) if where == "first" else 120), (150 if where == "first" else c.real("d2", 20, 300))
    h = c.real("h", 0.5, 30)
    z = c.real("z", 1, 299)
    path = rt.ImagingPath([rt.Space(d1), rt.Lens(f), rt.Space(d2)])
    if where == "first":
        c.assume(z < d1)
        s, to = d1 - z, 1
    else:
        c.assume(z > d1 + 1)
        c.assume(z < d1 + d2)
        s, to = z - d1, -1
    c.assume(abs(s - f) >= 1)
    rays = rt.ObjectRays(diameter=h, halfAngle=0.125, H=1, T=1, z=z, rayColors=["b"])
    figs = shown(c, lambda: path.display(rays=rays))
    m = sys.modules["raytracing.graphics"]
    groups = figs[0].graphicGroups
    gs = [g for k in groups for g in groups[k]]
    objects = [g for g in gs if isinstance(g, m.ObjectGraphic)]
    images = [g for g in gs if isinstance(g, m.ImageGraphic)]
    c.check(len(objects) == 1, "one object is drawn")
    arrow(c, objects[0], z, h, "object inside")
    q = s * f / (s - f)
    room = d2 if where == "first" else d1
    for g in images:
        arrow(c, g, d1 + to * q, -h * q / s, "plane conjugate to an object inside")
    if c.decide(c.And(q >= 0, q < room)):
        c.check(len(images) == 1, "the plane conjugate to an object inside is drawn")
        c.reached("inside")


def conjugates(c, kinds, fixed_f):
    rt = c.rt
    f, d1, d2 = c.real("f", 5, 100), c.real("d1", 1, 300), c.real("d2", 1, 300)
    h = c.real("h", 0.5, 30)
    path = rt.ImagingPath([rt.Space(d1), rt.Lens(f), rt.Space(d2)])
    c.assume(abs(d1 - f) >= 1)
    figs = shown(c, lambda: path.display(rays=rt.ObjectRays(diameter=h, halfAngle=0.125, H=2, T=2, rayColors=["b"])))
    c.check(len(figs) == 1, "one figure")
    fig = figs[0]
    m = sys.modules["raytracing.graphics"]
    objects = [g for g in fig.graphicGroups["Object/Image"] if isinstance(g, m.ObjectGraphic)]
    images = [g for g in fig.graphicGroups["Object/Image"] if isinstance(g, m.ImageGraphic)]
    c.check(len(objects) == 1, "one object is drawn")
    arrow(c, objects[0], 0, h, "object")
    # from the thin lens equation
    q = d1 * f / (d1 - f)
    if c.decide(q <= d2):
        if c.decide(q >= 0):
            c.check(len(images) == 1, "an image within the path is drawn")
            c.reached("image")
        for g in images:
            arrow(c, g, d1 + q, -h * q / d1, "image")
    else:
        for g in images:
            arrow(c, g, d1 + q, -h * q / d1, "image")


def arrow(c, g, z, height, label):
    """an arrow from -height/2 to height/2, pointing there"""
    c.eq(g.x, z, label + ": at its plane")
    tips = [curve.controlPoints[-1] for comp in g.components for curve in comp.bezierCurves]
    starts = [curve.controlPoints[0] for comp in g.components for curve in comp.bezierCurves]
    c.check(c.Or(*[c.And(p[0] == 0, c.near(p[1], height / 2)) for p in tips + starts]), label + ": the tip is at its height")
    c.check(c.Or(*[c.near(p[1], -height / 2) for p in tips + starts]), label + ": it starts from the other side of the axis")


def labels(c, what):
    """stops and pupils are marked where the path says they are"""
    rt = c.rt
    path = rt.ImagingPath([rt.Space(60), rt.Lens(20, diameter=30), rt.Space(50), rt.Aperture(8)])
    path.objectHeight = 1.0
    x, D = c.real("x", -500, 500), c.real("D", -50, 50)
    # the stops themselves are decided under P10 and P11
    answer = (None, None) if what == "none" else (x, abs(D))
    other = (20, 3) if what != "only" else (None, None)
    for which in ("AS", "FS"):
        path.apertureStop = (lambda: answer) if which == "AS" else (lambda: other)
        path.fieldStop = (lambda: answer) if which == "FS" else (lambda: other)
        got = c.ok(lambda: path.figure.stopsLabels, "stops can be labelled")
        for text, (z, _) in (("AS", path.apertureStop()), ("FS", path.fieldStop())):
            mine = [l for l in got if l.text == text]
            c.check(len(mine) == (z is not None), "a stop is labelled if there is one")
            for l in mine:
                c.eq(l.x, z, "a stop is labelled where it is")
                c.reached("aperture stop")
        c.check(len(got) == (answer[0] is not None) + (other[0] is not None), "nothing else is labelled")
    path.entrancePupil = lambda: answer if what == "none" else (x, D)
    path.showEntrancePupil = True
    path.showPointsOfInterest = False
    path.figure.setGraphicsFromOpticalPath()
    bars = [g for g in path.figure.graphicGroups["Elements"] if type(g).__name__ == "Graphic"]
    c.check(len(bars) == (what != "none"), "the entrance pupil is shown if there is one")
    for g in bars:
        c.eq(g.x, x, "the entrance pupil is where it is")
        xs, ys = span(c, g)
        c.eq(extreme(c, ys, "max"), abs(D) / 2, "the entrance pupil is as large as it is")
        c.eq(extreme(c, ys, "min"), -abs(D) / 2, "the entrance pupil is as large as it is")
        c.reached("pupil")
    path.showEntrancePupil = False
    path.figure.setGraphicsFromOpticalPath()
    bars = [g for g in path.figure.graphicGroups["Elements"] if type(g).__name__ == "Graphic"]
    c.check(len(bars) == 0, "the entrance pupil is not shown unless asked")


def interest(c, kinds, fixed):
    """points of interest are marked where they are"""
    path, where, L = path_of(c, kinds, fixed)
    got = c.ok(lambda: path.figure.pointsOfInterest, "points of interest can be drawn")
    n = 0
    for k, e, z in where:
        for p in e.pointsOfInterest(z):
            n += 1
            c.check(c.Or(*[c.near(q.x, p["z"], tol=1e-3) for q in got]), "a point of interest is marked where it is")
        if k in "Ll":
            for x in (z - e.f, z + e.f):
                c.check(c.Or(*[c.near(q.x, x, tol=1e-3) for q in got]), "the foci of a lens are marked")
    c.check(len(got) <= n + len(path.pointsOfInterest(z=0)), "no other point is marked")
    path.showPointsOfInterestLabels = False
    c.check(all(q.text is None for q in path.figure.pointsOfInterest), "labels of points are not shown unless asked")


# ---- displaying again
def state(path):
    return (path._objectHeight, path.objectPosition, path._fanAngle, path._fanNumber, path._rayNumber, path.showEntrancePupil,
            path.showPointsOfInterest, path.showObject, path.showImages, path.showElementLabels, path.showPointsOfInterestLabels)


def drawn(fig):
    out = []
    for key in sorted(fig.lineGroups):
        for l in fig.lineGroups[key]:
            out.append((key, list(l.xData), list(l.yData), l.color))
    groups = [(key, type(g).__name__, g.x, getattr(g, "diameter", None)) for key in sorted(fig.graphicGroups) for g in fig.graphicGroups[key]]
    return out, groups, len(fig.points), len(fig.labels), len(fig.annotations)


def same_drawing(c, a, b, label):
    (la, ga, *na), (lb, gb, *nb) = drawn(a), drawn(b)
    c.check(len(la) == len(lb), label + ": as many lines")
    for (k, x, y, col), (k2, x2, y2, col2) in zip(la, lb):
        c.check(k == k2 and col == col2, label + ": same kinds and colours of lines")
        same_line(c, x, y, list(zip(x2, y2)), label)
    c.check(len(ga) == len(gb), label + ": as many objects")
    for (k, t, x, d), (k2, t2, x2, d2) in zip(ga, gb):
        c.check(k == k2 and t == t2, label + ": same objects")
        c.eq(x, x2, label + ": same positions")
        c.check((d is None) == (d2 is None), label + ": same sizes")
        if d is not None:
            c.eq(d, d2, label + ": same sizes")
    c.check(na == nb, label + ": as many points, labels and annotations")


def again(c, how, free):
    """displaying leaves the path and the rays as they are: displayed again, it is the same"""
    rt = c.rt
    d1, d2, D, h = 60, 150, 20, 4
    if free == "d1":
        d1 = c.real("d1", 30, 300)
    elif free == "d2":
        d2 = c.real("d2", 100, 300)
    elif free == "D":
        D = c.real("D", 5, 50)
    else:
        h = c.real("h", 0.5, 20)
    path = rt.ImagingPath([rt.Space(d1), rt.Lens(20), rt.Space(d2), rt.Aperture(D)] if how != "field" else
                          [rt.Space(d1), rt.Lens(20, diameter=D), rt.Space(32), rt.Aperture(8), rt.Space(10)])
    if how in ("default", "field", "design"):
        path.objectHeight = h
    if how != "object":
        path.fanAngle = 0.125
        path.rayNumber = 2
        path.fanNumber = 2
    path.design(rayColors=["g"], fontScale=2.0)
    rays = rt.ObjectRays(diameter=h, halfAngle=0.125, H=2, T=2)
    given = [rays] if how == "list" else []
    run = {"default": lambda: path.display(), "field": lambda: path.display(onlyPrincipalAndAxialRays=False),
           "design": lambda: path.display(),
           "rays": lambda: path.display(rays=rays),
           "list": lambda: path.display(raysList=given),
           "empty": lambda: path.display(raysList=given, onlyPrincipalAndAxialRays=False),
           "object": lambda: path.displayWithObject(diameter=h, fanAngle=0.125)}[how]
    before = state(path)
    ys = [(e.apertureDiameter, e.L) for e in path.elements]
    f1 = shown(c, run)
    c.check(len(f1) == 1, "one figure")
    if how != "object":
        for a, b in zip(state(path), before):
            c.check((a is b) or a == b, "the path is unchanged")
    c.check(len(given) == (how == "list"), "the list of rays given is unchanged")
    if how == "design":
        c.ok(lambda: path.design(fontScale=1.0), "the design can be changed after displaying")
        c.ok(lambda: path.design(fontScale=2.0), "the design can be changed after displaying")
    f2 = shown(c, run)
    c.check(len(f2) == 1, "one figure")
    same_drawing(c, f1[0], f2[0], "displayed again")
    c.check(f2[0].designParams["fontScale"] == 2.0 and f2[0].designParams["rayColors"] == ["g"], "the design asked is used again")
    c.check(f1[0].designParams["fontScale"] == 2.0 and f1[0].designParams["rayColors"] == ["g"], "the design asked is used")
    for (D0, L0), e in zip(ys, path.elements):
        c.check((e.apertureDiameter is D0 or e.apertureDiameter == D0) and (e.L is L0 or e.L == L0), "the elements are unchanged")


def openlens(c, how):
    """a lens without limits is drawn for the rays displayed, and stays as it was"""
    rt = c.rt
    lens, d, h = rt.Lens(40), 60, 4
    h = c.real("h", 1, 100)
    path = rt.ImagingPath([rt.Space(d), lens, rt.Space(d)])
    path.design(rayColors=["g"])
    tall = rt.ObjectRays(diameter=2 * h, halfAngle=0.125, H=2, T=1 if how == "flat" else 2)
    before = (lens.displayHalfHeight(), path.largestDiameter, lens.largestDiameter)
    f = shown(c, lambda: path.display(rays=tall))[0]
    after = (lens.displayHalfHeight(), path.largestDiameter, lens.largestDiameter)
    for a, b in zip(before, after):
        c.eq(b, a, "displaying leaves the size of the elements as it was")
    got = [g for g in f.graphicGroups["Elements"] if g.matrix is lens]
    c.check(len(got) == 1, "the lens is drawn once")
    xs, ys = span(c, got[0])
    c.le(h, extreme(c, ys, "max"), "a lens without limits is drawn as high as the rays")
    # the same lens elsewhere, for smaller rays
    other = rt.ImagingPath([rt.Space(d), lens, rt.Space(d)])
    small = rt.ObjectRays(diameter=1, halfAngle=0.0, H=2, T=1)
    g1 = shown(c, lambda: other.display(rays=small))[0]
    fresh = rt.ImagingPath([rt.Space(d), rt.Lens(40), rt.Space(d)])
    g2 = shown(c, lambda: fresh.display(rays=small))[0]
    y1, y2 = [span(c, [g for g in k.graphicGroups["Elements"] if type(g).__name__ == "LensGraphic"][0])[1] for k in (g1, g2)]
    c.eq(extreme(c, y1, "max"), extreme(c, y2, "max"), "what was displayed before does not change what is drawn")
    # once its limits are removed
    lens.apertureDiameter = 2 * h
    c.eq(lens.displayHalfHeight(), h, "drawn as high as it is")
    lens.apertureDiameter = INF
    c.eq(lens.displayHalfHeight(), before[0], "drawn as if it never had limits")


def beam(c, how):
    """beams are drawn at their radius, above and below the axis, and their waists marked"""
    rt = c.rt
    w, f, d1, d2 = c.real("w", 0.001, 5), c.real("f", 10, 200), c.real("d1", 1, 200), c.real("d2", 1, 200)
    b = rt.GaussianBeam(w=w, wavelength=0.0005)
    path = rt.LaserPath([rt.Space(d1), rt.Matrix(1, 0, -1 / 64.0, 1), rt.Space(d2)] if how == "lens" else [rt.Space(d1), rt.Space(d2)])
    trace = path.trace(b)
    N = 100
    if how == "lens":
        c.assume(w >= 0.5)
    figs = shown(c, lambda: path.display(beams=[b]))
    fig = figs[0]
    lines = fig.lineGroups["rays"]
    c.check(len(lines) == 2, "a line above and a line below the axis")
    up, down = lines
    c.check(len(up.xData) == len(down.xData) == len(up.yData) == len(down.yData), "lines as long")
    for i in (0, len(up.xData) - 1, 57):
        z = up.xData[i]
        c.eq(down.xData[i], z, "both lines at the same plane")
        c.eq(up.yData[i], -down.yData[i], "symmetric about the axis")
    c.eq(up.xData[0], 0, "from the front of the path")
    c.eq(up.xData[-1], path.L, "to its back")
    c.eq(up.yData[0], w, "the radius given at the front")
    c.eq(up.yData[-1] * up.yData[-1], trace[-1].w * trace[-1].w, "the radius traced at the back")
    if how == "free":
        # the only waist is where the beam was given
        c.check(len(fig.annotations) > 0, "waists are marked")
        for a in fig.annotations:
            c.eq(a.B[0], 0, "a waist is marked where it is")
            c.eq(a.B[1] * a.B[1], w * w, "a waist is marked at its radius")
        c.check(c.Or(*[a.B[1] > 0 for a in fig.annotations]), "a waist is marked above the axis")
        c.check(c.Or(*[a.B[1] < 0 for a in fig.annotations]), "a waist is marked below the axis")
        again = shown(c, lambda: path.display(beams=[b]))[0]
        same_drawing(c, fig, again, "displayed again")


MUST_REACH = ["vanishes", "stops", "from inside", "image", "aperture stop", "pupil", "alone", "inside"]


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), max_paths=50000, **k))
    sets = ["S", "SL", "ASL", "SLSA", "G", "SGL", "TS", "SM"] + (["SLSLS", "GSA", "SLSTS"] if tier == "thorough" else [])
    for k in sets:
        for v in (False, True):
            add(f"lines-{k}-{'vanish' if v else 'stop'}", "lines", list(k), v)
    for k in ["SlS", "SLS", "S"] + (["SLSLS", "SlSAS"] if tier == "thorough" else []):
        for w in ("first", "last"):
            for lamp in (False, True):
                add(f"source-{k}-{w}-{'lamp' if lamp else 'object'}", "source", list(k), w, lamp)
    for k in ["SLSA", "SMSm", "mM", "STSB", "SG", "GSM"] + (["SLSMG", "SGSGS"] if tier == "thorough" else []):
        add(f"elements-{k}", "elements", list(k))
    for k in ("lens", "thick", "matrix", "aperture", "group", "infinite"):
        add(f"diameter-{k}", "diameters", k)
    for k in ("thick", "plano", "slab", "interface", "flat", "compound", "doublet", "singlet", "planosinglet", "mirror"):
        add(f"surfaces-{k}", "surfaces", k)
        if k != "mirror":
            for fl in (False, True):
                add(f"outline-{k}-{'flipped' if fl else 'straight'}", "outline", k, fl)
            if k not in ("interface", "flat"):
                for fl in (False, True):
                    add(f"edges-{k}-{'flipped' if fl else 'straight'}", "edges", k, fl)
    for fl in (False, True):
        for k in ("lens", "thick", "matrix", "interface", "objective", "doublet"):
            add(f"alone-{k}-{'flipped' if fl else 'straight'}", "alone", k, fl)
        add(f"objective-{'flipped' if fl else 'straight'}", "objective", fl)
    add("inside-first", "inside", "first")
    add("inside-last", "inside", "last")
    add("conjugates", "conjugates", None, None)
    for what in ("both", "only", "none"):
        add(f"labels-{what}", "labels", what)
    for k in ["SL", "SlSl", "ST", "SG"]:
        for fixed in ("Dt", "dt") if k == "ST" else ("DL",):
            add(f"interest-{k}-{fixed}", "interest", list(k), fixed)
    for how in ("default", "field", "design", "rays", "list", "empty", "object"):
        for free in ("d1", "d2", "D", "h") if how != "field" else ("D", "h"):
            add(f"again-{how}-{free}", "again", how, free)
    for how in ("flat", "fan"):
        add(f"openlens-{how}", "openlens", how)
    for how in ("free", "lens"):
        add(f"beam-{how}", "beam", how)
    return out
