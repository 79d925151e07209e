"""P33: the report of efficiency accounts once for every ray of its source."""
import contextlib
import io
import re
from .common import *

BOUNDS = ("the systems listed below (one to four finite apertures on lenses, apertures or the two together, in air, immersed, or with a nested group, with a field stop, "
          "vignetted or not; or with none), sources of 1 or 2 (thorough: 3) rays of any heights and angles, of any diameter up to 50 mm (nothing included) "
          "and half-angle up to 1.5 (nothing included), or as wide as the field and over all angles by default")
OUTSIDE = ("what matplotlib does with the points given to it; the layout of the report; systems other than those listed (their stops and fields are P14 to P16); "
           "rays within rounding of the edge of an aperture or of the acceptance of the system")
ASSUMPTIONS = ["random numbers are any numbers of [0, 1)", "pyplot is replaced by a recorder of the points given to it"]
MUST_REACH = ["transmitted", "vignetted", "expected", "no field stop", "none passes"]


def systems(rt):
    S, L, A = rt.Space, rt.Lens, rt.Aperture
    return {
        "lens": lambda: [S(128), L(64, diameter=16), S(128), A(8)],
        "4f": lambda: [S(64), L(64, diameter=16), S(64), S(32), L(32, diameter=4), S(32)],
        "vignette": lambda: [S(128), L(64, diameter=8), S(64), A(6), S(64), A(16)],
        "three": lambda: [S(64), L(64, diameter=32), S(32), A(8), S(32), L(64, diameter=6), S(64), A(12)],
        "immersed": lambda: [S(96, n=1.5), rt.DielectricInterface(1.5, 1.0, R=-32, diameter=16), S(64), A(4), S(64)],
        "nested": lambda: [S(128), rt.MatrixGroup([L(128, diameter=16), L(128, diameter=12)]), S(128), A(8)],
        "no field": lambda: [S(64), L(64, diameter=16), S(64)],
        "no stop": lambda: [S(64), L(64), S(64)],
    }


class Axis:
    transData = None

    def __getattr__(self, k):
        return lambda *a, **kw: None


class Plot:
    """pyplot, recording the points"""

    def __init__(self):
        self.points = {}
        self.shown = 0

    def subplots(self, *a, **k):
        return Axis(), Axis()

    def scatter(self, x, y, *a, label=None, **k):
        x, y = list(x), list(y)
        assert len(x) == len(y)
        self.points.setdefault(label, []).extend(zip(x, y))

    def show(self, *a, **k):
        self.shown += 1

    def __getattr__(self, k):
        return lambda *a, **kw: Axis()


def free_system(c, kind):
    rt = c.rt
    els = [rt.Space(c.real("d1", 1, 500)), rt.Lens(c.real("f", -500, 500, nonzero=True), diameter=c.real("D1", 0.1, 100)),
           rt.Space(c.real("d2", 1, 500))]
    if kind == "free 2":
        els.append(rt.Aperture(c.real("D2", 0.1, 100)))
    return els


def elements(els):
    for e in els:
        if hasattr(e, "elements"):
            yield from elements(e.elements)
        else:
            yield e


def fate(c, els, ray):
    """the position where a ray is blocked, or None"""
    y, t, z = ray.y, ray.theta, 0
    for e in elements(els):
        if e.apertureDiameter != INF and c.decide(c.Or(y > e.apertureDiameter / 2, y < -e.apertureDiameter / 2)):
            return z + e.L
        y, t, z = e.A * y + e.B * t, e.C * y + e.D * t, z + e.L
    return None


def number(text, pattern):
    m = re.search(pattern, text)
    return None if m is None else m.group(1)


def report(c, system, n, source):
    rt = c.rt
    ip = importlib_module(rt)
    c.use_random()
    free = system.startswith("free")
    path = rt.ImagingPath(free_system(c, system) if free else systems(rt)[system]())
    path.label = "a system"
    if free:
        field = c.real("field", 0.01, 50)
        path.halfFieldOfView = lambda: field
    els = list(path.elements)
    kw = {"nRays": n}
    if "d" in source:
        kw["objectDiameter"] = c.real("diameter", 0, 50)
    if "0" in source:
        kw["objectDiameter"] = 0
    if "a" in source:
        kw["emissionHalfAngle"] = c.real("halfAngle", 0, 1.5)
    if "z" in source:
        kw["emissionHalfAngle"] = 0.0
    made = []
    Real = ip.RandomUniformRays

    class Source(Real):
        def __init__(self, *a, **k):
            made.append(self)
            super().__init__(*a, **k)
    plot = Plot()
    saved = {k: getattr(ip, k) for k in ("plt", "RandomUniformRays")}
    out = io.StringIO()
    try:
        ip.plt, ip.RandomUniformRays = plot, Source
        with contextlib.redirect_stdout(out):
            done = c.ok(lambda: (path.reportEfficiency(**kw), True)[1], "a report is always made")
    finally:
        for k, v in saved.items():
            setattr(ip, k, v)
    text = out.getvalue()
    c.check([id(e) for e in path.elements] == [id(e) for e in els], "the system is as before")
    principal = path.principalRay()
    if principal is None:
        c.check("There is no Field Stop" in text and not plot.points and not made, "without a field stop there is no report")
        c.reached("no field stop")
        return
    axial = path.axialRay()
    n1 = path.frontIndex
    if free:
        c.assume(axial.theta * principal.y >= 1e-4)
    limit = abs(n1 * axial.theta * principal.y)

    c.check(len(made) == 1 and len(made[0]) == n, "as many rays as asked for")
    rays = [made[0][i] for i in range(n)]
    h = principal.y if "objectDiameter" not in kw else kw["objectDiameter"] / 2
    a = 3.141592653589793 / 2 if "emissionHalfAngle" not in kw else kw["emissionHalfAngle"]
    for got, w, what in ((made[0].yMin, -h, "heights"), (made[0].yMax, h, "heights"), (made[0].thetaMin, -a, "angles"), (made[0].thetaMax, a, "angles")):
        c.eq(got, w, "the source has all the " + what)
    want = {"Transmitted": [], "Vignetted": [], "Blocked": []}
    where = set()
    eps = 1e-9
    for r in rays:
        c.check(c.And(-h - eps <= r.y, r.y <= h + eps), "the rays come from the object")
        c.check(c.And(-a - eps <= r.theta, r.theta <= a + eps), "the rays are emitted within the angle")
        B = n1 * (r.theta * principal.y - r.y * principal.theta)
        A = n1 * (axial.theta * r.y - axial.y * r.theta)
        away(c, B, limit)
        away(c, A, limit)
        beyond = c.decide(c.Or(B > limit, B < -limit, A > limit, A < -limit))
        if beyond:
            c.reached("expected")
            want["Blocked"].append((B / limit, A / limit))
            continue
        z = fate(c, els, r)
        if z is None:
            c.reached("transmitted")
            want["Transmitted"].append((B / limit, A / limit))
        else:
            c.reached("vignetted")
            want["Vignetted"].append((B / limit, A / limit))
            where.add(z)
    t, v, b = (len(want[k]) for k in ("Transmitted", "Vignetted", "Blocked"))
    if t == 0:
        c.reached("none passes")
    c.check(plot.shown == 1, "the figure is shown")
    texts(c, path, text, kw, n, (t, v, b), where, limit, h, a, free)
    for k in want:
        got = plot.points.get(k, [])
        c.check(len(got) == len(want[k]), "every ray is a point of what became of it: " + k)
        for g, w in zip(got, want[k]):
            c.eq(g[0], w[0], "the point of a ray is its invariant with the principal ray")
            c.eq(g[1], w[1], "the point of a ray is its invariant with the axial ray")
    c.check(set(plot.points) <= set(want), "no other points")


def texts(c, path, text, kw, n, counts, where, limit, h, a, free):
    t, v, b = counts
    c.check(number(text, r"from Monte Carlo: ([-\d.einfa]+)%") == "%.1f" % (100 * t / n), "the efficiency is the part of the rays that pass")
    rel = number(text, r"Relative efficiency: ([-\d.einfa]+)%")
    if t + v:
        c.check(rel == "%.1f" % (100 * t / (t + v)), "the relative efficiency is among the rays that the system accepts")
    else:
        c.check(rel is None or rel == "nan", "no relative efficiency of no rays")
    loss = number(text, r"Loss to vignetting: ([-\d.einfa]+)%")
    if v:
        c.check(loss == "%.1f" % (100 * v / (t + v)), "the loss to vignetting")
        got = number(text, r"blockers at positions: \{([^}]*)\}")
        c.check(free or got is not None and {round(float(re.sub(r"np\.float64\((.*)\)", r"\1", x.strip())), 6) for x in got.split(",")} == {round(float(z), 6) for z in where},
                "the positions of vignetting")
        c.check("No losses" not in text, "losses are not denied")
    else:
        c.check(loss is None and "positions" not in text, "no losses are invented")
    if free:
        return
    stop = path.apertureStop()
    c.check(("%.1f mm diameter of AS at z=%.1f" % (stop.diameter, stop.z)) in text, "the stop named is the aperture stop")
    c.check(("Lagrange invariant: %.2f mm" % limit) in text, "the invariant of the system")
    if "objectDiameter" not in kw and "emissionHalfAngle" not in kw:
        c.check(number(text, r"source invariants: ([-\d.einfa]+)%") == "%.1f" % (limit / (h * a) * 100), "the ratio of the invariants")


def away(c, x, limit):
    for s in (1, -1):
        c.assume(c.Or(x - s * limit > 1e-6, x - s * limit < -1e-6))


def importlib_module(rt):
    import sys
    return sys.modules["raytracing.imagingpath"]


def cases(tier):
    out = []

    def add(s, n, src, **k):
        out.append(dict(name=f"{s.replace(' ', '-')}-{n}{'-' + src if src else ''}", fn="report", args=[s, n, src], **k))
    full = ["lens", "4f", "vignette", "three", "immersed", "nested"]
    for s in full:
        for src in ("", "da", "d", "a", "0a", "dz"):
            add(s, 1, src)
        add(s, 2, "da", time_limit=300)
        if tier == "thorough":
            add(s, 2, "")
            add(s, 3, "da", time_limit=1200)
    for s in ("free 1", "free 2"):
        add(s, 1, "da", time_limit=300)
    add("no field", 1, "da")
    add("no stop", 1, "")
    return out
