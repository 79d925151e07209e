"""Element factories with symbolic parameters, shared by the harnesses."""
INF = float("inf")

# kinds whose two sides may have different indices take (n1, n2)
KINDS_AIR = ["space", "lens", "thick", "slab", "mirror", "aperture", "matrix"]


def rt_matrix(c, p, n1=1.0, n2=1.0, L=None, diameter=INF, **k):
    """a general matrix of determinant n1/n2 (A != 0)"""
    A = c.real(p + "A", -50, 50, nonzero=True)
    B = c.real(p + "B", -50, 50)
    C = c.real(p + "C", -50, 50)
    D = (n1 / n2 + B * C) / A
    if L is None:
        L = c.real(p + "L", 0, 500)
    return c.rt.Matrix(A, B, C, D, physicalLength=L, frontIndex=n1, backIndex=n2, apertureDiameter=diameter, **k)


def element(c, kind, p, n1=1.0, n2=1.0, diameter=INF):
    """one element of a kind; p prefixes its variables' names"""
    rt = c.rt
    if kind == "space":
        return rt.Space(c.real(p + "d", 0, 500), n=n1, diameter=diameter)
    if kind == "space+":
        d = c.real(p + "d", 0, 500, nonzero=True)
        return rt.Space(d, n=n1, diameter=diameter)
    if kind == "lens":
        return rt.Lens(c.real(p + "f", -500, 500, nonzero=True), diameter=diameter)
    if kind == "thick":
        R1 = c.real(p + "R1", -500, 500, nonzero=True)
        R2 = c.real(p + "R2", -500, 500, nonzero=True)
        return rt.ThickLens(c.real(p + "n", 1, 4), R1, R2, c.real(p + "t", 0, 100), diameter=diameter)
    if kind == "slab":
        return rt.DielectricSlab(c.real(p + "n", 1, 4), c.real(p + "t", 0, 100), diameter=diameter)
    if kind == "mirror":
        return rt.CurvedMirror(c.real(p + "R", -500, 500, nonzero=True), diameter=diameter)
    if kind == "aperture":
        return rt.Aperture(diameter)
    if kind == "interface":
        return rt.DielectricInterface(n1, n2, c.real(p + "R", -500, 500, nonzero=True), diameter=diameter)
    if kind == "flat":
        return rt.DielectricInterface(n1, n2, diameter=diameter)
    if kind == "matrix":
        return rt_matrix(c, p, n1, n2, diameter=diameter)
    if kind == "matrixL0":
        return rt_matrix(c, p, n1, n2, L=0, diameter=diameter)
    raise ValueError(kind)


def index(c, name):
    return c.real(name, 1, 4)


def abcd(m):
    return (m.A, m.B, m.C, m.D)


def mul2(m, n):
    """2x2 product m*n, as tuples"""
    a, b, c_, d = m
    e, f, g, h = n
    return (a * e + b * g, a * f + b * h, c_ * e + d * g, c_ * f + d * h)


def check_abcd(c, got, want, label, tol=None):
    for n, x, y in zip("ABCD", got, want):
        c.eq(x, y, f"{label}.{n}", tol=tol)


def ray(c, p="", h=50, t=2, z=None):
    y = c.real(p + "y", -h, h)
    theta = c.real(p + "theta", -t, t)
    return c.rt.Ray(y=y, theta=theta, z=c.real(p + "z", -100, 100) if z is None else z)


# ------------------------------------------------------------------ tracing
class Pt:
    """a point of an expected trace"""

    def __init__(self, y, theta, z, blocked=False):
        self.y, self.theta, self.z, self.blocked = y, theta, z, blocked
        self.isBlocked = blocked


def step(c, e, p):
    """p through the (leaf) element e by its own matrix; the points it adds and the last one"""
    if p.blocked:
        return [p, p] if c.decide(e.L > 0) else [p]
    pts = []
    hit = c.decide(abs(p.y) > e.apertureDiameter / 2)
    if c.decide(e.L > 0):
        if hit:
            b = Pt(p.y, p.theta, p.z, True)
            return [b, b]
        pts.append(p)
    na = c.decide(abs(p.theta) > e.apertureNA)
    pts.append(Pt(e.A * p.y + e.B * p.theta, e.C * p.y + e.D * p.theta, p.z + e.L, bool(hit or na)))
    return pts


def expected_trace(c, els, r):
    p = Pt(r.y, r.theta, r.z, r.isBlocked)
    pts = [p]
    for e in els:
        if isinstance(e, c.rt.MatrixGroup):
            new = expected_trace(c, e.elements, p)
        else:
            new = step(c, e, p)
        pts.extend(new)
        p = pts[-1]
    return pts


def same_trace(c, got, want, label):
    c.check(len(got) == len(want), label + ": number of points")
    if len(got) != len(want):
        return
    for g, w in zip(got, want):
        c.eq(g.y, w.y, label + ": height")
        c.eq(g.theta, w.theta, label + ": angle")
        c.eq(g.z, w.z, label + ": position")
        c.check(bool(g.isBlocked) == bool(w.blocked), label + ": blocked")


def flatten(c, els):
    out = []
    for e in els:
        if isinstance(e, c.rt.MatrixGroup):
            out.extend(flatten(c, e.elements))
        else:
            out.append(e)
    return out
