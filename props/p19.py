"""P19: compound lenses, objectives and relays are what their data say."""
import re
import warnings as W
from .common import *

BOUNDS = ("achromats and singlets of any radii 5..500 mm of either sign (or plane at one surface), centre thicknesses 0.1..20, indices 1.2..4 given directly or by materials that are arbitrary functions "
          "of the wavelength, any stated focal lengths, wavelength given, by reference, or absent; every lens of the thorlabs and eo catalogues with arbitrary indices of its glasses, "
          "at a given or its reference wavelength; objectives of any data and both orientations, all catalogued ones; 2f and 4f relays of any focal lengths and diameters, every sign")
OUTSIDE = ("powers below 1e-5, which the code treats as none; whether a stated edge thickness (te) agrees, compared to 5% in a warning; "
           "catalogue entries whose own documentation is misprinted (PN_85_877 R2 sign, AC254_075_A and AC254_125_A te)")


class Rec:
    """a glass whose index at each wavelength is arbitrary"""

    def __init__(self, c, name):
        self.c, self.name, self.asked, self.memo = c, name, [], []

    def n(self, w):
        self.asked.append(w)
        for v, x in self.memo:
            if v is w or bool(v == w):
                return x
        x = self.c.real("%s_at%d" % (self.name, len(self.memo)), 1.2, 4)
        self.memo.append((w, x))
        return x


def quiet(fn):
    with W.catch_warnings(record=True) as got:
        W.simplefilter("always")
        v = fn()
    return v, [str(w.message) for w in got]


class focal:
    """while it lasts, focal and back focal lengths of lenses are the given ones: P11 decides them, and P19 what is made of them"""
    NAMES = ("focalDistances", "effectiveFocalLengths", "backFocalLength")

    def __init__(self, c, f, bfl):
        self.c, self.f, self.b = c, f, bfl

    def __enter__(self):
        M = self.M = self.c.rt.specialtylenses.CompoundLens
        val = (lambda v: v() if callable(v) else v)
        from collections import namedtuple
        FL = namedtuple("FocalLengths", "f1 f2")
        self.saved = [(n, M.__dict__.get(n)) for n in self.NAMES]
        M.focalDistances = lambda s: FL(val(self.f), val(self.f))
        M.effectiveFocalLengths = lambda s: FL(val(self.f), val(self.f))
        M.backFocalLength = lambda s: val(self.b)

    def __exit__(self, *a):
        for n, v in self.saved:
            if v is None:
                delattr(self.M, n)
            else:
                setattr(self.M, n, v)


def surfaces(c, Rs, ts, ns):
    """product of interfaces and spaces, air outside; ns: indices of the glasses"""
    m = (1, 0, 0, 1)
    n = 1.0
    for i, R in enumerate(Rs):
        n2 = ns[i] if i < len(ns) else 1.0
        P = 0 if R is None or R in (INF, -INF) else (n2 - n) / R
        m = mul2((1, 0, -P / n2, n / n2), m)
        if i < len(ts):
            m = mul2((1, ts[i], 0, 1), m)
        n = n2
    return m


def check_lens(c, l, want, ts, ns, diameter, fdoc, label):
    check_abcd(c, abcd(l), want, label + ": acts as its surfaces and glass")
    L = 0
    for t in ts:
        L = L + t
    c.eq(l.L, L, label + ": as long as its glass")
    c.eq(l.frontVertex, 0, label + ": front vertex first")
    c.eq(l.backVertex, L, label + ": back vertex last")
    c.check(l.frontIndex == 1.0 and l.backIndex == 1.0, label + ": in air")
    c.eq(l.apertureDiameter, diameter, label + ": of its diameter")
    c.eq(l.designFocalLength, fdoc, label + ": of its design focal length")
    # in each glass
    z = 0
    g = [e for e in l.elements if type(e).__name__ == "Space"]
    c.check(len(g) == len(ts), label + ": one space per glass")
    for e, t, n in zip(g, ts, ns):
        c.eq(e.L, t, label + ": each glass of its thickness")
        c.eq(e.frontIndex, n, label + ": each glass of its index")


def check_given(c, F, B, f, fb, msgs):
    fl = [m for m in msgs if "effective focal" in m]
    bf = [m for m in msgs if "back focal" in m]
    c.check(len(fl) == (1 if F == INF or c.decide(abs((F - f) / f) > 0.01) else 0), "a wrong focal length is reported, a right one is not")
    c.check(len(bf) == (1 if B is None or c.decide(abs((B - fb) / fb) > 0.01) else 0), "a wrong back focal length is reported, a right one is not")
    if B is None:
        c.reached("powerless")


def check_notes(c, l, want, f, fb, msgs):
    A, B, C, D = want
    if c.decide(abs(C) <= 1e-5):
        c.reached("powerless")
        c.check(any("effective focal" in m for m in msgs), "a lens without power is reported")
        return
    fl = [m for m in msgs if "effective focal" in m]
    bf = [m for m in msgs if "back focal" in m]
    # in air: f = -1/C, back focal length = -A/C
    c.check(len(fl) == (1 if c.decide(abs((-1 / C - f) / f) > 0.01) else 0), "a wrong focal length is reported, a right one is not")
    c.check(len(bf) == (1 if c.decide(abs((-A / C - fb) / fb) > 0.01) else 0), "a wrong back focal length is reported, a right one is not")


def doublet(c, how, plane=None, sign=(1, 1, 1), whole=False, fixed=None, te=INF):
    rt = c.rt
    Rs = []
    for i, s in enumerate(sign):
        Rs.append(INF if plane == i else fixed[i] if fixed else s * c.real("R%d" % (i + 1), 5, 500))
    ts = [c.real("tc1", 0.1, 20), c.real("tc2", 0.1, 20)]
    d = c.real("diameter", 0.5, 9)
    f = c.real("fa", -1000, 1000)
    fb = c.real("fb", -1000, 1000)
    c.assume(c.And(abs(f) > 0.01, abs(fb) > 0.01))
    m1, m2 = Rec(c, "g1"), Rec(c, "g2")
    n1, n2 = c.real("n1", 1.2, 4), c.real("n2", 1.2, 4)
    w, wr = c.real("w", 0.3, 2), c.real("wr", 0.3, 2)
    k = {}
    if how == "none":
        c.raises(ValueError, lambda: rt.AchromatDoubletLens(f, fb, *Rs, *ts, te, d), "no glass is refused")
        c.raises(ValueError, lambda: rt.AchromatDoubletLens(f, fb, *Rs, *ts, te, d, n1=n1), "no second glass is refused")
        c.raises(ValueError, lambda: rt.AchromatDoubletLens(f, fb, *Rs, *ts, te, d, n1=n1, mat2=m2, wavelengthRef=wr), "no second glass is refused")
        c.raises(ValueError, lambda: rt.AchromatDoubletLens(f, fb, *Rs, *ts, te, d, mat1=m1, mat2=m2), "glasses without a wavelength are refused")
        return
    if how != "index":
        k = dict(mat1=m1, mat2=m2)
    if how in ("index", "both", "all"):
        k.update(n1=n1, n2=n2)
    if how in ("wavelength", "two", "all"):
        k.update(wavelength=w)
    if how in ("reference", "two", "both", "all"):
        k.update(wavelengthRef=wr)
    if whole:
        l, msgs = c.ok(lambda: quiet(lambda: rt.AchromatDoubletLens(f, fb, *Rs, *ts, te, d, label="x", **k)), "a doublet can be made")
    else:
        F, B = (INF, None) if c.choice("powerless", 2) else (c.real("F", -1000, 1000), c.real("BFL", -1000, 1000))
        with focal(c, F, B):
            l, msgs = c.ok(lambda: quiet(lambda: rt.AchromatDoubletLens(f, fb, *Rs, *ts, te, d, label="x", **k)), "a doublet can be made")
    at = w if how in ("wavelength", "two", "all") else wr
    ns = [n1, n2] if how == "index" else [m1.n(at), m2.n(at)]
    if how != "index":
        c.check(all(bool(a == at) for a in m1.asked + m2.asked), "the glasses are asked for their index at the wavelength wanted")
    c.eq(l.n1, ns[0], "index of the first glass")
    c.eq(l.n2, ns[1], "index of the second glass")
    want = surfaces(c, Rs, ts, ns)
    check_lens(c, l, want, ts, ns, d, f, "doublet")
    if whole:
        check_notes(c, l, want, f, fb, msgs)
    else:
        check_given(c, F, B, f, fb, msgs)
    for e, R, a, b in zip([e for e in l.elements if type(e).__name__ != "Space"], Rs, [1.0, ns[0], ns[1]], [ns[0], ns[1], 1.0]):
        if R is not INF:
            c.eq(e.R, R, "each interface of its radius")
        c.eq(e.apertureDiameter, d, "each interface of the diameter")


def singlet(c, how, plane=None, sign=(1, 1), whole=False, fixed=None, te=INF):
    rt = c.rt
    Rs = []
    for i, s in enumerate(sign):
        Rs.append(INF if plane == i else fixed[i] if fixed else s * c.real("R%d" % (i + 1), 5, 500))
    t = c.real("tc", 0.1, 20)
    d = c.real("diameter", 0.5, 9)
    f = c.real("f", -1000, 1000)
    fb = c.real("fb", -1000, 1000)
    c.assume(c.And(abs(f) > 0.01, abs(fb) > 0.01))
    m = Rec(c, "g")
    n = c.real("n", 1.2, 4)
    w, wr = c.real("w", 0.3, 2), c.real("wr", 0.3, 2)
    if how == "none":
        c.raises(ValueError, lambda: rt.SingletLens(f, fb, *Rs, t, te, None, d), "no glass is refused")
        c.raises(ValueError, lambda: rt.SingletLens(f, fb, *Rs, t, te, None, d, mat=m), "a glass without a wavelength is refused")
        return
    k = dict(n=n if how in ("index", "both", "all") else None)
    if how != "index":
        k.update(mat=m)
    if how in ("wavelength", "two", "all"):
        k.update(wavelength=w)
    if how in ("reference", "two", "both", "all"):
        k.update(wavelengthRef=wr)
    if whole:
        l, msgs = c.ok(lambda: quiet(lambda: rt.SingletLens(f, fb, *Rs, t, te, diameter=d, label="x", **k)), "a singlet can be made")
    else:
        F, B = (INF, None) if c.choice("powerless", 2) else (c.real("F", -1000, 1000), c.real("BFL", -1000, 1000))
        with focal(c, F, B):
            l, msgs = c.ok(lambda: quiet(lambda: rt.SingletLens(f, fb, *Rs, t, te, diameter=d, label="x", **k)), "a singlet can be made")
    at = w if how in ("wavelength", "two", "all") else wr
    ns = [n if how == "index" else m.n(at)]
    c.check(all(bool(a == at) for a in m.asked), "the glass is asked for its index at the wavelength wanted")
    c.eq(l.n, ns[0], "index of the glass")
    want = surfaces(c, Rs, [t], ns)
    check_lens(c, l, want, [t], ns, d, f, "singlet")
    if whole:
        check_notes(c, l, want, f, fb, msgs)
    else:
        check_given(c, F, B, f, fb, msgs)


# ------------------------------------------------------------------ catalogues
ERRATA = {("PN_85_877", "R2")}


def table(cls):
    """the numbers of the lens's documentation, each with half a unit of its last digit"""
    out = {}
    for k, v in re.findall(r'"([^"]+)",\s*"([^"]+)"', cls.__doc__ or ""):
        try:
            x = float(v)
        except ValueError:
            continue
        out[k.strip()] = (x, 0.5001 * 10 ** -len(v.split(".")[1]) if "." in v else 1e-6)
    return out


def lenses(mod, base):
    return sorted((k for k in vars(mod).values() if isinstance(k, type) and k.__module__ == mod.__name__ and issubclass(k, base)), key=lambda k: k.__name__)


def catalogue(c, modname, start, stop, given):
    import importlib
    rt = c.rt
    mod = importlib.import_module("raytracing." + modname)
    some = lenses(mod, rt.specialtylenses.CompoundLens)[start:stop]
    cls = some[c.choice("lens", len(some))]
    if given and modname == "eo" and cls.__name__ in ("PN_33_921", "PN_88_593"):
        given = False          # of stated indices, not of glasses
    one(c, cls, given)


def one(c, cls, given):
    rt = c.rt
    name = cls.__name__
    w = c.real("w", 0.35, 2)
    saved = []
    glass = {}
    try:
        for g in rt.materials.Material.__subclasses__():
            saved.append((g, g.__dict__.get("n")))
            glass[g] = Rec(c, g.__name__)
            g.n = glass[g].n
        doc = table(cls)
        with focal(c, doc.get("fa", doc.get("f", (1.0,)))[0], doc.get("fb", (1.0,))[0]):
            l, msgs = c.ok(lambda: quiet(lambda: cls(wavelength=w) if given else cls()), name + " can be made at any wavelength")
        two = isinstance(l, rt.AchromatDoubletLens)
        mats = [l.mat1, l.mat2] if two else [l.mat]
        ns = []
        for i, m in enumerate(mats):
            if m is None:
                ns.append((l.n1, l.n2)[i] if two else l.n)
                continue
            at = w if given else l.wavelengthRef
            ns.append(glass[m].n(at))
            c.check(all(a is at or bool(a == at) for a in glass[m].asked), name + ": index at the wavelength asked for")
    finally:
        for g, n in saved:
            if n is None:
                del g.n
            else:
                g.n = n
    fields = dict(fa=l.fa, fb=l.fb, R1=l.R1, R2=l.R2, R3=l.R3, tc1=l.tc1, tc2=l.tc2, diameter=l.apertureDiameter) if two else \
        dict(f=l.f, fb=l.fb, R1=l.R1, R2=l.R2, tc=l.tc, diameter=l.apertureDiameter)
    for k, v in fields.items():
        if k in doc and (name, k) not in ERRATA:
            x, tol = doc[k]
            c.check(v == x or abs(v - x) <= tol, "%s: %s is the documented one" % (name, k))
            c.reached("documented")
    Rs, ts = ([l.R1, l.R2, l.R3], [l.tc1, l.tc2]) if two else ([l.R1, l.R2], [l.tc])
    want = surfaces(c, Rs, ts, ns)
    check_lens(c, l, want, ts, ns, l.apertureDiameter, l.fa if two else l.f, name)


# ------------------------------------------------------------------ objectives
def check_objective(c, o, f, NA, F, back, wd, flipped, label):
    # from the focal point at one end to that at the other: A = D = 0, f
    check_abcd(c, abcd(o), (0, f, -1 / f, 0), label + ": focal length f, focal points at its ends")
    c.eq(o.L, F, label + ": from focus to focus")
    c.check(bool(o.isFlipped) == flipped, label + ": orientation")
    pts = dict((p["label"], p["z"]) for p in o.pointsOfInterest(10))
    a, b = ("$F_f$", "$F_b$") if flipped else ("$F_b$", "$F_f$")
    c.eq(pts[a], 10, label + ": focal point at the entrance")
    c.eq(pts[b], 10 + F, label + ": focal point at the exit")
    z = 0
    found = {}
    for e in o.elements:
        if c.decide(e.apertureDiameter < 1e300):
            found.setdefault(e.label, []).append((z, e.apertureDiameter))
        z = z + e.L
    c.check(sorted(found) == ["backAperture", "frontAperture"] and all(len(v) == 1 for v in found.values()), label + ": two apertures")
    zb, db = found["backAperture"][0]
    zf, df = found["frontAperture"][0]
    c.eq(db, back, label + ": back aperture diameter")
    c.eq(df, 2 * NA * wd, label + ": the front aperture gives the numerical aperture")
    c.eq(zb, F if flipped else 0, label + ": the back aperture is at the back focal point")
    c.eq(zf, wd if flipped else F - wd, label + ": the front aperture is at the working distance")
    c.eq(o.frontVertex, wd if flipped else 0, label + ": front vertex")
    c.eq(o.backVertex, F if flipped else F - wd, label + ": back vertex")


def objective(c, flips):
    rt = c.rt
    f, NA = c.real("f", 0.5, 50), c.real("NA", 0.01, 1.4)
    wd = c.real("wd", 0.01, 50)
    F = c.real("F", 1, 300)
    back = c.real("back", 0.1, 60)
    c.assume(c.And(wd <= f, F >= 2 * f))
    o = c.ok(lambda: quiet(lambda: rt.Objective(f=f, NA=NA, focusToFocusLength=F, backAperture=back, workingDistance=wd, magnification=20, fieldNumber=22)), "an objective can be made")[0]
    check_objective(c, o, f, NA, F, back, wd, False, "objective")
    for k in range(flips):
        o.flipOrientation()
        check_objective(c, o, f, NA, F, back, wd, k % 2 == 0, "objective flipped %d times" % (k + 1))
    # a ray parallel to the axis goes through the focal point; one inside the back aperture is not blocked there
    y = c.real("y", -30, 30)
    if not flips:
        t = o.trace(rt.Ray(y, 0))
        if not t[-1].isBlocked:
            c.eq(t[-1].y, 0, "parallel rays focus at the front focal point")
            c.eq(t[-1].theta, -y / f, "parallel rays focus with focal length f")
        inside = c.And(abs(y) <= back / 2, abs(y) * wd / f <= NA * wd)
        c.check(bool(t[-1].isBlocked) == (not c.decide(inside)), "blocked beyond the back aperture or the numerical aperture only")
    c.eq(o.maximumOpticalInvariant(), 11 / 20 * NA, "maximum invariant from field number and magnification")


def catalogue_objectives(c):
    import importlib
    for m in ("olympus", "nikon"):
        mod = importlib.import_module("raytracing." + m)
        for cls in lenses(mod, c.rt.Objective):
            o = quiet(cls)[0]
            doc = table(cls)
            for k, v in (("focusToFocusLength", o.focusToFocusLength), ("backAperture", o.backAperture), ("Numerical Aperture (NA)", o.NA), ("Working Distance (mm)", o.workingDistance)):
                if k in doc:
                    c.check(abs(v - doc[k][0]) <= doc[k][1], "%s: %s is the documented one" % (cls.__name__, k))
            check_objective(c, o, o.f, o.NA, o.focusToFocusLength, o.backAperture, o.workingDistance, False, cls.__name__)
            o.flipOrientation()
            check_objective(c, o, o.f, o.NA, o.focusToFocusLength, o.backAperture, o.workingDistance, True, cls.__name__)


def relay(c, which):
    rt = c.rt
    f1, f2 = c.real("f1", -500, 500, nonzero=True), c.real("f2", -500, 500, nonzero=True)
    d1, d2 = c.real("d1", 0.1, 100), c.real("d2", 0.1, 100)
    if which == "2f":
        s = rt.System2f(f1, diameter=d1)
        check_abcd(c, abcd(s), (0, f1, -1 / f1, 0), "2f system of focal length f")
        c.eq(s.L, 2 * f1, "2f long")
        c.check(bool(s.hasPower) or c.decide(abs(1 / f1) < 1e-5), "2f system has power")
        lens = [e for e in s.elements if type(e).__name__ == "Lens"]
        c.check(len(lens) == 1, "one lens")
        c.eq(lens[0].apertureDiameter, d1, "its diameter")
        return
    cls = {"4f": rt.System4f, "telescope": rt.components.Telescope}[which]
    s = cls(f1, f2, diameter1=d1, diameter2=d2)
    check_abcd(c, abcd(s), (-f2 / f1, 0, 0, -f1 / f2), "4f system of magnification -f2/f1")
    c.eq(s.L, 2 * f1 + 2 * f2, "2f1 + 2f2 long")
    c.check(s.isImaging, "images its ends onto each other")
    m = s.magnification()
    c.eq(m[0], -f2 / f1, "transverse magnification")
    c.eq(m[1], -f1 / f2, "angular magnification")
    lens = [e for e in s.elements if type(e).__name__ == "Lens"]
    c.check(len(lens) == 2, "two lenses")
    c.eq(lens[0].apertureDiameter, d1, "first diameter")
    c.eq(lens[1].apertureDiameter, d2, "second diameter")
    c.eq(lens[0].C, -1 / f1, "first focal length")
    # positions
    z = 0
    for e in s.elements:
        if e is lens[0]:
            c.eq(z, f1, "first lens at f1")
        if e is lens[1]:
            c.eq(z, 2 * f1 + f2, "second lens at 2 f1 + f2")
        z = z + e.L


def shifts(c, mod, cls, k, kind):
    """focal shift at each wavelength: the focal length there less the design one"""
    import numpy as np
    rt = c.rt
    from importlib import import_module
    lens = getattr(import_module("raytracing." + mod), cls)
    ref = lens()
    g = {}
    ws = [c.real("w%d" % i, 0.35, 2) for i in range(k)]
    if kind == "array":
        ws = np.array(ws)
    mats = [ref.mat1, ref.mat2] if hasattr(ref, "mat1") else [ref.mat]
    saved = [(m, m.__dict__.get("n")) for m in mats]
    try:
        for m in mats:
            g[m] = Rec(c, m.__name__)
            m.n = g[m].n
        x, y = c.ok(lambda: quiet(lambda: ref.focalShifts(ws))[0], "focal shifts at any wavelengths")
        c.check(len(y) == k and len(x) == k, "one shift per wavelength")
        for i in range(k):
            c.eq(x[i], ws[i] * 1000, "wavelengths in nanometres")
            l = quiet(lambda: lens(wavelength=ws[i]))[0]
            ns = [g[m].n(ws[i]) for m in mats]
            Rs, ts = ([l.R1, l.R2, l.R3], [l.tc1, l.tc2]) if len(mats) == 2 else ([l.R1, l.R2], [l.tc])
            C = surfaces(c, Rs, ts, ns)[2]
            if not c.decide(abs(C) < 1e-4):
                c.eq(y[i], -1 / C - l.designFocalLength, "shift from the design focal length")
    finally:
        for m, n in saved:
            if n is None:
                del m.n
            else:
                m.n = n


OPTIONS = {}
MUST_REACH = ["documented", "powerless", "no glass is refused"]


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for how in ("index", "wavelength", "reference", "two", "both", "all", "none"):
        add("doublet-" + how, "doublet", how, None, (1, -1, -1))
        add("singlet-" + how, "singlet", how, None, (1, -1))
    for i, s in enumerate([(1, 1, 1), (-1, 1, 1), (-1, -1, 1), (-1, -1, -1), (1, -1, 1), (1, 1, -1), (-1, 1, -1)]):
        add("doublet-signs%d" % i, "doublet", "index", None, s)
        if i in (2, 3):
            add("doublet-edge%d" % i, "doublet", "index", None, s, False, (20.0 * s[0], 35.0 * s[1], 50.0 * s[2]), 5)
    for i, s in enumerate([(1, 1), (-1, 1), (-1, -1)]):
        add("singlet-signs%d" % i, "singlet", "index", None, s)
        add("singlet-edge%d" % i, "singlet", "index", None, s, False, None, 5)
    for i in range(3):
        add("doublet-plane%d" % i, "doublet", "index", i, (1, -1, -1))
    for i in range(2):
        add("singlet-plane%d" % i, "singlet", "index", i, (1, 1))
        add("singlet-plane%d-whole" % i, "singlet", "index", i, (1, 1), True)
    add("singlet-whole", "singlet", "index", None, (1, 1), True, (60.0, -80.0))
    add("doublet-whole", "doublet", "index", 2, (1, 1, 1), True, (60.0, -40.0, 0))
    for a in range(0, 325, 13):
        add("thorlabs-%d" % a, "catalogue", "thorlabs", a, a + 13 if a < 312 else None, (a // 13) % 2 == 0)
        if tier == "thorough":
            add("thorlabs-%d-other" % a, "catalogue", "thorlabs", a, a + 13 if a < 312 else None, (a // 13) % 2 == 1)
    add("eo", "catalogue", "eo", 0, 4, False)
    add("eo-wavelength", "catalogue", "eo", 0, 4, True)
    for k in (0, 1, 2):
        add("objective-%dflips" % k, "objective", k)
    add("objectives", "catalogue_objectives")
    for w in ("2f", "4f", "telescope"):
        add("relay-" + w, "relay", w)
    add("shifts-doublet", "shifts", "thorlabs", "AC254_050_A", 1, "array")
    add("shifts-singlet", "shifts", "thorlabs", "LA1608_A", 2, "array")
    add("shifts-list", "shifts", "thorlabs", "LA1608_A", 2, "list")
    add("shifts-eo", "shifts", "eo", "PN_33_922", 1, "list")
    return out
