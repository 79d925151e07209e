"""P25: an imported Zemax lens is the prescription in the file."""
import os
from .common import *

BOUNDS = ("files of 1 to 6 surfaces (thorough: 8) with any curvatures (flat ones included), thicknesses and semi-diameters as numbers in the text, of 1 to 3 glasses by any spelling of their names, with or without "
          "object, dummy, stop and image surfaces, diameters, unit line and trailing sections, in UTF-8 or UTF-16 with either line ending, in millimetres, centimetres, metres and inches, "
          "with 1 to 5 design wavelengths of any value and 0 to 20 unused ones of 0.55 after them")
OUTSIDE = ("triplets (and longer) of which some leading part is exactly afocal; aspheric, tilted or diffractive surfaces, mirrors and glasses given by a model (the reader does not claim them); the parts after an air space; digits lost when a number is written as text; "
           "texts in other encodings")

UNITS = {None: 1.0, "MM": 1.0, "IN": 25.4, "CM": 10.0, "METER": 1000.0, "mm": 1.0, "in": 25.4}


class S:
    """a surface as the file states it"""

    def __init__(self, curv, disz, diam, glass):
        self.curv, self.disz, self.diam, self.glass = curv, disz, diam, glass


def text(x):
    return "INFINITY" if isinstance(x, float) and x == INF else repr(x)


def write(c, surfaces, units="MM", encoding="utf-8", eol="\n", waves=None, extra=False, name="lens.zmx", shape="plain"):
    L = ["VERS 200914 2523 36398 36398", "MODE SEQ", "NAME a lens"]
    if extra:
        L += ["NOTE 0 SURF AND CURV IN A NOTE", "PFIL 0 0 0", "", "  "]
    if units is not None:
        L.append("UNIT %s X W X CM MR CPMM" % units)
    L.append("ENPD 20.0")
    if extra:
        L += ["FTYP 0 0 3 3 0 0 0", "GCAT SCHOTT HOYA"]
    for i, w in enumerate(waves if waves is not None else [0.4861, 0.5876, 0.6563]):
        L.append("WAVM %d %s 1" % (i + 1, text(w)))
    if extra:
        L += ["PWAV 2", "POLS 1 0 1 0 0 1 0"]
    for i, s in enumerate(surfaces):
        L.append("SURF %d" % i)
        if extra:
            L += ["  COMM surface %d" % i, "  TYPE STANDARD", "  FIMP ", ""]
            if i == 1:
                L.append("  STOP")
        body = ["  CURV %s 0 0 0 0 \"\"" % text(s.curv)]
        if s.glass is not None:
            body.append("  GLAS %s 0 0 1.5 40 0 0 0 0 0 0" % s.glass)
        body.append("  DISZ %s" % text(s.disz))
        if s.diam is not None:
            body.append("  DIAM %s 1 0 0 1 \"\"" % text(s.diam))
        L += body[::-1] if shape == "reversed" else body
        if extra:
            L += ["  POPS 0 0 0 0 0 0 0 0 1 1 1 1 0 0 0 0"]
    if extra:
        L += ["TOL TOFF   0   0  0  0", "MNUM 1 1", "MOFF   0   1 \"\" 0 0 0 1 1 0 0.0 \"\""]
    p = os.path.join(c.tmp(), name)
    with open(p, "wb") as f:
        f.write((eol.join(L) + eol).encode(encoding))
    return p


GLASS = {"BK7": "N_BK7", "SF2": "SF2", "SF5": "SF5"}
SPELL = {"BK7": ["N-BK7", "NBK7", "n-bk7", "N_BK7"], "SF2": ["SF2", "sf2"], "SF5": ["SF5", "SF-5"]}


GENERAL = []        # not empty: no flat surface or touching ones but those of the layout


def surface(c, p, glass=None, diam=True, flat=False, thick=True):
    g = bool(GENERAL)
    const = GENERAL[0] if g else ""
    i = "abcdesx".index(p)
    return S(0.0 if flat else (0.03125, 0.0625, -0.015625, -0.03125, 0.0078125)[i % 5] if const == "curvatures" else c.real(p + "c", -0.1, 0.1, nonzero=g),
             0.0 if not thick else (3.5, 1.25, 2.0, 4.5, 1.0)[i % 5] if const == "thicknesses" else c.real(p + "t", 0.01 if g else 0, 50),
             c.real(p + "D", 0.01, 50) if diam else None, glass)


def layout(c, shape, spell=0, diam=True):
    """surfaces of a file, and those of its lens: [(surface, glass after it)]"""
    g = lambda k: SPELL[k][spell % len(SPELL[k])]
    obj = S(0.0, INF, 0.0 if diam else None, None)
    img = S(0.0, 0.0, 5.0 if diam else None, None)
    if shape == "bare":
        lens = [surface(c, "a", g("BK7"), diam), surface(c, "b", None, diam)]
        return lens, lens
    if shape == "singlet":
        lens = [surface(c, "a", g("BK7"), diam), surface(c, "b", None, diam)]
        return [obj] + lens + [img], lens
    if shape == "planoconvex":
        lens = [surface(c, "a", g("BK7"), diam, flat=True), surface(c, "b", None, diam)]
        return [obj] + lens + [img], lens
    if shape == "window":
        lens = [surface(c, "a", g("BK7"), diam, flat=True), surface(c, "b", None, diam, flat=True)]
        return [obj] + lens + [img], lens
    if shape == "dummy":
        lens = [surface(c, "a", g("SF2"), diam), surface(c, "b", None, diam)]
        return [obj, surface(c, "s", None, diam, flat=True)] + lens + [surface(c, "x", None, diam)], lens
    if shape == "doublet":
        lens = [surface(c, "a", g("BK7"), diam), surface(c, "b", g("SF2"), diam), surface(c, "c", None, diam)]
        return [obj] + lens + [img], lens
    if shape == "triplet":
        lens = [surface(c, "a", g("BK7"), diam), surface(c, "b", g("SF2"), diam), surface(c, "c", g("SF5"), diam), surface(c, "d", None, diam)]
        return [obj] + lens + [img], lens
    if shape == "sameglass":
        lens = [surface(c, "a", g("BK7"), diam), surface(c, "b", g("BK7"), diam), surface(c, "c", None, diam)]
        return [obj] + lens + [img], lens
    if shape == "long":
        lens = [surface(c, "a", g("BK7"), diam), surface(c, "b", g("SF2"), diam), surface(c, "c", g("SF5"), diam), surface(c, "d", g("BK7"), diam), surface(c, "e", None, diam)]
        return [obj, surface(c, "s", None, diam)] + lens + [img], lens
    raise ValueError(shape)


def zmx(c, p):
    return c.rt.zemax.ZMXReader(p)


def material(c, glass):
    if glass is None:
        return c.rt.Air
    for k, v in SPELL.items():
        if glass in v:
            return getattr(c.rt, GLASS[k])


def check_surface(c, got, s, i, f, label):
    c.check(got.number == i, label + ": numbered as in the file")
    if c.decide(s.curv == 0):
        c.check(got.R == INF, label + ": flat")
        c.reached("flat")
    else:
        c.eq(got.R * s.curv, f, label + ": radius is one over the curvature, in mm")
    if s.diam is None:
        c.check(got.diameter == INF, label + ": no diameter")
    else:
        c.eq(got.diameter, 2 * s.diam * f, label + ": diameter in mm")
    if isinstance(s.disz, float) and s.disz == INF:
        c.check(got.spacing == INF, label + ": at infinity")
    else:
        c.eq(got.spacing, s.disz * f, label + ": thickness in mm")
    c.check(isinstance(got.mat, material(c, s.glass)), label + ": glass by its name")


def surfaces(c, shape, units, encoding, eol, extra, spell, diam=True, order="plain"):
    ss, lens = layout(c, shape, spell, diam)
    r = zmx(c, write(c, ss, units, encoding, eol, extra=extra, shape=order))
    f = UNITS[units]
    got = r.surfaces()
    c.check(len(got) == len(ss), "as many surfaces as in the file")
    for i, s in enumerate(ss):
        check_surface(c, got[i], s, i, f, "surface")
        check_surface(c, r.surfaceInfo(i), s, i, f, "surface by number")
    c.check(r.surfaceInfo(len(ss)) is None, "no more than those")
    first = [i for i, s in enumerate(ss) if s is lens[0]][0]
    ls = r.lensSurfaces()
    c.check(len(ls) == len(lens), "the lens is from its first glass to the air after it")
    for i, s in enumerate(lens):
        check_surface(c, ls[i], s, first + i, f, "lens surface")


class Glasses:
    """the indices of the glasses become any numbers (what they are is P20); notes at which wavelengths they are asked"""

    def __init__(self, c):
        self.c, self.asked = c, []

    def __enter__(self):
        self.saved = {}
        for k in GLASS.values():
            cls = getattr(self.c.rt, k)
            self.saved[k] = cls.__dict__["n"]
            cls.n = classmethod(self.make(k))
        return self

    def make(self, k):
        def n(cls, wavelength):
            self.asked.append(wavelength)
            return self.c.real("n_" + k, 1.3, 2)
        return n

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(getattr(self.c.rt, k), "n", v)


def group(c, shape, units, wavelength, spell, diam=True, const=""):
    with Glasses(c) as gl:
        group_(c, shape, units, wavelength, spell, diam, const, gl)


def group_(c, shape, units, wavelength, spell, diam, const, gl):
    rt = c.rt
    del GENERAL[:]
    if const or units not in ("MM", "IN"):
        GENERAL.append(const)
    ss, lens = layout(c, shape, spell, diam)
    del GENERAL[:]
    if wavelength == "any":
        w = c.real("w", 0.4, 1.0)
        waves = [0.4, w, 0.7]
    else:
        w = 0.5876
        waves = None
    if const:
        m, n1 = (1, 0, 0, 1), 1.0
        for s in lens:
            n2 = material(c, s.glass).n(w)
            m = mul2((1, 0, -(n2 - n1) / n2 * s.curv / UNITS[units], n1 / n2), m)
            c.assume(m[2] != 0)
            m = mul2((1, s.disz * UNITS[units], 0, 1), m)
            n1 = n2
        del gl.asked[:]
    r = zmx(c, write(c, ss, units, waves=waves))
    c.eq(r.designWavelength, w, "the middle wavelength")
    f = UNITS[units]
    g = r.matrixGroup()
    again = r.matrixGroup()
    for a in gl.asked:
        c.eq(a, w, "indices at the design wavelength")
    c.check(isinstance(g, rt.MatrixGroup), "a group")
    els = list(g.elements)
    c.check(len(els) == 2 * len(lens) - 1 and len(again) == len(els), "an interface per surface and a space per glass")
    m = (1, 0, 0, 1)
    L = 0
    n1 = 1.0
    for i, s in enumerate(lens):
        mat = material(c, s.glass)
        n2 = mat.n(w)
        e = els[2 * i]
        c.check(isinstance(e, rt.DielectricInterface), "an interface per surface")
        c.eq(e.frontIndex, n1, "the index before")
        c.eq(e.backIndex, n2, "the index after")
        c.eq(e.L, 0, "an interface has no length")
        if s.diam is None:
            c.check(e.apertureDiameter == INF, "no aperture")
        else:
            c.eq(e.apertureDiameter, 2 * s.diam * f, "its diameter")
        # power in 1/mm, straight from the text
        k = (1, 0, -(n2 - n1) / n2 * s.curv / f, n1 / n2)
        check_abcd(c, abcd(e), k, "interface")
        check_abcd(c, abcd(again.elements[2 * i]), k, "interface, second time")
        m = mul2(abcd(e), m)
        if s.glass is not None:
            e = els[2 * i + 1]
            c.check(isinstance(e, rt.Space), "a space per glass")
            c.eq(e.L, s.disz * f, "the thickness of the glass")
            c.eq(e.frontIndex, n2, "glass")
            c.eq(e.backIndex, n2, "glass")
            check_abcd(c, abcd(e), (1, s.disz * f, 0, 1), "space")
            m = mul2(abcd(e), m)
            L = L + s.disz * f
        n1 = n2
    check_abcd(c, abcd(g), m, "the lens")
    c.eq(g.L, L, "length of the lens")
    c.eq(g.frontIndex, 1.0, "in air")
    c.eq(g.backIndex, 1.0, "in air")
    c.check(isinstance(r.prescription(), str) and len(r.prescription().strip().split("\n")) == len(lens) + 1, "one line per surface in the prescription")


def waves(c, n, unused):
    ws = [c.real("w%d" % i, 0.2, 5) for i in range(n)]
    c.assume(ws[-1] != 0.55)
    listed = list(ws) + [0.55] * unused
    ss, lens = layout(c, "singlet")
    r = zmx(c, write(c, ss, waves=listed))
    got = r.designWavelengths()
    c.check(len(got) == n, "the wavelengths listed, without the unused ones at the end")
    for a, b in zip(got, ws):
        c.eq(a, b, "wavelengths in order")
    c.eq(r.designWavelength, ws[n // 2], "the design wavelength is the middle one")


def waves_all_unused(c, n):
    """0.55 is a wavelength like any other when there is no other"""
    ss, lens = layout(c, "singlet")
    r = zmx(c, write(c, ss, waves=[0.55] * n))
    c.check(r.designWavelength == 0.55, "a lens designed at 0.55")
    c.check(r.designWavelengths() == [0.55], "one wavelength")


def unknown(c):
    rt = c.rt
    ss = [S(0.0, INF, None, None), surface(c, "a", "UNOBTAINIUM"), surface(c, "b")]
    r = zmx(c, write(c, ss))
    c.raises(ValueError, lambda: r.surfaces(), "an unknown glass is refused")
    c.raises(ValueError, lambda: r.matrixGroup(), "an unknown glass is refused")
    c.raises(OSError, lambda: zmx(c, os.path.join(c.tmp(), "absent.zmx")), "a missing file is refused")


def all_glasses(c):
    """every glass of the library, as a singlet"""
    rt = c.rt
    for name in rt.Material.all():
        if name == "Air":
            continue
        ss = [S(0.0, INF, 0.0, None), S(c.real("c", -0.1, 0.1), c.real("t", 0, 10), 5.0, name.replace("_", "-")), S(0.01, 1.0, 5.0, None)]
        r = zmx(c, write(c, ss, name=name + ".zmx"))
        got = r.surfaces()
        c.check(len(got) == 3 and type(got[1].mat) is getattr(rt, name), "every glass by its name")
        check_surface(c, got[1], ss[1], 1, 1.0, "surface of a glass") if name in GLASS.values() else c.eq(got[1].spacing, ss[1].disz, "surface of a glass")
        c.check([type(x.mat) for x in r.lensSurfaces()] == [getattr(rt, name), rt.Air], "a lens of a glass")


OPTIONS = {}
MUST_REACH = ["flat", "the lens.A", "an unknown glass is refused", "wavelengths in order"]
SHAPES = ["bare", "singlet", "planoconvex", "window", "dummy", "doublet", "triplet", "sameglass"]


def cases(tier):
    out = []
    big = tier == "thorough"

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    shapes = SHAPES + (["long"] if big else [])
    i = 0
    for s in shapes:
        for u in UNITS:
            for enc, eol in (("utf-8", "\n"), ("utf-16", "\r\n")) + ((("utf-8", "\r\n"), ("utf-16", "\n"), ("utf-8-sig", "\n")) if big else ()):
                extra = (i % 2 == 0)
                if big or s in ("singlet", "doublet") or u in ("MM", "IN", None):
                    add("surfaces-%s-%s-%s-%s" % (s, u, enc, "crlf" if eol == "\r\n" else "lf"), "surfaces", s, u, enc, eol, extra, i // 2)
                    i += 1
        add("surfaces-nodiam-%s" % s, "surfaces", s, "MM", "utf-8", "\n", True, 0, False)
        add("surfaces-reversed-%s" % s, "surfaces", s, "IN", "utf-8", "\n", True, 1, True, "reversed")
        for k in ("curvatures", "thicknesses") if s in ("triplet", "long") else ("",):
            x = "-" + k if k else ""
            for u in UNITS if big else ("MM", "IN") if k == "curvatures" else ("MM",) if k else ("MM", "IN", "CM", None):
                add("group-%s-%s%s" % (s, u, x), "group", s, u, "fixed", 0, True, k)
            if big or not k:
                add("group-any-%s%s" % (s, x), "group", s, "MM", "any", 1, True, k)
                add("group-nodiam-%s%s" % (s, x), "group", s, "IN", "fixed", 1, False, k)
    for n in range(1, 6):
        for u in (0, 1, 4, 20):
            add("waves-%d-%d" % (n, u), "waves", n, u)
    for n in (1, 2, 24):
        add("waves-unused-%d" % n, "waves_all_unused", n)
    add("unknown", "unknown")
    add("glasses", "all_glasses")
    return out
