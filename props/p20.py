"""P20: material indices are physical over their stated range."""
from .common import *

BOUNDS = ("every catalogued material at every wavelength (symbolic) of its published range, taken as the one in the heading of materials.py where given and 0.4 to 2 um (HOYA Cauchy formulas: 0.4 to 1 um) otherwise, "
          "and every wavelength outside 0.01..10 um; dispersion by comparing wavelengths 0.01, 0.1 and 0.5 um apart; names of every material with and without hyphens, underscores, any case; any index sought at 3 wavelengths among all materials, "
          "and at any wavelength and tolerance among 1 to 3 materials of arbitrary index")
OUTSIDE = "wavelengths between the published range and the 0.01..10 um the code accepts, where a formula has poles"

# (Abbe number, [(B, C), ...]) of n^2 = 1 + sum B x^2/(x^2 - C), from refractiveindex.info
SELLMEIER = {
    "N_BK7": (64.17, [(1.03961212, 0.00600069867), (0.231792344, 0.0200179144), (1.01046945, 103.560653)]),
    "N_SF2": (33.82, [(1.47343127, 0.0109019098), (0.163681849, 0.0585683687), (1.36920899, 127.404933)]),
    "N_SF8": (31.31, [(1.55075812, 0.0114338344), (0.209816918, 0.0582725652), (1.46205491, 133.24165)]),
    "SF2": (33.85, [(1.40301821, 0.0105795466), (0.231767504, 0.0493226978), (0.939056586, 112.405955)]),
    "SF5": (32.21, [(1.46141885, 0.0111826126), (0.247713019, 0.0508594669), (0.949995832, 112.041888)]),
    "N_SF5": (32.25, [(1.52481889, 0.011254756), (0.187085527, 0.0588995392), (1.42729015, 129.141675)]),
    "N_SF6": (25.36, [(1.77931763, 0.0133714182), (0.338149866, 0.0617533621), (2.08734474, 174.01759)]),
    "N_SF6HT": (25.36, [(1.77931763, 0.0133714182), (0.338149866, 0.0617533621), (2.08734474, 174.01759)]),
    "N_SF10": (28.53, [(1.62153902, 0.0122241457), (0.256287842, 0.0595736775), (1.64447552, 147.468793)]),
    "N_SF11": (25.68, [(1.73759695, 0.013188707), (0.313747346, 0.0623068142), (1.89878101, 155.23629)]),
    "N_SF57": (23.78, [(1.87543831, 0.0141749518), (0.37375749, 0.0640509927), (2.30001797, 177.389795)]),
    "N_BAF10": (47.11, [(1.5851495, 0.00926681282), (0.143559385, 0.0424489805), (1.08521269, 105.613573)]),
    "N_BAK1": (57.55, [(1.12365662, 0.00644742752), (0.309276848, 0.0222284402), (0.881511957, 107.297751)]),
    "N_BAK4": (55.97, [(1.28834642, 0.00779980626), (0.132817724, 0.0315631177), (0.945395373, 105.965875)]),
    "FK51A": (84.47, [(0.971247817, 0.00472301995), (0.216901417, 0.0153575612), (0.904651666, 168.68133)]),
    "LAFN7": (34.95, [(1.66842615, 0.0103159999), (0.298512803, 0.0469216348), (1.0774376, 82.5078509)]),
    "N_LASF9": (32.17, [(2.00029547, 0.0121426017), (0.298926886, 0.0538736236), (1.80691843, 156.530829)]),
    "N_LAK22": (55.89, [(1.14229781, 0.00585778594), (0.535138441, 0.0198546147), (1.04088385, 100.834017)]),
    "N_SSK5": (50.88, [(1.59222659, 0.00920284626), (0.103520774, 0.0423530072), (1.05174016, 106.927374)]),
    "N_SK16": (60.32, [(1.34317774, 0.00704687339), (0.241144399, 0.0229005), (0.994317969, 92.7508526)]),
    "N_LAK10": (50.62, [(1.72878017, 0.00886014635), (0.169257825, 0.0363416509), (1.19386956, 82.9009069)]),
    "S_BAH11": (48.32, [(1.5713886, 0.00910807936), (0.147869313, 0.0402401684), (1.28092846, 130.399367)]),
    "S_TIH6": (25.42, [(1.77227611, 0.0131182633), (0.34569125, 0.0614479619), (2.40788501, 200.753254)]),
    "N_SK2": (56.65, [(1.28189012, 0.0072719164), (0.257738258, 0.0242823527), (0.96818604, 110.377773)]),
    "S_PHM52": (63.33, [(1.0996655, 0.0132718559), (0.478125422, -0.000601649685), (1.13214074, 130.595472)]),
    "S_NPH2": (18.90, [(2.0386951, 0.0170796224), (0.437269641, 0.0749254813), (2.96711461, 174.155354)]),
    "N_PK52A": (81.61, [(1.029607, 0.00516800155), (0.1880506, 0.0166658798), (0.736488165, 138.964129)]),
    "H_LAF3B": (44.90, [(1.66486969, 0.00895646712), (0.30162248, 0.0350299695), (1.1973888, 123.334438)]),
    "H_ZF52GT": (23.78, [(0.409982615, 0.0621421199), (2.37517176, 185.055134), (1.83913582, 0.0136093459)]),
    "H_ZF13": (25.72, [(1.73521591, 0.0131087904), (0.316277446, 0.0621421663), (2.16384634, 178.845558)]),
    "H_ZK50": (56.65, [(0.434311306, -0.00192252587), (1.10560033, 0.0147271072), (0.988776159, 110.41165)]),
    "H_F4": (36.35, [(0.131898794, 0.05793195), (1.42441827, 0.0106270032), (1.21746316, 117.376535)]),
    "FusedSilica": (67.82, [(0.6961663, 0.0684043 ** 2), (0.4079426, 0.1162414 ** 2), (0.8974794, 9.896161 ** 2)]),
}
# n^2 = sum A x^p
CAUCHY = {
    "E_BAF11": (48.31, [(2.71954649, 0), (-0.0100472501, 2), (0.0200301385, -2), (0.000465868302, -4), (-7.51633336e-06, -6), (1.77544989e-06, -8)]),
    "E_FD10": (28.32, [(2.881518, 0), (-0.013228312, 2), (0.03145559, -2), (0.0026851666, -4), (-0.00022577544, -6), (2.4693268e-05, -8)]),
}
RANGE = {"FusedSilica": (0.21, 2.1), "N_BK7": (0.35, 2), "N_LAK22": (0.35, 2.1), "N_SK2": (0.35, 2.3), "N_SSK5": (0.35, 2.2), "SF2": (0.35, 2.2), "SF5": (0.35, 2.3),
         "LAFN7": (0.4, 2), "N_BAF10": (0.4, 2.1), "N_BAK4": (0.4, 2.2), "N_LAK10": (0.4, 2), "N_SF2": (0.4, 2.3), "N_SF5": (0.4, 2.2), "N_SF6HT": (0.4, 2.1),
         "N_SF8": (0.4, 2.1), "N_SF10": (0.4, 2.3), "N_SF11": (0.42, 2.3), "N_SF57": (0.45, 2.1), "E_BAF11": (0.4, 1), "E_FD10": (0.4, 1), "Air": (0.01, 10)}
NAMES = ["Air"] + sorted(SELLMEIER) + sorted(CAUCHY)


def published(name, x):
    """the square of the index"""
    if name == "Air":
        return 1.0
    if name in SELLMEIER:
        v = 1
        for B, C in SELLMEIER[name][1]:
            v = v + B * x * x / (x * x - C)
        return v
    v = 0
    for A, p in CAUCHY[name][1]:
        v = v + (A * x ** p if p >= 0 else A / x ** (-p))
    return v


def material(c, name):
    return c.ok(lambda: getattr(c.rt.materials, name), "a catalogued material exists")


def index(c, name):
    m = material(c, name)
    lo, hi = RANGE.get(name, (0.4, 2))
    x = c.real("w", lo, hi)
    n = c.ok(lambda: m.n(x), "the index exists over the published range")
    c.check(not isinstance(n, complex) and not type(n).__name__ == "SymComplex", "the index is real")
    c.check(n >= 1, "the index is at least 1")
    c.check(n <= 4, "the index is that of a transparent material")
    c.eq(n * n, published(name, x), "the index follows the published formula", tol=1e-7)
    c.eq(m().n(x), n, "the same from an instance")


def dispersion(c, name):
    """normal dispersion, and as much of it as the Abbe number says"""
    m = material(c, name)
    lo, hi = RANGE.get(name, (0.4, 2))
    if name != "Air":
        x = c.real("w", lo, hi)
        for d in (0.01, 0.1, 0.5):
            if c.decide(x + d <= hi):
                c.check(m.n(x) ** 2 > m.n(x + d) ** 2, "the index decreases with wavelength")
        nd, nF, nC = (m.n(w) for w in (0.58756, 0.48613, 0.65627))
        V = (nd - 1) / (nF - nC)
        c.check(abs(V / m.abbeNumber() - 1) < 2e-3, "the Abbe number is that of the index")
        c.check(abs(m.abbeNumber() - (SELLMEIER.get(name) or CAUCHY.get(name))[0]) < 1e-6, "the Abbe number is the published one")
    c.check(m.Vd() == m.abbeNumber(), "Vd is the Abbe number")


def refused(c, name, side):
    m = material(c, name)
    x = c.real("w", -100, 0.01) if side == "low" else c.real("w", 10, 10000)
    c.assume(c.And(x != 0.01, x != 10))
    c.raises(ValueError, lambda: m.n(x), "a wavelength that is not in microns is refused")


def byName(c, name):
    m = material(c, name)
    M = c.rt.materials.Material
    k = c.choice("spelling", 6)
    s = [name, name.replace("_", "-"), name.replace("_", ""), name.lower(), name.replace("_", "-").lower(), name.upper()][k]
    got = c.ok(lambda: M.findByName(s), "a material is found by its name")
    c.check(type(got) is m, "the material found is the one named")
    c.check(str(got) == name.replace("_", "-"), "a material knows its name")
    x = c.real("w", *RANGE.get(name, (0.4, 2)))
    c.eq(got.n(x), m.n(x), "the material found has the index of the one named")
    c.check(name in M.all(), "every material is listed")


def byWrongName(c):
    M = c.rt.materials.Material
    for s in ("", "-", "N-BK", "N-BK77", "XN-BK7", "N-SF", "SF", "glass", "Material"):
        c.raises(ValueError, lambda: M.findByName(s), "a name that is not one of a material is refused")
    c.check(type(M.findByName(None)) is c.rt.materials.Air, "no glass is air")
    c.raises(TypeError, lambda: M.n(0.5), "a material has to be chosen")


def byIndex(c, w):
    """any index sought among all the materials"""
    M = c.rt.materials.Material
    n = c.real("n", 1, 2.2)
    tol = 0.05 if c.choice("tol", 2) else 0.003
    got = c.ok(lambda: M.findByIndex(n, w, tolerance=tol), "materials are sought by index")
    names = [g[0] for g in got]
    for k in NAMES:
        nm = getattr(c.rt.materials, k).n(w)
        close = c.decide(abs(n - nm) < tol)
        c.check((k in names) == close, "found exactly when within tolerance")
        if close:
            g = [g for g in got if g[0] == k][0]
            c.eq(g[1], nm, "found with its index")
            c.check(g[2] == getattr(c.rt.materials, k).abbeNumber(), "found with its Abbe number")


def byIndexAny(c, names):
    """materials of arbitrary index, any tolerance"""
    mats = c.rt.materials
    M = mats.Material
    n, tol, w = c.real("n", 1, 4), c.real("tol", 0.0001, 1), c.real("w", 0.4, 2)
    asked = []
    val = dict((k, c.real("n" + k, 1, 4)) for k in names)
    saved = [(getattr(mats, k), getattr(mats, k).__dict__["n"]) for k in names]
    all_ = M.__dict__["all"]
    try:
        M.all = classmethod(lambda cls: list(names))
        for k in names:
            getattr(mats, k).n = classmethod(lambda cls, x, k=k: (asked.append(x), val[k])[1])
        got = M.findByIndex(n, w, tolerance=tol)
        dflt = M.findByIndex(n, w)
    finally:
        M.all = all_
        for m, f in saved:
            m.n = f
    c.check(all(bool(a == w) for a in asked), "index at the wavelength asked for")
    for k in names:
        c.check((k in [g[0] for g in got]) == c.decide(abs(n - val[k]) < tol), "found exactly when within tolerance")
        c.check((k in [g[0] for g in dflt]) == c.decide(abs(n - val[k]) < 0.05), "found exactly when within 0.05 by default")


MUST_REACH = ["the index follows the published formula", "the index decreases with wavelength", "a wavelength that is not in microns is refused"]


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for k in NAMES:
        add("index-" + k, "index", k)
        add("dispersion-" + k, "dispersion", k)
        add("name-" + k, "byName", k)
        add("low-" + k, "refused", k, "low")
        add("high-" + k, "refused", k, "high")
    add("wrong-names", "byWrongName")
    for w in (0.4861, 0.5876, 0.6563) + ((0.45, 0.8, 1.0) if tier == "thorough" else ()):
        add("find-%s" % w, "byIndex", w)
    for names in (["N_BK7"], ["N_BK7", "Air"], ["N_SF10", "SF2", "Air"]) + ((["N_SF10", "SF2", "Air", "H_F4"],) if tier == "thorough" else ()):
        add("find-any-%d" % len(names), "byIndexAny", names)
    return out
