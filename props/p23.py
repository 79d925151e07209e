"""P23: saving and loading loses nothing."""
import os
import pickle
from .common import *

BOUNDS = ("groups, imaging paths and laser cavities of 0 to 3 elements of every kind (spaces, lenses, thick lenses, slabs, mirrors, interfaces, apertures, matrices, "
          "catalogue and design lenses, objectives, nested groups) with any parameters, and bundles of 0 to 3 rays of any attributes, saved and loaded into a group or bundle "
          "of 0 to 2, replacing or appending, up to two generations; files of numbers, strings, mixed or foreign lists, elements that cannot follow one another, truncated or missing")
OUTSIDE = "files changed while being read, a disk that fills up, and rays a random bundle has not drawn when it is saved"

SMALL = (int, float, str, bool, type(None))


def same(c, a, b, label, depth=0):
    """the same content, attribute by attribute"""
    if a is b:
        return
    if isinstance(a, (list, tuple)):
        c.check(type(a) is type(b) and len(a) == len(b), label + ": same number of items")
        for x, y in zip(a, b):
            same(c, x, y, label, depth + 1)
        return
    if isinstance(a, dict):
        c.check(isinstance(b, dict) and set(a) == set(b), label + ": same attributes")
        for k in a:
            same(c, a[k], b[k], "%s.%s" % (label, k) if depth < 3 else label, depth + 1)
        return
    if a is None or isinstance(a, (str, bool)):
        c.check(a == b, label)
        return
    if hasattr(a, "__dict__") and not isinstance(a, type) and type(a).__module__.split(".")[0] == "raytracing":
        c.check(type(a) is type(b), label + ": same kind of object")
        same(c, vars(a), vars(b), label, depth + 1)
        return
    if isinstance(a, type):
        c.check(a is b, label)
        return
    c.eq(a, b, label)


KINDS = ["space", "lens", "thick", "slab", "mirror", "aperture", "matrix", "interface", "group", "nested", "doublet", "singlet", "objective", "axicon", "thorlabs", "mirrorflat"]


def make(c, kind, p):
    rt = c.rt
    if kind == "group":
        return rt.MatrixGroup([element(c, "space", p + "a"), element(c, "lens", p + "b", diameter=c.real(p + "D", 0.1, 100))], label="group " + p)
    if kind == "nested":
        return rt.MatrixGroup([make(c, "group", p + "i"), element(c, "space", p + "s")])
    if kind == "doublet":
        return rt.AchromatDoubletLens(fa=100.0, fb=95.9, R1=c.real(p + "R1", 40, 80), R2=c.real(p + "R2", -80, -40), R3=-150.0, tc1=8.0, tc2=2.5, te=7.0,
                                      mat1=rt.N_BK7, mat2=rt.SF2, wavelengthRef=0.5876, diameter=25.4, url="u", label="AC")
    if kind == "singlet":
        return rt.SingletLens(f=100.0, fb=98.0, R1=c.real(p + "R1", 40, 80), R2=float("+inf"), tc=4.0, te=2.0, n=None, mat=rt.N_BK7, wavelengthRef=0.5876, diameter=25.4)
    if kind == "objective":
        return rt.Objective(f=c.real(p + "f", 5, 20), NA=0.3, focusToFocusLength=60, backAperture=c.real(p + "D", 1, 20), workingDistance=4, magnification=10, fieldNumber=22)
    if kind == "axicon":
        return rt.Axicon(alpha=c.real(p + "alpha", 0.01, 0.5), n=c.real(p + "n", 1.1, 2), diameter=c.real(p + "D", 0.1, 100))
    if kind == "thorlabs":
        return rt.thorlabs.AC254_100_A()
    if kind == "mirrorflat":
        return rt.PlaneMirror() if hasattr(rt, "PlaneMirror") else rt.CurvedMirror(R=float("+inf"))
    if kind == "interface":
        return rt.DielectricInterface(1.0, c.real(p + "n", 1.1, 2), c.real(p + "R", 1, 100), diameter=c.real(p + "D", 0.1, 100), label="i")
    if kind in ("matrix", "space"):
        return element(c, kind, p)
    return element(c, kind, p, diameter=c.real(p + "D", 0.1, 100))


def behaves(c, g, h, label, trace=True):
    check_abcd(c, abcd(h), abcd(g), label + ": matrix")
    for k in ("L", "frontVertex", "backVertex", "frontIndex", "backIndex"):
        x, y = getattr(g, k), getattr(h, k)
        if x is None or y is None:
            c.check(x is y, "%s: %s" % (label, k))
        else:
            c.eq(x, y, "%s: %s" % (label, k))
    if trace:
        r = c.rt.Ray(c.real("ty", -20, 20), c.real("tt", -1, 1))
        a, b = g.trace(r), h.trace(r)
        same_trace(c, b, [Pt(q.y, q.theta, q.z, q.isBlocked) for q in a], label + ": traces as the saved one")


def roundtrip(c, kinds, cls, flip):
    rt = c.rt
    C = getattr(rt, cls)
    els = [make(c, k, "e%d" % i) for i, k in enumerate(kinds)]
    g = C(els, label="original")
    if flip:
        g.flipOrientation()
    p = os.path.join(c.tmp(), "g.pkl")
    kept = list(g.elements)
    g.save(p)
    c.check(len(g.elements) == len(kept) and all(a is b for a, b in zip(g.elements, kept)), "saving changes nothing")
    h = C(label="loaded")
    h.load(p)
    c.check(len(h) == len(g), "as many elements as saved")
    for a, b in zip(g.elements, h.elements):
        c.check(a is not b, "the loaded elements are new ones")
        same(c, a, b, "element")
    behaves(c, g, h, "loaded", trace="axicon" not in kinds)
    # second generation, over the first file
    h.save(p)
    k = C()
    k.load(p)
    c.check(len(k) == len(g), "second generation: as many elements")
    for a, b in zip(g.elements, k.elements):
        same(c, a, b, "second generation: element")
    # the file is not shared with what was loaded from it
    h.append(rt.Space(1.0, n=h.backIndex))
    c.check(len(k) + 1 == len(h), "loading copies")
    same(c, k.elements, g.elements, "flat")
    g.flipOrientation()
    k.flipOrientation()
    behaves(c, g, k, "flipped after loading", trace=False)
    for a, b in zip(g.elements, k.elements):
        same(c, a, b, "flipped after loading: element")


def into(c, have, kinds, append, cls):
    """loaded into a group that has elements (traced before, too)"""
    rt = c.rt
    C = getattr(rt, cls)
    src = [make(c, k, "s%d" % i) for i, k in enumerate(kinds)]
    old = [make(c, k, "o%d" % i) for i, k in enumerate(have)]
    p = os.path.join(c.tmp(), "g.pkl")
    rt.MatrixGroup(src).save(p)
    g = C(old)
    if cls == "ImagingPath":
        g.objectHeight = c.real("oh", 0.1, 10)
    g.trace(rt.Ray(1, 0.1))
    g.load(p, append=append)
    want = (list(old) if append else []) + src
    c.check(len(g) == len(want), "as many elements as asked for")
    for i, (a, b) in enumerate(zip(want, g.elements)):
        if append and i < len(old):
            c.check(a is b, "the elements that were there stay")
        else:
            same(c, a, b, "loaded element")
    fresh = C(want)
    behaves(c, fresh, g, "appended" if append else "replaced")
    if cls == "ImagingPath":
        c.eq(2 * g.objectHeight, 2 * c.real("oh", 0.1, 10), "the object stays")
    same(c, g.transferMatrix(), fresh.transferMatrix(), "transfer matrix")


def stops(c, append):
    """what a path derives from its elements is that of the loaded elements"""
    rt = c.rt
    D = [c.real("D%d" % i, 1, 30) for i in range(3)]
    mk = [rt.Space(10.0), rt.Lens(f=20.0, diameter=D[0]), rt.Space(30.0), rt.Aperture(D[1])]
    p = os.path.join(c.tmp(), "g.pkl")
    rt.ImagingPath(mk).save(p)
    g = rt.ImagingPath([rt.Space(5.0), rt.Lens(f=15.0, diameter=D[2]), rt.Space(5.0)])
    before = g.apertureStop()
    c.eq(before.z, 5, "stop before")
    c.eq(before.diameter, D[2], "stop before")
    want = rt.ImagingPath((list(g.elements) if append else []) + mk)
    g.load(p, append=append)
    a, b = g.apertureStop(), want.apertureStop()
    c.eq(a.z, b.z, "stop of what was loaded")
    c.eq(a.diameter, b.diameter, "stop of what was loaded")


def put(p, what):
    with open(p, "wb") as f:
        pickle.Pickler(f).dump(what)


BAD = ["number", "none", "string", "numbers", "mixed", "foreign", "element", "truncated", "garbage", "empty", "missing"]


def bad_file(c, p, kind, good, foreign):
    if kind == "number":
        put(p, 3)
    elif kind == "none":
        put(p, None)
    elif kind == "string":
        put(p, "abc")
    elif kind == "numbers":
        put(p, [1, 2.5])
    elif kind == "mixed":
        put(p, good + [3])
    elif kind == "foreign":
        put(p, foreign)
    elif kind == "element":
        put(p, good[0])
    elif kind == "truncated":
        put(p, good)
        with open(p, "rb") as f:
            d = f.read()
        with open(p, "wb") as f:
            f.write(d[:len(d) // 2])
    elif kind == "garbage":
        with open(p, "wb") as f:
            f.write(b"\x01this is no pickle")
    elif kind == "empty":
        with open(p, "wb"):
            pass


def refused(c, fn, label, kind=None):
    if kind in ("truncated", "garbage", "empty"):
        c.raises(Exception, fn, label)
    else:
        c.raises(OSError, fn, label)


def bad_group(c, kind, append, cls):
    rt = c.rt
    C = getattr(rt, cls)
    old = [make(c, "space", "o0"), make(c, "lens", "o1")]
    p = os.path.join(c.tmp(), "g.pkl")
    bad_file(c, p, kind, [rt.Space(1.0), rt.Lens(2.0)], [rt.Ray(1, 2)])
    g = C(old)
    before = C(old)
    refused(c, lambda: g.load(p, append=append), "a file of something else is refused", kind)
    c.check(len(g) == 2 and all(a is b for a, b in zip(g.elements, old)), "a refused file changes nothing")
    behaves(c, before, g, "a refused file changes nothing")
    put(p, [rt.Space(c.real("d", 0, 10))])
    g.load(p, append=append)
    c.check(len(g) == (3 if append else 1), "and a good one can be loaded afterwards")


def mismatch(c, append, first):
    """elements whose indices cannot follow one another"""
    rt = c.rt
    n = c.real("n", 1.1, 3)
    old = [make(c, "space", "o0"), make(c, "lens", "o1")]
    if first:
        els = [rt.DielectricInterface(n, 1.0, c.real("R", 1, 9)), rt.Lens(3.0)]
    else:
        els = [rt.Lens(3.0), rt.DielectricInterface(1.0, n, c.real("R", 1, 9)), rt.Lens(4.0)]
    p = os.path.join(c.tmp(), "g.pkl")
    put(p, els)
    g = rt.MatrixGroup(old)
    before = rt.MatrixGroup(old)
    if first and not append:
        g.load(p)
        behaves(c, rt.MatrixGroup(els), g, "immersed on its own")
        return
    c.raises(Exception, lambda: g.load(p, append=append), "elements that cannot follow one another are refused")
    c.check(len(g) == 2 and all(a is b for a, b in zip(g.elements, old)), "a refused file changes nothing")
    behaves(c, before, g, "a refused file changes nothing")


def some_rays(c, n, p):
    out = []
    for i in range(n):
        r = c.rt.Ray(c.real("%sy%d" % (p, i), -10, 10), c.real("%st%d" % (p, i), -2, 2), z=c.real("%sz%d" % (p, i), -50, 50), isBlocked=(i == 1))
        r.apertureDiameter = c.real("%sD%d" % (p, i), 0, 10)
        out.append(r)
    return out


def rays(c, n, m, append, gen):
    rt = c.rt
    src, old = some_rays(c, n, "s"), some_rays(c, m, "o")
    p = os.path.join(c.tmp(), "r.pkl")
    b = rt.Rays(rays=src)
    if gen == "overwrite":
        rt.Rays(rays=some_rays(c, n + 2, "w")).save(p)
    b.save(p)
    c.check(len(b) == n and all(x is y for x, y in zip(b.rays, src)), "saving changes nothing")
    if gen == "second":
        k = rt.Rays()
        k.load(p)
        k.save(p)
    g = rt.Rays(rays=old)
    if m:
        g.yValues, g.thetaValues
        g.rayCountHistogram(2, -10, 10)
        g.rayAnglesHistogram(2, -2, 2)
    g.load(p, append=append)
    want = (list(old) if append else []) + src
    c.check(len(g) == len(want) and g.count == len(want), "as many rays as asked for")
    for a, x in zip(want, g.rays):
        same(c, a, x, "ray")
    for v, a in zip(g.yValues, want):
        c.eq(v, a.y, "heights")
    for v, a in zip(g.thetaValues, want):
        c.eq(v, a.theta, "angles")
    c.check(len(g.yValues) == len(want) and len(g.thetaValues) == len(want), "as many values as rays")
    if want:
        # wide enough for every ray: the number of rays counted is that of the rays there
        c.check(sum(g.rayCountHistogram(2, -10, 10)[1]) == len(want), "histogram of the heights")
        c.check(sum(g.rayAnglesHistogram(2, -2, 2)[1]) == len(want), "histogram of the angles")
    c.check(len([r for r in g]) == len(want), "iterating goes over the rays there")


def special_rays(c, kind, append):
    rt = c.rt
    c.use_random()
    if kind == "uniform":
        b = rt.UniformRays(yMax=c.real("yMax", 0.1, 5), thetaMax=c.real("tMax", 0.1, 1), M=2, N=1)
    elif kind == "object":
        b = rt.ObjectRays(diameter=c.real("d", 0.1, 5), halfAngle=c.real("a", 0.1, 1), H=1, T=2)
    elif kind == "lamp":
        b = rt.LampRays(diameter=c.real("d", 0.1, 5), NA=c.real("NA", 0.1, 1), N=1, T=2)
    else:
        b = rt.RandomUniformRays(yMax=c.real("yMax", 0.1, 5), maxCount=2)
        b[0], b[1]
    have = list(b.rays)
    p = os.path.join(c.tmp(), "r.pkl")
    b.save(p)
    g = rt.Rays()
    g.load(p)
    same(c, have, g.rays, "rays of a %s source" % kind)
    b.load(p, append=append)
    same(c, (have if append else []) + have, b.rays, "loaded into itself")
    c.check(len(b) == len(b.rays) and b.count == len(b.rays), "counted")


def bad_rays(c, kind, append):
    rt = c.rt
    old = some_rays(c, 2, "o")
    g = rt.Rays(rays=old)
    h = g.rayCountHistogram(2, -10, 10)
    p = os.path.join(c.tmp(), "r.pkl")
    bad_file(c, p, kind, [rt.Ray(1, 2), rt.Ray(3, 4)], [rt.Space(1), rt.Lens(2)])
    refused(c, lambda: g.load(p, append=append), "a file of something else is refused", kind)
    c.check(len(g) == 2 and all(a is b for a, b in zip(g.rays, old)), "a refused file changes nothing")
    for v, a in zip(g.yValues, old):
        c.eq(v, a.y, "a refused file changes nothing: heights")
    n = g.rayCountHistogram(2, -10, 10)
    c.check(list(n[1]) == list(h[1]), "a refused file changes nothing: histogram")
    put(p, [rt.Ray(c.real("ny", -5, 5), 0)])
    g.load(p, append=append)
    c.check(len(g) == (3 if append else 1), "and a good one can be loaded afterwards")
    c.eq(g.yValues[-1], c.real("ny", -5, 5), "and a good one can be loaded afterwards")


OPTIONS = {}
MUST_REACH = ["a file of something else is refused", "a refused file changes nothing", "loaded: matrix.A", "heights"]


def cases(tier):
    out = []
    big = tier == "thorough"

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for k in KINDS:
        add("element-" + k, "roundtrip", [k], "MatrixGroup", False)
        add("element-flipped-" + k, "roundtrip", [k], "MatrixGroup", True)
    combos = [[], ["space", "lens"], ["lens", "space", "mirror"], ["space", "aperture", "group"], ["nested", "slab"]]
    if big:
        # pairs of lenses whose matrices are numbers met by extreme focal lengths differ by rounding only: left out
        plain = [k for k in KINDS if k not in ("doublet", "singlet", "objective", "thorlabs", "mirrorflat", "axicon")]
        combos += [[a, b] for a in plain for b in plain if a != "interface" and [a, b] not in combos]
    for ks in combos:
        add("path-" + "-".join(ks), "roundtrip", ks, "ImagingPath", False)
        if big or len(ks) == 2:
            add("path-flipped-" + "-".join(ks), "roundtrip", ks, "ImagingPath", True)
        if "group" not in ks and "nested" not in ks or big:
            add("cavity-" + "-".join(ks), "roundtrip", ks, "LaserCavity", False)
    haves = [[], ["space"], ["lens", "space"], ["group"]]
    gets = [[], ["space"], ["lens", "space"], ["nested"], ["thick"]] + ([["slab", "mirror"], ["objective"], ["aperture", "space", "lens"]] if big else [])
    for h in haves:
        for g in gets:
            for app in (False, True):
                for cls in (("MatrixGroup", "ImagingPath", "LaserPath") if big else ("ImagingPath",) if g == ["lens", "space"] else ("MatrixGroup",)):
                    add("into-%s-%s-%s-%s" % ("-".join(h), "-".join(g), "append" if app else "replace", cls), "into", h, g, app, cls)
    for app in (False, True):
        add("stops-%s" % app, "stops", app)
        for f in (False, True):
            add("mismatch-%s-%s" % (app, f), "mismatch", app, f)
        for k in BAD:
            for cls in (("MatrixGroup", "ImagingPath") if big else ("MatrixGroup",)):
                add("bad-%s-%s-%s" % (k, app, cls), "bad_group", k, app, cls)
            if k != "element":
                add("badrays-%s-%s" % (k, app), "bad_rays", k, app)
        add("badrays-element-%s" % app, "bad_rays", "element", app)
        for n in range(4 if big else 3):
            for m in (0, 1, 2):
                for gen in ("first", "second", "overwrite"):
                    if big or gen == "first" or m == 1:
                        add("rays-%d-%d-%s-%s" % (n, m, app, gen), "rays", n, m, app, gen)
        for k in ("uniform", "object", "lamp", "random"):
            add("source-%s-%s" % (k, app), "special_rays", k, app)
    return out
