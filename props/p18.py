"""P18: laser cavity modes reproduce themselves."""
from .common import *

BOUNDS = ("cavities of 1 to 4 (thorough: 6) elements among mirrors, thin lenses, spaces, slabs, interfaces and general matrices, with all their parameters symbolic, in air or immersed; "
          "those of more than 2 elements by comparison with their equivalent matrix; linear cavities of 1 to 3 elements completed in reverse, with the first or last skipped or not")
OUTSIDE = ("cavities whose power is below 1e-5, which the code treats as without power and so without mode; |A+D| within 1e-6 of 2; complex matrices (gain); "
           "groups of elements, themselves holding mirrors, appended in reverse")


def build(c, kinds):
    rt = c.rt
    els, n = [], 1.0
    for i, k in enumerate(kinds):
        p = "e%d" % i
        if k == "space":
            els.append(rt.Space(c.real(p + "d", 0.01, 500), n=n))
        elif k == "in":
            m = index(c, p + "n")
            els.append(element(c, "interface", p, n, m))
            n = m
        elif k == "out":
            els.append(element(c, "interface", p, n, 1.0))
            n = 1.0
        elif k == "nmat":
            n = index(c, "n0")
            els.append(rt_matrix(c, p, n, n))
        else:
            els.append(element(c, k, p))
    return els


def total(els):
    m = (1, 0, 0, 1)
    for e in els:
        m = mul2(abcd(e), m)
    return m


def modes(c, kinds, nested=False):
    rt = c.rt
    els = build(c, kinds)
    g = rt.LaserCavity(els if not nested else [rt.MatrixGroup(els[:-1]), els[-1]])
    A, B, C, D = total(els)
    q1, q2 = g.eigenModes()
    if c.decide(abs(C) <= 1e-5):
        c.check(q1 is None and q2 is None, "no power: no mode")
        c.check(len(g.laserModes()) == 0, "no power: no mode")
        c.check(not g.isStable, "no power: not stable")
        c.reached("no power")
        return
    c.check(q1 is not None and q2 is not None, "two eigenmodes")
    T = A + D
    c.assume(c.Or(abs(T) < 1.999999, abs(T) > 2.000001))
    stable = c.decide(abs(T) < 2)
    finite = []
    for q in (q1, q2):
        x, y = q.q.real, q.q.imag
        # C q^2 + (D - A) q - B = 0, real and imaginary parts
        c.eq(C * (x * x - y * y) + (D - A) * x, B, "an eigenmode satisfies q = (Aq+B)/(Cq+D)")
        c.eq(2 * C * x * y + (D - A) * y, 0, "an eigenmode satisfies q = (Aq+B)/(Cq+D)")
        if c.decide(y > 0):
            finite.append(q)
        c.check(bool(q.isFinite) == (len(finite) > 0 and finite[-1] is q), "an eigenmode is finite when Im q > 0")
    c.eq(q1.q.real + q2.q.real, (A - D) / C, "the two eigenmodes are the two roots")
    ms = g.laserModes()
    c.check(len(ms) == len(finite), "the laser modes are the finite eigenmodes")
    c.check(bool(g.isStable) == (len(ms) > 0), "stable exactly when there is a finite mode")
    c.check(bool(g.isStable) == stable, "stable exactly when |A+D| < 2")
    c.check(len(ms) == (1 if stable else 0), "one mode when stable, none otherwise")
    for m in ms:
        o = c.ok(lambda: g * m, "a mode can go round its own cavity")
        c.eq(o.q.real, m.q.real, "one round trip reproduces the mode")
        c.eq(o.q.imag, m.q.imag, "one round trip reproduces the mode")
        c.check(o.n == m.n, "one round trip reproduces the mode's index")
    c.reached("stable" if stable else "unstable")


def compare(c, kinds, nested=False):
    """a long cavity has the modes of the general matrix it is equivalent to (decided in full by modes-nmat)"""
    rt = c.rt
    els = build(c, kinds)
    g = rt.LaserCavity(els if not nested else [rt.MatrixGroup(els[:-1]), els[-1]])
    n = els[0].frontIndex
    ref = rt.LaserCavity([rt.Matrix(*total(els), frontIndex=n, backIndex=n)])
    a, b = g.eigenModes(), ref.eigenModes()
    c.check((a[0] is None) == (b[0] is None), "same modes as the equivalent matrix")
    if a[0] is None or b[0] is None:
        return
    for x, y in zip(a, b):
        c.eq(x.q.real, y.q.real, "same modes as the equivalent matrix")
        c.eq(x.q.imag, y.q.imag, "same modes as the equivalent matrix")
        c.check(x.n == n, "the modes are in the cavity's medium")
    k = len(g.laserModes())
    c.check(k == len(ref.laserModes()), "same modes as the equivalent matrix")
    c.check(bool(g.isStable) == (k > 0), "stable exactly when there is a finite mode")


def reverse(c, kinds, skipFirst, skipLast):
    rt = c.rt
    els = build(c, kinds)
    g = rt.LaserCavity(els)
    before = [abcd(e) for e in els]
    c.ok(lambda: g.appendElementsInReverse(skipFirstElement=skipFirst, skipLastElement=skipLast), "completing a cavity succeeds")
    back = els[(1 if skipFirst else 0):(len(els) - 1 if skipLast else len(els))]
    c.check(len(g.elements) == len(els) + len(back), "forward followed by backward elements")
    c.check(all(a is b for a, b in zip(g.elements, els)), "the forward elements stay")
    m = (1, 0, 0, 1)
    for e in els:
        m = mul2(abcd(e), m)
    L = 0
    for e in els:
        L = L + e.L
    for k, e in enumerate(reversed(back)):
        # light coming back: the inverse with angles of opposite sign
        A, B, C, D = before[els.index(e) if False else [x is e for x in els].index(True)]
        det = A * D - B * C
        m = mul2((D / det, B / det, C / det, A / det), m)
        L = L + e.L
    check_abcd(c, abcd(g), m, "the matrix is that of forward then backward elements")
    c.eq(g.L, L, "the length is that of forward then backward elements")
    for e, b in zip(els, before):
        check_abcd(c, abcd(e), b, "the forward elements are unchanged")
    n = None
    for e in g.elements:
        c.check(n is None or bool(n == e.frontIndex), "indices are continuous there and back")
        n = e.backIndex
    p = (1, 0, 0, 1)
    for e in g.elements:
        p = mul2(abcd(e), p)
    check_abcd(c, abcd(g), p, "the matrix is the product of its elements")


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    P = [["matrix"], ["nmat"], ["mirror", "space"], ["space", "mirror", "space"], ["space", "lens"], ["space", "mirror", "space", "mirror"], ["space"], ["slab"], ["space", "space"],
         ["in", "space", "out"], ["space", "lens", "space"], ["matrix", "mirror"]]
    if tier == "thorough":
        P += [["space", "mirror", "space", "lens", "space"], ["space", "mirror", "space", "mirror", "space", "lens"], ["space", "slab", "space", "mirror"], ["mirror", "space", "slab", "space", "mirror"]]
    for k in P:
        full = len(k) <= 2 and "matrix" not in k[1:] and k != ["matrix", "mirror"]
        add(("modes-" if full else "compare-") + "-".join(k), "modes" if full else "compare", k)
    add("nested-space-mirror-space", "compare", ["space", "mirror", "space"], True)
    add("nested-in-space-out", "compare", ["in", "space", "out"], True)
    R = [["mirror"], ["space", "mirror"], ["mirror", "space", "mirror"], ["lens", "space"], ["in", "space"], ["space", "matrix"], ["thick", "space", "mirror"], ["in", "space", "out"]]
    if tier == "thorough":
        R += [["mirror", "space", "lens", "space", "mirror"], ["in", "space", "out", "space"], ["space", "slab", "space", "mirror"]]
    for k in R:
        for f in (False, True):
            for l in (False, True):
                if len(k) == 1 and f and l:
                    continue
                if k[-1] in ("in", "out") and l:
                    continue
                add("reverse-%s-%d%d" % ("-".join(k), f, l), "reverse", k, f, l)
    return out


MUST_REACH = ["stable", "unstable", "no power", "one round trip reproduces the mode"]
