"""P05: refractive indices stay continuous along a group."""
from .common import *

BOUNDS = ("groups built from every sequence of 1 to 3 (thorough: 4) elements out of space, interface, lens and nested group, each "
          "with its own symbolic indices in 1..4, then one insertion, replacement or removal at any position, or a flip")
OUTSIDE = "an element whose indices are changed by hand after it was put in a group"


def make(c, kind, p):
    rt = c.rt
    if kind == "S":
        return rt.Space(c.real(p + "d", 0, 100, nonzero=True), n=index(c, p + "n"))
    if kind == "I":
        return rt.DielectricInterface(index(c, p + "n1"), index(c, p + "n2"), c.real(p + "R", 1, 500))
    if kind == "L":
        return rt.Lens(c.real(p + "f", 1, 500))
    if kind == "M":
        n = index(c, p + "n")
        return rt.Matrix(1, c.real(p + "B", -50, 50, nonzero=True), 0, 1, frontIndex=n, backIndex=n)
    if kind == "G":
        n = index(c, p + "n")
        return rt.MatrixGroup([rt.DielectricInterface(n, 1.0, c.real(p + "R", 1, 500)), rt.Space(c.real(p + "d", 1, 100))])
    raise ValueError(kind)


def simulate(c, els):
    """(front, back) of each element once in the group, or None when it must be refused"""
    out = []
    for e in els:
        f, b = e.frontIndex, e.backIndex
        if out:
            prev = out[-1][1]
            if not c.decide(prev == f):
                if isinstance(e, c.rt.Space):
                    f = b = prev
                else:
                    return None
        out.append((f, b))
    return out


def continuous(c, g, want):
    for a, b in zip(g.elements, g.elements[1:]):
        c.eq(a.backIndex, b.frontIndex, "continuous")
    for e, (f, b) in zip(g.elements, want):
        c.eq(e.frontIndex, f, "element front index")
        c.eq(e.backIndex, b, "element back index")
    if g.elements:
        c.eq(g.frontIndex, g.elements[0].frontIndex, "group front index")
        c.eq(g.backIndex, g.elements[-1].backIndex, "group back index")
    c.eq(g.determinant, g.frontIndex / g.backIndex, "determinant")


def build(c, kinds, how):
    els = [make(c, k, "e%d" % i) for i, k in enumerate(kinds)]
    want = simulate(c, els)

    def do():
        if how == "append":
            g = c.rt.MatrixGroup()
            for e in els:
                g.append(e)
            return g
        if how == "imaging":
            return c.rt.ImagingPath(els)
        return c.rt.MatrixGroup(els)
    if want is None:
        c.raises(ValueError, do, "mismatch is refused")
        return
    g = c.ok(do, "matching sequence is accepted")
    c.reached("built")
    c.check(len(g.elements) == len(els) and all(a is b for a, b in zip(g.elements, els)), "elements kept")
    continuous(c, g, want)


def edit(c, kinds, op, kind):
    els = [make(c, k, "e%d" % i) for i, k in enumerate(kinds)]
    c.assume(c.And(*[a.backIndex == b.frontIndex for a, b in zip(els, els[1:])]))
    g = c.rt.MatrixGroup(els)
    n = len(els)
    if op == "flip":
        before = [(e.frontIndex, e.backIndex) for e in els]
        g.flipOrientation()
        continuous(c, g, [(b, f) for f, b in reversed(before)])
        return
    i = c.choice("i", n if op in ("pop", "set") else n + 1)
    model = list(els)
    if op == "pop":
        model.pop(i)
        do = lambda: g.pop(i)
    else:
        x = make(c, kind, "x")
        if op == "insert":
            model.insert(i, x)
            do = lambda: g.insert(i, x)
        else:
            model[i] = x
            do = lambda: g.__setitem__(i, x)
    want = simulate(c, model)
    if want is None:
        old = [(e.frontIndex, e.backIndex) for e in els]
        c.raises(ValueError, do, "mismatching edit is refused")
        c.check(len(g.elements) == n, "group kept")
        continuous(c, g, old)
        return
    c.ok(do, "matching edit is accepted")
    c.check(len(g.elements) == len(model) and all(a is b for a, b in zip(g.elements, model)), "edited elements")
    continuous(c, g, want)


def cases(tier):
    out = []
    K = "SILG"
    seqs = list(K) + [a + b for a in K for b in K]
    tri = [a + b + d for a in "SIL" for b in "SIL" for d in "SIL"]
    seqs += tri + ["SIG", "GSI", "IGS", "MSM", "MIS"]
    if tier == "thorough":
        seqs += [t + d for t in tri for d in "SI"]
    for s in seqs:
        out.append(dict(name=f"build-{s}", fn="build", args=[s, "init"]))
    for s in ("SI", "IS", "SIS", "ISI"):
        out.append(dict(name=f"append-{s}", fn="build", args=[s, "append"]))
        out.append(dict(name=f"imaging-{s}", fn="build", args=[s, "imaging"]))
    for s in ("I", "ISI", "SIS"):
        for k in "SIL":
            for op in ("insert", "set"):
                out.append(dict(name=f"{op}-{s}-{k}", fn="edit", args=[s, op, k]))
        out.append(dict(name=f"pop-{s}", fn="edit", args=[s, "pop", ""]))
        out.append(dict(name=f"flip-{s}", fn="edit", args=[s, "flip", ""]))
    return out


MUST_REACH = ["mismatch is refused", "built", "mismatching edit is refused", "group back index"]
