"""P03: a group's matrix is always the ordered product of its elements."""
from .common import *

BOUNDS = ("groups of 0 to 3 initial elements (spaces, lenses, general matrices, interfaces) with symbolic parameters; every "
          "history of 2 (thorough: 3) edits out of append, pop, insert, insert of a list, item and slice assignment, flip and load, at "
          "every position from -len-1 to len+1 (positions -1, 0, 1, len from the second edit on); 1 edit for immersed groups")
OUTSIDE = "extended slices (the code warns that it ignores the step); the same element object twice in a group"


def product(c, els):
    m = (1, 0, 0, 1)
    L = 0
    fv = bv = None
    for e in els:
        if fv is None and e.frontVertex is not None:
            fv = L + e.frontVertex
        if e.backVertex is not None:
            bv = L + e.backVertex
        m = mul2(abcd(e), m)
        L = L + e.L
    return m, L, fv, bv


def consistent(c, g, model, label):
    c.check(len(g) == len(model), label + ": length")
    c.check(len(g.elements) == len(model) and all(a is b for a, b in zip(g.elements, model)), label + ": elements")
    c.check(len(list(g)) == len(model) and all(a is b for a, b in zip(list(g), model)), label + ": iteration")
    for i in range(-len(model), len(model)):
        c.check(g[i] is model[i], label + ": indexing")
    m, L, fv, bv = product(c, model)
    check_abcd(c, abcd(g), m, label + ": matrix")
    c.eq(g.L, L, label + ": L")
    c.eq(g.frontVertex, fv, label + ": front vertex")
    c.eq(g.backVertex, bv, label + ": back vertex")
    c.eq(g.frontIndex, model[0].frontIndex if model else 1, label + ": front index")
    c.eq(g.backIndex, model[-1].backIndex if model else 1, label + ": back index")
    c.eq(g.determinant, g.frontIndex / g.backIndex, label + ": determinant")
    t = g.transferMatrix()
    check_abcd(c, abcd(t), m, label + ": transferMatrix")
    c.eq(t.L, L, label + ": transferMatrix.L")


def snapshot(g):
    return (g.A, g.B, g.C, g.D, g.L, g.frontVertex, g.backVertex, g.frontIndex, g.backIndex,
            [(e.frontIndex, e.backIndex) for e in g.elements])


def unchanged(c, g, model, before, label):
    now = snapshot(g)
    c.check(len(g.elements) == len(model) and all(a is b for a, b in zip(g.elements, model)), label + ": same elements")
    for a, b in zip(now[:9], before[:9]):
        c.eq(a, b, label + ": same matrix")
    for (a, b), (x, y) in zip(now[9], before[9]):
        c.eq(a, x, label + ": same indices")
        c.eq(b, y, label + ": same indices")


def position(c, name, n, every=True):
    """every position from -n-1 to n+1, or a few"""
    if not every:
        return (-1, 0, 1, n)[c.choice(name, 4)]
    return c.choice(name, 2 * n + 3) - n - 1


def attempt(c, g, model, op, new, k, every=True):
    """the same edit on the group and on a plain list; a refused one must change nothing"""
    before = snapshot(g)
    n = len(model)
    keep = list(model)
    p = f"{k}"
    excs = (IndexError, ValueError, TypeError)
    if op == "append":
        e = new("e" + p)

        def do(x):
            x.append(e)
    elif op == "pop":
        i = position(c, "i" + p, n, every)

        def do(x):
            return x.pop(i)
    elif op == "insert":
        i, e = position(c, "i" + p, n, every), new("e" + p)

        def do(x):
            x.insert(i, e)
    elif op == "insertlist":
        i, e, f = position(c, "i" + p, n, every), new("e" + p), new("f" + p)

        def do(x):
            if isinstance(x, list):
                x[i:i] = [e, f]
            else:
                x.insert(i, [e, f])
    elif op == "set":
        i, e = position(c, "i" + p, n, every), new("e" + p)

        def do(x):
            x[i] = e
    elif op == "setslice":
        i, j = position(c, "i" + p, n, every), position(c, "j" + p, n, every)
        e = new("e" + p)

        def do(x):
            x[i:j] = [e]
    elif op == "setopen":
        i = position(c, "i" + p, n, every)
        e = new("e" + p)
        kind = c.choice("k" + p, 3)

        def do(x):
            if kind == 0:
                x[:i] = [e]
            elif kind == 1:
                x[i:] = [e]
            else:
                x[:] = [e]
    elif op == "setslicelist":
        i = c.choice("i" + p, n + 1)
        e, f = new("e" + p), new("f" + p)

        def do(x):
            x[i:i + 1] = [e, f]
    elif op == "flip":
        c.check(g.flipOrientation() is g, "flip returns the group")
        model.reverse()
        return
    elif op == "load":
        import os
        path = os.path.join(c.tmp(), "g.pkl")
        e, f = new("e" + p), new("f" + p)
        app = c.choice("a" + p, 2)
        c.rt.MatrixGroup([e, f]).save(path)
        g.load(path, append=bool(app))
        if not app:
            del model[:]
        c.check(len(g.elements) == len(model) + 2, "load: count")
        model.extend(g.elements[-2:])
        for a, b in zip(g.elements[-2:], (e, f)):
            check_abcd(c, abcd(a), abcd(b), "load: same element")
        return
    wanted = None
    try:
        res = do(keep)
    except excs as x:
        wanted = type(x)
    try:
        got = do(g)
        raised = None
    except excs as x:
        raised = type(x)
    if raised is None:
        c.check(wanted is None, f"{op}: accepted where a list accepts it")
        if op == "pop":
            c.check(got is res, "pop returns the element")
        model[:] = keep
    else:
        c.reached("refused edit")
        if wanted is None:
            # only a mismatch of indices may refuse what a list accepts
            c.check(raised is ValueError, f"{op}: refused with ValueError")
            mism = [c.Not(a.backIndex == b.frontIndex) for a, b in zip(keep, keep[1:])]
            c.check(c.Or(*mism) if mism else False, f"{op}: refused only for an index mismatch")
        else:
            c.check(raised is wanted, f"{op}: refused as a list would")
        unchanged(c, g, model, before, f"refused {op}")


def maker(c, kind):
    def new(p):
        if kind == "mix":
            return element(c, "space+" if p[0] == "e" else "lens", p)
        return element(c, kind, p)
    return new


def start(c, kinds, cls="MatrixGroup"):
    els = [element(c, k, "s%d" % i) for i, k in enumerate(kinds)]
    return getattr(c.rt, cls)(els), list(els)


def edits(c, kinds, ops, cls):
    g, model = start(c, kinds, cls)
    new = maker(c, "mix")
    for k, op in enumerate(ops):
        attempt(c, g, model, op, new, k, len(ops) == 1 and len(kinds) < 3)
    consistent(c, g, model, "after " + "+".join(ops) if len(ops) < 2 else "after edits")


def build(c, kinds):
    g, model = start(c, kinds)
    consistent(c, g, model, "built")
    h = c.rt.MatrixGroup()
    for e in model:
        h.append(e)
    consistent(c, h, model, "appended")
    i, j = position(c, "i", len(model), len(model) < 2), position(c, "j", len(model), len(model) < 2)
    s = g[i:j]
    c.check(isinstance(s, c.rt.MatrixGroup), "a slice is a group")
    consistent(c, s, model[i:j], "slice")
    if len(model) < 3:
        t = tuple(model)
        consistent(c, c.rt.MatrixGroup(t), model, "from tuple")
        consistent(c, c.rt.MatrixGroup(g), model, "from group")


def nested(c):
    a, b, d = element(c, "space", "a"), element(c, "lens", "b"), element(c, "thick", "d")
    inner = c.rt.MatrixGroup([a, b])
    g = c.rt.MatrixGroup([inner, d])
    consistent(c, g, [inner, d], "nested")
    check_abcd(c, abcd(g), product(c, [a, b, d])[0], "nested: matrix of all")
    c.eq(g.L, a.L + b.L + d.L, "nested: L of all")
    ms = g.transferMatrices()
    c.check(len(ms) == 3 and ms[0] is a and ms[1] is b and ms[2] is d, "nested: transferMatrices in order")


def immersed(c, op, which):
    n, m = index(c, "n"), index(c, "m")
    R = c.real("R", -500, 500, nonzero=True)
    a = c.rt.DielectricInterface(1.0, n, R)
    b = c.rt.Space(c.real("d", 0, 100), n)
    d = c.rt.DielectricInterface(n, m)
    model = [a, b, d]
    g = c.rt.MatrixGroup(list(model))
    consistent(c, g, model, "immersed")

    def new(p):
        if which == "lens":
            return c.rt.Lens(c.real(p + "f", 1, 100))
        if which == "space":
            return c.rt.Space(c.real(p + "d", 0, 100), n=index(c, p + "n"))
        return c.rt.DielectricInterface(index(c, p + "n1"), index(c, p + "n2"), c.real(p + "R", 1, 100))
    attempt(c, g, model, op, new, 0)
    consistent(c, g, model, "immersed after edit")


def wrong(c, op):
    g, model = start(c, ["space", "lens"])
    before = snapshot(g)
    x = c.real("x", -10, 10)
    for v in (x, "lens", None, c.rt.Ray(x, 0)):
        if op == "append":
            c.raises(TypeError, lambda: g.append(v), "append of something else is refused")
        elif op == "insert":
            c.raises(TypeError, lambda: g.insert(1, v), "insert of something else is refused")
        elif op == "set":
            c.raises(TypeError, lambda: g.__setitem__(1, v), "assignment of something else is refused")
        elif op == "setslice":
            c.raises(TypeError, lambda: g.__setitem__(slice(0, 1), [v]), "slice assignment of something else is refused")
        elif op == "insertlist":
            e = c.rt.Space(1)
            c.raises(TypeError, lambda: g.insert(1, [e, v]), "insert of something else in a list is refused")
        unchanged(c, g, model, before, "refused " + op)
    if op == "append":
        c.raises(TypeError, lambda: c.rt.MatrixGroup(5), "not an iterable")
        c.raises(TypeError, lambda: c.rt.MatrixGroup([x]), "not elements")


SLICES = ("insertlist", "setslice", "setslicelist", "setopen")
OPS = ["append", "pop", "insert", "insertlist", "set", "setslice", "setopen", "setslicelist", "flip", "load"]


def cases(tier):
    out = []

    def add(name, fn, *a, **k):
        out.append(dict(name=name, fn=fn, args=list(a), **k))
    for ks in ([], ["space"], ["lens"], ["matrix"], ["space", "lens"], ["matrix", "space"], ["space", "lens", "matrix"],
               ["thick", "space", "mirror"], ["aperture", "space", "slab"], ["space", "lens", "space", "lens"]):
        add("build-" + "-".join(ks), "build", ks, weight=len(ks) ** 2)
    add("nested", "nested")
    for op in OPS:
        for i, ks in enumerate(([], ["space"], ["lens", "space"], ["space", "lens", "matrix"])):
            for cls in (["MatrixGroup", "ImagingPath", "LaserPath", "LaserCavity"] if i == 2 else ["MatrixGroup"]):
                add(f"one-{op}-{i}-{cls}", "edits", ks, [op], cls)
    for a in OPS:
        for b in OPS:
            if tier == "quick" and a in SLICES and b in SLICES:
                continue
            add(f"two-{a}-{b}", "edits", ["space+", "lens"], [a, b], "MatrixGroup")
    if tier == "thorough":
        short = ["append", "pop", "insert", "set", "flip", "load"]
        for a in short:
            for b in short:
                for d in short:
                    add(f"three-{a}-{b}-{d}", "edits", ["space+", "lens"], [a, b, d], "MatrixGroup")
    for op in ("append", "pop", "insert", "set", "flip"):
        for w in ("lens", "space", "interface"):
            if op not in ("pop", "flip") or w == "lens":
                add(f"immersed-{op}-{w}", "immersed", op, w, weight=5)
    for op in ("append", "insert", "set", "setslice", "insertlist"):
        add("wrong-" + op, "wrong", op)
    return out


MUST_REACH = ["refused edit", "after edits: matrix.A", "slice: matrix.A", "immersed after edit: front index"]
