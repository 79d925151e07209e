"""P28: preferences are a persistent dictionary."""
import json
import os
from .common import *

BOUNDS = ("histories of up to 3 (thorough: 4) operations (set, update, get, membership, delete, reset, opening again, the file removed or damaged) by two open "
          "instances on two keys, numbers saved being any real, then read by every instance and a new one; a write interrupted after any number of its steps; "
          "initial values; values that cannot be saved")
OUTSIDE = ("two processes writing at the same instant; values JSON does not give back as they were (tuples, keys other than text); "
           "directories that cannot be written")

OPS = ["set0a", "set0b", "set1a", "set1b", "upd0", "upd1", "get0a", "get1a", "get1b", "in0a", "del0a", "del1a", "del1b",
       "reset0", "reset1", "open0", "open1", "gone", "damaged"]
BAD = ["", "{", '{"a": 1, "b"', "[1, 2]", "3", "null", "\"a\""]


class World:
    def __init__(self, c, new=True):
        self.c = c
        self.home = c.tmp()
        self.saved = {k: os.environ.get(k) for k in ("HOME", "XDG_CONFIG_HOME")}
        os.environ["HOME"] = self.home
        os.environ.pop("XDG_CONFIG_HOME", None)
        self.P = __import__("raytracing.preferences", fromlist=["Preferences"])
        self.ref = {}
        self.dirty = True               # what is on disk may be damaged
        if new:
            self.inst = [self.open(), self.open()]
            self.path = self.inst[0].path
            c.check(os.path.realpath(self.path).startswith(os.path.realpath(self.home)), "the file is in the user's folder")

    def open(self, *a, **k):
        return self.c.ok(lambda: self.P.Preferences(*a, **k), "preferences can be opened")

    def close(self):
        for k, v in self.saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    def get(self, p, k, label):
        c = self.c
        if k in self.ref:
            v = c.ok(lambda: p[k], label + ": a preference set is found")
            self.same(v, self.ref[k], label)
        else:
            c.raises(KeyError, lambda: p[k], label + ": a preference never set, deleted or lost is absent")

    def same(self, v, want, label):
        if isinstance(want, (str, list, dict)) or want is None:
            self.c.check(v == want, label + ": the last value set")
        else:
            self.c.eq(v, want, label + ": the last value set")

    def look(self, p, label):
        """everything about an instance agrees with the values last set"""
        c = self.c
        for k in ("a", "b"):
            c.check((k in p) == (k in self.ref), label + ": membership")
            self.get(p, k, label)
            v = p.get(k, None)
            if k in self.ref:
                self.same(v, self.ref[k], label + ": get")
            else:
                c.check(v is None, label + ": get gives nothing for an absent preference")
        c.check(sorted(p.keys()) == sorted(self.ref), label + ": keys")
        c.check(len(p) == len(self.ref), label + ": number of preferences")

    def readable(self, label):
        c = self.c
        try:
            with open(self.path) as f:
                d = json.load(f)
        except (OSError, ValueError):
            c.check(False, label + ": the file is readable")
            return
        c.check(isinstance(d, dict) and sorted(d) == sorted(self.ref), label + ": the file has the preferences set")


def step(c, w, op, i):
    kind, who, key = op.rstrip("ab01"), 0, None
    if op not in ("gone", "damaged"):
        digits = [x for x in op if x in "01"]
        who = int(digits[0])
        kind = op[:op.index(digits[0])]
        key = op[op.index(digits[0]) + 1:] or None
    else:
        kind = op
    p = w.inst[who]
    if kind == "set":
        v = c.real(f"v{i}")
        c.ok(lambda: p.__setitem__(key, v), "a preference can be set")
        w.ref[key] = v
    elif kind == "upd":
        v, u = c.real(f"v{i}"), c.real(f"u{i}")
        c.ok(lambda: p.update({"a": v}, b=u), "preferences can be updated")
        w.ref["a"], w.ref["b"] = v, u
    elif kind == "get":
        w.get(p, key, f"within")
    elif kind == "in":
        c.check((key in p) == (key in w.ref), "within: membership")
    elif kind == "del":
        if key in w.ref:
            c.ok(lambda: p.__delitem__(key), "a preference can be deleted")
            del w.ref[key]
        else:
            c.raises(KeyError, lambda: p.__delitem__(key), "deleting an absent preference is refused")
    elif kind == "reset":
        c.ok(lambda: p.resetPreferences(), "preferences can be reset")
        w.ref.clear()
    elif kind == "open":
        w.inst[who] = w.open()
    elif kind == "gone":
        if os.path.exists(w.path):
            os.remove(w.path)
        w.ref.clear()
    elif kind == "damaged":
        with open(w.path, "w") as f:
            f.write(BAD[i % len(BAD)])
        w.ref.clear()
    if kind in ("set", "upd", "reset"):
        w.readable("after " + kind)
    c.reached(kind)


def history(c, first, n):
    w = World(c)
    try:
        for i, op in enumerate(first):
            step(c, w, op, i)
        for i in range(len(first), n):
            step(c, w, OPS[c.choice(f"op{i}", len(OPS))], i)
        order = (0, 1) if c.choice("order", 2) else (1, 0)
        for k in order:
            w.look(w.inst[k], "in the end")
        w.look(w.open(), "opened in the end")
    finally:
        w.close()


def damaged(c, text):
    w = World(c)
    try:
        v = c.real("v")
        w.inst[0]["a"] = c.real("u")
        with open(w.path, "w") as f:
            f.write(text)
        p = w.open()
        w.look(p, "damaged")
        p["b"] = v
        w.ref["b"] = v
        w.look(p, "set after damage")
        w.look(w.open(), "set after damage, opened again")
        w.readable("set after damage")
    finally:
        w.close()


def initial(c, how, before):
    """values given when opening are set like any others"""
    w = World(c, new=False)
    try:
        if before:
            p = w.open()
            u = c.real("u")
            p["a"], p["b"] = u, "kept"
            w.ref.update(a=u, b="kept")
        v = c.real("v")
        p = w.open(a=v) if how == "keyword" else w.open({"a": v}) if how == "dict" else w.open([("a", v)])
        w.ref["a"] = v
        w.path = p.path
        w.look(p, "initial")
        w.look(w.open(), "initial, opened again")
        w.readable("initial")
    finally:
        w.close()


class Thing:
    pass


def unsavable(c, how):
    w = World(c)
    try:
        u, v = c.real("u"), c.real("v")
        p, q = w.inst
        p["a"] = u
        w.ref["a"] = u
        bad = Thing()
        f = {"set": lambda: p.__setitem__("b", bad), "nested": lambda: p.__setitem__("b", [1.0, {"x": bad}]),
             "update": lambda: p.update(b=bad), "replace": lambda: p.__setitem__("a", bad)}[how]
        c.raises(TypeError, f, "a value that cannot be saved is refused")
        w.readable("refused")
        w.look(q, "refused: the other instance")
        w.look(w.open(), "refused: opened again")
        w.look(p, "refused: the same instance")
        p["b"] = v
        w.ref["b"] = v
        w.look(q, "afterwards")
        w.readable("afterwards")
    finally:
        w.close()


def kinds(c, i):
    """the kinds of values JSON holds come back as they were"""
    x = c.real("x")
    v = ["text", True, None, [x, "y", [1]], {"k": x, "l": {"m": "n"}}, "", "é\n\"quoted\"", 0, False][i]
    w = World(c)
    try:
        w.inst[0]["a"] = v
        for p in (w.inst[0], w.inst[1], w.open()):
            g = p["a"]
            c.check(type(g) is type(v), "same kind of value")
            if i == 3:
                c.eq(g[0], x, "same value")
                c.check(g[1:] == v[1:], "same value")
            elif i == 4:
                c.eq(g["k"], x, "same value")
                c.check(g["l"] == v["l"], "same value")
            else:
                c.check(g == v, "same value")
    finally:
        w.close()


class Crash(BaseException):
    pass


class Tracked:
    """a file whose writing stops after a number of steps"""

    def __init__(self, f, left):
        self.f, self.left = f, left

    def _tick(self):
        if self.left[0] <= 0:
            self.f.flush()
            raise Crash()
        self.left[0] -= 1

    def write(self, s):
        half = len(s) // 2
        self._tick()
        self.f.write(s[:half])
        self._tick()
        return self.f.write(s[half:])

    def writelines(self, ls):
        for s in ls:
            self.write(s)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()
        return False

    def __iter__(self):
        return iter(self.f)

    def __getattr__(self, k):
        return getattr(self.f, k)


def interrupted(c, what):
    """the program stops while writing: the preferences are those before or those after"""
    w = World(c)
    mod = w.P
    try:
        u, x, v = c.real("u"), c.real("x"), c.real("v")
        p = w.inst[0]
        p["a"] = u
        p["b"] = x
        w.ref.update(a=u, b=x)
        left = [c.choice("after", 24)]

        def opening(name, mode="r", *a, **k):
            f = open(name, mode, *a, **k)
            if not any(m in mode for m in "wxa+"):
                return f
            t = Tracked(f, left)
            if "w" in mode or "x" in mode:
                try:
                    t._tick()
                except Crash:
                    f.close()
                    raise
            return t
        stopped = False
        mod.open = opening
        try:
            if what == "set":
                p["a"] = v
            elif what == "new":
                p["c"] = v
            elif what == "read":
                p["a"]
            elif what == "open":
                mod.Preferences()
            elif what == "update":
                p.update(a=v)
        except Crash:
            stopped = True
        finally:
            del mod.open
        q = w.open()
        w.path = q.path
        if what in ("read", "open"):
            w.look(q, "stopped while reading")
            return
        if stopped:
            c.reached("stopped")
        after = dict(w.ref)
        after["c" if what == "new" else "a"] = v
        c.check("b" in q and "a" in q, "stopped while writing: no other preference is lost")
        c.eq(c.ok(lambda: q["b"], "stopped while writing: no other preference is lost"), x, "stopped while writing: other preferences are as they were")
        if what == "new":
            c.eq(q["a"], u, "stopped while writing: other preferences are as they were")
            if not stopped:
                c.eq(q["c"], v, "not stopped: the new value")
        else:
            g = q["a"]
            c.check(c.Or(g == u, g == v), "stopped while writing: the value before or after")
            if not stopped:
                c.eq(g, v, "not stopped: the new value")
    finally:
        w.close()


def modes(c, who):
    """a mode saved by the package is found when the package starts again, and leaves other preferences alone"""
    import warnings
    w = World(c)
    u = __import__("raytracing.utils", fromlist=["utils"])
    fmt = warnings.formatwarning
    try:
        with warnings.catch_warnings():
            v = c.real("v")
            w.inst[0]["a"] = v
            w.ref["a"] = v
            f = {"beginner": u.beginnerMode, "expert": u.expertMode, "silent": u.silentMode}[who]
            f(saveToPrefs=False)
            w.look(w.inst[1], "not saved")
            f(saveToPrefs=True)
            w.ref["mode"] = who
            for p in (w.inst[0], w.open()):
                w.look(p, "mode saved")
                c.check(p["mode"] == who, "the mode saved")
            x = c.real("x")
            w.inst[1]["b"] = x
            w.ref["b"] = x
            c.check(w.open()["mode"] == who, "the mode saved survives other preferences")
            w.look(w.open(), "set after")
    finally:
        warnings.formatwarning = fmt
        w.close()


MUST_REACH = ["set", "upd", "get", "in", "del", "reset", "open", "gone", "damaged", "stopped"]


def cases(tier):
    out = []
    n = 3 if tier == "quick" else 4
    starts = [o for o in OPS if o in ("set0a", "upd0", "get0a", "reset0", "gone", "damaged")]
    for a in starts:
        if n == 3:
            out.append(dict(name=f"history-{a}", fn="history", args=[[a], n], max_paths=100000, weight=5))
        else:
            for b in OPS:
                out.append(dict(name=f"history-{a}-{b}", fn="history", args=[[a, b], n], max_paths=100000, weight=5))
    for i, t in enumerate(BAD):
        out.append(dict(name=f"damaged-{i}", fn="damaged", args=[t]))
    for how in ("keyword", "dict", "pairs"):
        for b in (False, True):
            out.append(dict(name=f"initial-{how}-{'then' if b else 'first'}", fn="initial", args=[how, b]))
    for how in ("set", "nested", "update", "replace"):
        out.append(dict(name=f"unsavable-{how}", fn="unsavable", args=[how]))
    for i in range(9):
        out.append(dict(name=f"kind-{i}", fn="kinds", args=[i]))
    for what in ("set", "new", "read", "open", "update"):
        out.append(dict(name=f"interrupted-{what}", fn="interrupted", args=[what]))
    for who in ("beginner", "expert", "silent"):
        out.append(dict(name=f"mode-{who}", fn="modes", args=[who]))
    return out
