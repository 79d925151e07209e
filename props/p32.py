"""P32: looking for a newer version never disturbs the program."""
import contextlib
import datetime as dtmod
import functools
import importlib
import io
import json
import os
import ssl
import sys
import urllib.error
import urllib.request
import warnings
from .common import *

BOUNDS = ("up to 4 (thorough: 6) imports at any instants up to 40 days apart, with or without a fraction of a second, after a look recorded at any earlier "
          "instant or none; at each look any of the answers and failures listed (newer or older release, no such host, time-out, certificate, refused, "
          "status, reading cut short, not JSON, other JSON, no or unreadable releases); records of the last look of any other kind (other texts, any number, "
          "lists, nothing, later than now, with a time zone, damaged file); preferences that cannot be read or written, in four ways; up to 3 "
          "(thorough: 4) releases listed in any order, of any numbers, and a current version of any number")
OUTSIDE = ("the network and the clock themselves, stood in for by urllib.request.urlopen and datetime; a look at the very instant a whole number of days "
           "after another; release candidates and development releases; programs importing the package at the same time; clocks set back between imports; "
           "the package itself is executed again in the same process, not in a new one")
ASSUMPTIONS = ["an import executes raytracing/__init__.py again (importlib.reload) with the modules it imports already executed"]

REAL = dtmod.datetime
BASE = REAL(2026, 3, 1, 12, 0, 0)
FILE = "ca.dcclab.python.raytracing.json"


# ------------------------------------------------------------------ the clock
def symbolic_clock(clock):
    """datetime whose instants are symbolic; their texts are ISO dates standing for them"""
    from symx import sym
    texts = {}

    def days(o):
        if isinstance(o, Delta):
            return o.d
        if isinstance(o, dtmod.timedelta):
            return o / dtmod.timedelta(days=1)
        return None

    class Floor:
        """a whole number of days or seconds, compared without going through each of them"""

        def __init__(self, d):
            self.d = d

        def __gt__(self, n):
            return bool(self.d >= n + 1)

        def __ge__(self, n):
            return bool(self.d >= n)

        def __lt__(self, n):
            return bool(self.d < n)

        def __le__(self, n):
            return bool(self.d < n + 1)

        def __eq__(self, n):
            return bool(self.d >= n) and bool(self.d < n + 1)

        __hash__ = None

        def __bool__(self):
            return not self == 0

        def __getattr__(self, k):
            return getattr(sym.math_floor(self.d), k)

        def _op(k):
            return lambda self, *o: getattr(sym.math_floor(self.d), k)(*o)
        for _k in ("add", "sub", "mul", "truediv", "floordiv", "mod", "neg", "abs", "radd", "rsub", "rmul", "int", "index", "float"):
            locals()[f"__{_k}__"] = _op(f"__{_k}__")

    @functools.total_ordering
    class Delta:
        def __init__(self, d):
            self.d = d

        @property
        def days(self):
            return Floor(self.d)

        @property
        def seconds(self):
            return Floor((self.d - sym.math_floor(self.d)) * 86400)

        def total_seconds(self):
            return self.d * 86400

        def __truediv__(self, o):
            return self.d / days(o) if days(o) is not None else Delta(self.d / o)

        def __neg__(self):
            return Delta(-self.d)

        def __abs__(self):
            return Delta(abs(self.d))

        def __lt__(self, o):
            return NotImplemented if days(o) is None else bool(self.d < days(o))

        def __eq__(self, o):
            return NotImplemented if days(o) is None else bool(self.d == days(o))

        __hash__ = None

    def inst(real, t):
        x = Instant(real.year, real.month, real.day, real.hour, real.minute, real.second, real.microsecond, real.tzinfo)
        x.t = t
        return x

    def of(o):
        if isinstance(o, Instant) and hasattr(o, "t"):
            return o.t
        if isinstance(o, REAL):
            return (o.replace(tzinfo=None) - BASE) / dtmod.timedelta(days=1)
        return None

    @functools.total_ordering
    class Instant(REAL):
        @classmethod
        def now(cls, tz=None):
            real = BASE + dtmod.timedelta(minutes=len(clock.asked), microseconds=clock.micro)
            clock.asked.append(real)
            return inst(real if tz is None else real.replace(tzinfo=tz), clock.t)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()

        def _said(self, s):
            texts[s] = of(self)
            return s

        def isoformat(self, *a, **k):
            return self._said(super().isoformat(*a, **k))

        def __str__(self):
            return self._said(super().isoformat(" "))

        def strftime(self, f):
            s = self._said(super().strftime(f))
            if not any("%" + x in f for x in "HIcXTs"):     # the day alone (instants are counted from a noon)
                texts[s] = sym.math_floor(of(self) + 0.5) - 0.5
            return s

        def replace(self, *a, **k):
            return inst(self._real().replace(*a, **k), of(self))

        def _real(self):
            return REAL(self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond, self.tzinfo)

        @classmethod
        def strptime(cls, s, f):
            r = REAL.strptime(s, f)
            return inst(r, texts[s] if s in texts else of(r))

        @classmethod
        def fromisoformat(cls, s):
            r = REAL.fromisoformat(s)
            return inst(r, texts[s] if s in texts else of(r))

        def timestamp(self):
            return of(self) * 86400

        @classmethod
        def fromtimestamp(cls, x, tz=None):
            if isinstance(x, str) or x is None:
                raise TypeError("an integer is required")
            return inst(BASE, x / 86400)

        def _aware(self, o):
            if (self.tzinfo is None) != (o.tzinfo is None):
                raise TypeError("can't subtract or compare offset-naive and offset-aware datetimes")

        def __sub__(self, o):
            if of(o) is not None:
                self._aware(o)
                return Delta(of(self) - of(o))
            return NotImplemented if days(o) is None else inst(self._real(), of(self) - days(o))

        def __rsub__(self, o):
            if of(o) is None:
                return NotImplemented
            self._aware(o)
            return Delta(of(o) - of(self))

        def __add__(self, o):
            return NotImplemented if days(o) is None else inst(self._real(), of(self) + days(o))

        __radd__ = __add__

        def __lt__(self, o):
            if of(o) is None:
                return NotImplemented
            self._aware(o)
            return bool(of(self) < of(o))

        def __le__(self, o):
            return not o < self

        def __gt__(self, o):
            return o < self

        def __ge__(self, o):
            return not self < o

        def __eq__(self, o):
            return NotImplemented if of(o) is None else bool(of(self) == of(o))

        __hash__ = REAL.__hash__

    def text(t, micro):
        real = BASE - dtmod.timedelta(days=400) + dtmod.timedelta(microseconds=micro)
        return inst(real, t).isoformat()
    return Instant, text


def concrete_clock(clock):
    def at(t, micro):
        d = BASE + dtmod.timedelta(days=t)
        return d.replace(microsecond=micro)

    class Fixed(REAL):
        @classmethod
        def now(cls, tz=None):
            d = at(clock.t, clock.micro)
            return d if tz is None else d.replace(tzinfo=tz)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()
    return Fixed, lambda t, micro: at(t, micro).isoformat()


class Clock:
    t = 0
    micro = 0

    def __init__(self):
        self.asked = []


# ---------------------------------------------------------------- the network
class Response(io.BytesIO):
    status = code = 200
    reason = "OK"
    headers = {}

    def getcode(self):
        return 200


class Cut(Response):
    def read(self, *a):
        raise ConnectionResetError("connection reset by peer")

    read1 = readinto = readline = read


def _raise(e):
    def f():
        raise e
    return f


def _json(x):
    return lambda: Response(json.dumps(x).encode())


NEWER, OLDER = "998.7.6", "0.0.3"
ANSWERS = {
    "newer": _json({"releases": {NEWER: []}}),
    "older": _json({"releases": {OLDER: []}}),
    "nohost": _raise(urllib.error.URLError(OSError(-2, "Name or service not known"))),
    "timeout": _raise(TimeoutError("timed out")),
    "certificate": _raise(ssl.SSLCertVerificationError(1, "certificate verify failed")),
    "wrapped": _raise(urllib.error.URLError(ssl.SSLError(1, "certificate verify failed"))),
    "refused": _raise(ConnectionRefusedError(111, "Connection refused")),
    "status": _raise(urllib.error.HTTPError("https://pypi.org", 503, "unavailable", {}, None)),
    "odd": _raise(ValueError("unknown url type")),
    "cut": lambda: Cut(),
    "notjson": lambda: Response(b"<html>captive portal</html>"),
    "notutf8": lambda: Response(b"\xff\xfe\x80{"),
    "empty": lambda: Response(b""),
    "list": _json([1, 2]),
    "null": _json(None),
    "noreleases": _json({"info": {}}),
    "nothing": _json({"releases": {}}),
    "unreadable": _json({"releases": {"not a version": []}}),
    "strange": _json({"releases": 3}),
    "nopackaging": None,
}


class World:
    """a user's folder, a clock and a network"""

    def __init__(self, c):
        self.c = c
        self.rt = c.rt
        self.home = c.tmp()
        self.config = os.path.join(self.home, ".config")
        os.mkdir(self.config)
        self.file = os.path.join(self.config, FILE)
        self.clock = Clock()
        self.datetime, self.text = (symbolic_clock if c.symbolic else concrete_clock)(self.clock)
        self.answer = "older"
        self.looks = 0
        self.version = None

    def urlopen(self, url, data=None, timeout=Ellipsis, **k):
        c = self.c
        self.looks += 1
        if timeout is Ellipsis:
            import socket
            timeout = socket.getdefaulttimeout()
        c.check(timeout is not None and 0 < timeout <= 30, "the network is not waited for without limit")
        c.reached("look")
        f = ANSWERS[self.answer] if isinstance(self.answer, str) else self.answer
        return f()

    @contextlib.contextmanager
    def inside(self):
        import packaging.version
        undo = []

        def put(obj, name, v):
            undo.append((obj, name, getattr(obj, name)))
            setattr(obj, name, v)
        env = {k: os.environ.get(k) for k in ("HOME", "XDG_CONFIG_HOME", "RAYTRACING_EXPERT")}
        cwd = os.getcwd()
        kept = dict(self.rt.__dict__)
        mods = {k: sys.modules.get(k) for k in ("packaging", "packaging.version")}
        old = {"urlopen": urllib.request.urlopen, "datetime": REAL, "Version": packaging.version.Version}
        new = {"urlopen": self.urlopen, "datetime": self.datetime, "Version": self.version or packaging.version.Version}
        self.out = io.StringIO()
        try:
            os.environ["HOME"] = self.home
            os.environ.pop("XDG_CONFIG_HOME", None)
            os.environ.pop("RAYTRACING_EXPERT", None)
            os.chdir(self.home)
            for name in list(sys.modules):
                m = sys.modules[name]
                if name.startswith("raytracing.") and m is not None:
                    for k in old:
                        if m.__dict__.get(k) is old[k]:
                            put(m, k, new[k])
            put(urllib.request, "urlopen", new["urlopen"])
            put(dtmod, "datetime", new["datetime"])
            put(packaging.version, "Version", new["Version"])
            if self.answer == "nopackaging":
                self.answer = "older"
                sys.modules["packaging"] = sys.modules["packaging.version"] = None
            with warnings.catch_warnings(), contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(io.StringIO()):
                put(warnings, "formatwarning", warnings.formatwarning)
                yield
        finally:
            for obj, name, v in reversed(undo):
                setattr(obj, name, v)
            for k, m in mods.items():
                if m is not None:
                    sys.modules[k] = m
            os.chdir(cwd)
            for k, v in env.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            self.rt.__dict__.clear()
            self.rt.__dict__.update(kept)

    def imports(self, t, micro, answer, label):
        """the package is imported at t (days); True if it looked for a newer version"""
        c = self.c
        self.clock.t, self.clock.micro = t, micro
        self.answer = answer
        before = self.looks
        with self.inside():
            c.ok(lambda: importlib.reload(self.rt), label + ": the package can be imported")
            c.check(self.rt.Space(d=10.0).B == 10.0, label + ": and used")
        n = self.looks - before
        c.check(n <= 1, label + ": at most one look")
        said = self.out.getvalue()
        c.check((NEWER in said) == (n == 1 and answer == "newer"), label + ": a newer release is reported when there is one")
        c.check(OLDER not in said, label + ": an older release is not reported")
        return n == 1

    def record(self, v, raw=None):
        with open(self.file, "w") as f:
            f.write(raw if raw is not None else json.dumps({"lastVersionCheck": v, "mode": "silent"}))

    def kept(self, label):
        """the other preferences are still there"""
        c = self.c
        with open(self.file) as f:
            d = c.ok(lambda: json.load(f), label + ": the preferences are readable")
        c.check(isinstance(d, dict) and d.get("mode") == "silent", label + ": the other preferences are as they were")


def micros(c, name):
    return (0, 250000)[c.choice(name, 2)]


def period(c, n, first, answers, days=40):
    """a look at most once a day, and again once two days have passed"""
    w = World(c)
    last = None
    t = c.real("t0", 0, 1)
    if first == "recorded":
        w.record(w.text(t, 250000))
        last = t
        start = 1
    elif first == "other":
        w.record(None, raw='{"mode": "silent"}')
        start = 0
    else:
        start = 0
    for i in range(start, n + start):
        if i > 0:
            t = t + c.real(f"d{i}", 0, days)
        looked = w.imports(t, micros(c, f"m{i}"), answers[i % len(answers)], f"import {i}")
        if last is None:
            c.check(looked, "a first look")
        else:
            # concrete instants are rounded to a microsecond
            tol = 0 if c.symbolic else 1e-4
            if looked:
                c.check(t - last >= 1 - tol, "no two looks within a day")
            else:
                c.check(t - last <= 2 + tol, "a look when two days have passed")
        if looked:
            last = t
            c.reached("looked")
        else:
            c.reached("not looked")
        if first != "none":
            w.kept("afterwards")


def answers(c, name):
    """whatever the network answers, the package is imported and has looked"""
    w = World(c)
    if c.choice("other", 2):
        w.record(None, raw='{"mode": "silent"}')
    t = c.real("t", -5, 5)
    looked = w.imports(t, micros(c, "m0"), name, "first")
    if name != "nopackaging":
        c.check(looked, "first: it looks")
    d = c.real("d", 0, 1)
    c.assume(d < 1)
    c.check(not w.imports(t + d, micros(c, "m1"), name, "later that day"), "later that day: it does not look again")


RECORDS = {
    "blank": "", "word": "yesterday", "date": "2026-02-03", "minutes": "2026-02-03T04:05", "seconds": "2020-02-03T04:05:06", "space": "2020-02-03 04:05:06.000700",
    "aware": "2020-02-03T04:05:06.000700+00:00", "utc": "2020-02-03T04:05:06Z", "late": "2031-02-03T04:05:06.000700", "never": "2026-02-30T04:05:06.000700",
    "nothing": None, "list": [2026, 2, 3], "dict": {"year": 2026}, "true": True, "false": False, "nan": float("nan"), "large": 10**40,
}
DAMAGED = ["", "{", '{"lastVersionCheck": "2020-', "[1, 2]", "3", "null"]


def unreadable(c, how, i):
    """whatever is recorded about the last look, the package is imported, and knows the next time"""
    w = World(c)
    if how == "record":
        w.record(RECORDS[i])
    elif how == "number":
        x = c.real("x")
        with w.inside():
            p = w.rt.Preferences()
            p["mode"] = "silent"
            p["lastVersionCheck"] = x
    else:
        w.record(None, raw=DAMAGED[i])
    t = c.real("t", -5, 5)
    looked = w.imports(t, micros(c, "m0"), "timeout", "first")
    if how == "record" and i in ("blank", "word", "never", "nothing", "list", "dict") or how == "damaged":
        c.check(looked, "with nothing to tell when the last look was, it looks")
    d = c.real("d", 0, 1)
    c.assume(d < 1)
    again = w.imports(t + d, micros(c, "m1"), "timeout", "later that day")
    c.check(not (looked and again), "it does not look twice in a day")
    if how != "damaged":
        w.kept("afterwards")
    c.reached("looked" if looked else "not looked")


def unwritable(c, how, mode):
    """preferences that cannot be read or written do not prevent use"""
    w = World(c)
    P = sys.modules["raytracing.preferences"]
    if mode:
        w.record(None, raw='{"mode": "%s"}' % mode)

    def denied(*a, **k):
        raise PermissionError(13, "Permission denied")

    def full(name, m="r", *a, **k):
        f = open(name, m, *a, **k)
        if any(x in m for x in "wxa+"):
            class Full:
                def write(self, s):
                    raise OSError(28, "No space left on device")
                writelines = write

                def __enter__(self):
                    return self

                def __exit__(self, *e):
                    f.close()

                def __getattr__(self, k):
                    return getattr(f, k)
            return Full()
        return f

    def readonly(name, m="r", *a, **k):
        if any(x in m for x in "wxa+"):
            raise OSError(30, "Read-only file system")
        return open(name, m, *a, **k)
    if how == "file":
        if os.path.exists(w.file):
            os.remove(w.file)
        os.rmdir(w.config)
        open(w.config, "w").close()
    elif how == "folder":
        if os.path.exists(w.file):
            os.remove(w.file)
        os.mkdir(w.file)
    stub = {"denied": denied, "full": full, "readonly": readonly}.get(how)
    try:
        if stub:
            P.open = stub
        t = c.real("t", -5, 5)
        w.imports(t, micros(c, "m0"), "older", "first")
        w.imports(t + c.real("d", 0, 40), micros(c, "m1"), "refused", "second")
    finally:
        if stub:
            del P.open
    if mode and how in ("full", "readonly"):
        with open(w.file) as f:
            d = c.ok(lambda: json.load(f), "the preferences are readable")
        c.check(d == {"mode": mode}, "the preferences are as they were")


def numbered(c, values):
    """versions (texts, class) whose numbers are the given values"""
    import packaging.version
    real = packaging.version.Version
    if not c.symbolic:
        rank = {v: k for k, v in enumerate(sorted(set(values)))}
        return [("0.9.0", "0.10.0", "1.2.0", "1.10.0", "9.0.0", "10.0.0")[rank[v]] for v in values], None
    texts = [f"{i + 1}.{i}.7" for i in range(len(values))]
    num = dict(zip(texts, values))

    @functools.total_ordering
    class Version:
        def __init__(self, s):
            if s not in num:
                raise packaging.version.InvalidVersion(s)
            self.s = s

        def __lt__(self, o):
            return bool(num[self.s] < num[o.s])

        def __eq__(self, o):
            return isinstance(o, Version) and bool(num[self.s] == num[o.s])

        def __hash__(self):
            return 7

        def __str__(self):
            return self.s

        is_prerelease = is_devrelease = is_postrelease = False
        __repr__ = __str__
    return texts, Version


def releases(c, n):
    """a newer version is announced exactly when the highest released is above the one in use"""
    w = World(c)
    cur = c.real("current", 0, 100)
    vs = [c.real(f"v{i}", 0, 100) for i in range(n)]
    for i in range(n):
        for j in range(i):
            c.assume(vs[i] != vs[j])
    texts, w.version = numbered(c, [cur] + vs)
    w.answer = _json({"releases": {s: [] for s in texts[1:]}})
    with w.inside():
        r = c.ok(lambda: w.rt.checkLatestVersion(currentVersion=texts[0]), "looking gives an answer")
    newer = False
    for v in vs:
        newer = newer or c.decide(v > cur)
    c.check(bool(r) == bool(newer), "a newer version is announced exactly when there is one")
    said = w.out.getvalue()
    if newer:
        top = 0
        for i in range(1, n):
            if c.decide(vs[i] > vs[top]):
                top = i
        c.check(texts[1 + top] in said.split(), "the highest is named")
        c.check(not any(texts[1 + i] in said.split() for i in range(n) if i != top), "no other is named")
        c.reached("newer")
    else:
        c.check(not any(v in said for v in texts[1:]), "none is named when there is none")
        c.reached("not newer")


def asked(c, name):
    """asked for, the look answers no when it cannot tell"""
    w = World(c)
    w.answer = name
    with w.inside():
        r = c.ok(lambda: w.rt.checkLatestVersion(currentVersion="1.2.3"), "looking gives an answer")
    c.check(w.looks <= 1, "at most one look")
    c.check(r is True if name == "newer" else r is False, "no newer version when it cannot tell")


MUST_REACH = ["look"]


def cases(tier):
    deep = tier == "thorough"
    out = []

    def add(name, fn, *args, **k):
        out.append(dict(name=name, fn=fn, args=list(args), **k))
    seqs = [["older"], ["timeout", "newer"]] if not deep else [["older"], ["timeout", "newer"], ["notjson", "certificate"], ["newer"]]
    add("period-short", "period", 2, "other", ["older"], 3)
    for first in ("none", "recorded", "other"):
        for s in seqs:
            add(f"period-{first}-{'-'.join(s)}", "period", 6 if deep else 4, first, s)
    for a in ANSWERS:
        add(f"answer-{a}", "answers", a)
        add(f"asked-{a}", "asked", a)
    for r in RECORDS:
        add(f"record-{r}", "unreadable", "record", r)
    add("record-number", "unreadable", "number", 0)
    for i in range(len(DAMAGED)):
        add(f"record-damaged{i}", "unreadable", "damaged", i)
    for how in ("file", "folder", "denied", "full", "readonly"):
        for mode in ("", "silent", "expert", "beginner") if deep else ("", "silent"):
            add(f"unwritable-{how}-{mode or 'new'}", "unwritable", how, mode)
    for n in range(0, 5 if deep else 4):
        add(f"releases-{n}", "releases", n)
    return out
