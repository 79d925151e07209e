"""What the instrumented modules see instead of a few builtins and modules."""
import builtins
import cmath
import math
import sys
import types
import time as _time
import numpy as np
from . import sym
from .sym import SymReal, SymComplex, SymBool, is_sym


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SymReal))

    def __eq__(cls, o):
        return o is float or o is SymReal or o is cls

    def __hash__(cls):
        return hash(float)

    def __repr__(cls):
        return "<class 'float'>"


class xfloat(metaclass=_FloatMeta):
    fromhex = float.fromhex

    def __new__(cls, x=0.0):
        if isinstance(x, sym.AbsReal):
            return x.force()
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymComplex):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if isinstance(x, SymBool):
            return float(bool(x))
        if isinstance(x, str):
            v = sym.parse_token(x)
            if v is not None:
                return v
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.item())
        return float(x)


xfloat.__name__ = "float"
xfloat.__qualname__ = "float"


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (complex, SymComplex))

    def __eq__(cls, o):
        return o is complex or o is SymComplex or o is cls

    def __hash__(cls):
        return hash(complex)


class xcomplex(metaclass=_ComplexMeta):
    def __new__(cls, re=0.0, im=None):
        if im is None:
            if isinstance(re, SymComplex):
                return re
            if isinstance(re, SymReal):
                return SymComplex(re, 0.0)
            return complex(re)
        if is_sym(re) or is_sym(im):
            r = SymComplex(re, 0.0) if not isinstance(re, (complex, SymComplex)) else sym.l_complex(re)
            if isinstance(im, (complex, SymComplex)):
                return r + SymComplex(0.0, 1.0) * im
            return SymComplex(r.re, r.im + im if r.im != 0 else im)
        return complex(re, im)


xcomplex.__name__ = "complex"


class _BoolFix:
    pass


def _module(base, name, **over):
    m = types.ModuleType(name)
    m.__dict__.update({k: v for k, v in base.__dict__.items() if not k.startswith("__")})
    m.__dict__.update(over)
    m.__all__ = [k for k in m.__dict__ if not k.startswith("_")]
    return m


def _passing(orig, fn):
    def f(*a, **k):
        if any(is_sym(x) for x in a):
            return fn(*a, **k)
        return orig(*a, **k)
    f.__name__ = getattr(orig, "__name__", "f")
    return f


def _unsup(name, orig):
    def f(*a, **k):
        if any(is_sym(x) for x in a):
            raise sym.Unsupported(f"math.{name} on a symbolic value")
        return orig(*a, **k)
    return f


_m = dict(sqrt=sym.sqrt, sin=sym.sin, cos=sym.cos, tan=sym.tan, exp=sym.exp, log=sym.log, asin=sym.asin,
          acos=sym.acos, atan=sym.atan, atan2=sym.atan2, fabs=lambda x: abs(x), floor=sym.math_floor,
          ceil=lambda x: -sym.math_floor(-x), trunc=sym.math_trunc, hypot=sym.hypot, isfinite=sym.isfinite,
          isinf=sym.isinf, isnan=sym.isnan, isclose=sym.isclose, copysign=sym.copysign,
          pow=lambda a, b: a ** b, radians=lambda a: a * (math.pi / 180), degrees=lambda a: a * (180 / math.pi))
_over = {}
for _k, _v in math.__dict__.items():
    if callable(_v) and not _k.startswith("_"):
        _over[_k] = _passing(_v, _m[_k]) if _k in _m else _unsup(_k, _v)
if "prod" in _over:
    _over["prod"] = math.prod
if "fsum" in _over:
    def _fsum(xs):
        s = 0.0
        for x in xs:
            s = s + x
        return s
    _over["fsum"] = _fsum
math_shim = _module(math, "math", **_over)

_cover = {}
for _k, _v in cmath.__dict__.items():
    if callable(_v) and not _k.startswith("_"):
        _cover[_k] = _unsup("c" + _k, _v)
_cover["sqrt"] = _passing(cmath.sqrt, sym.csqrt)
_cover["isfinite"] = _passing(cmath.isfinite, sym.isfinite)
_cover["isnan"] = _passing(cmath.isnan, sym.isnan)
_cover["isinf"] = _passing(cmath.isinf, sym.isinf)
cmath_shim = _module(cmath, "cmath", **_cover)

time_shim = _module(_time, "time", sleep=lambda s: None)


# ---- json: a symbolic number is written as a marker and read back as itself
def _json_shim():
    import json

    def _default(given):
        def f(o):
            if is_sym(o) and isinstance(o, SymReal):
                o._token()
                return {"__symx__": o._id}
            if given is not None:
                return given(o)
            raise TypeError(f"Object of type {o.__class__.__name__} is not JSON serializable")
        return f

    def _hook(given):
        def f(d):
            if len(d) == 1 and "__symx__" in d:
                return sym._from_token(d["__symx__"])
            return given(d) if given is not None else d
        return f

    def dumps(obj, *a, default=None, **k):
        return json.dumps(obj, *a, default=_default(default), **k)

    def dump(obj, fp, *a, default=None, **k):
        return json.dump(obj, fp, *a, default=_default(default), **k)

    def loads(s, *a, object_hook=None, **k):
        return json.loads(s, *a, object_hook=_hook(object_hook), **k)

    def load(fp, *a, object_hook=None, **k):
        return json.load(fp, *a, object_hook=_hook(object_hook), **k)
    return _module(json, "json", dumps=dumps, dump=dump, loads=loads, load=load)


# ---- multiprocessing: the work is done in this process, in order
class _Pool:
    def __init__(self, processes=None, *a, **k):
        self.processes = processes

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def starmap(self, f, it, chunksize=None):
        return [f(*a) for a in it]

    def map(self, f, it, chunksize=None):
        return [f(a) for a in it]

    def imap(self, f, it, chunksize=None):
        return iter([f(a) for a in it])

    def apply(self, f, args=(), kw={}):
        return f(*args, **kw)

    def close(self):
        pass

    join = terminate = close


def _mp_shim():
    import multiprocessing
    return _module(multiprocessing, "multiprocessing", Pool=_Pool, cpu_count=lambda: 3)


# ---- randomness: every draw is a fresh symbolic value of its documented range
class Draws:
    count = 0


def _draw(lo=0.0, hi=1.0):
    e = sym.Engine.current
    k = e.fresh.get("rnd", 0)
    e.fresh["rnd"] = k + 1
    i = e.declare(f"rnd{k}", 0, 1)
    e.inputs[f"rnd{k}"] = i
    from .poly import Poly
    u = SymReal(Poly.var(i), ())
    e.assume(u < 1)
    return u


def install_numpy():
    orig_random = np.random.random
    orig_uniform = np.random.uniform
    orig_rand = np.random.rand
    orig_hist = np.histogram

    def random(size=None):
        if sym.Engine.current is None or not sym.Engine.current.meta.get("random"):
            return orig_random(size)
        if size is None:
            return _draw()
        n = size if isinstance(size, int) else int(np.prod(size))
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = _draw()
        return out

    def uniform(low=0.0, high=1.0, size=None):
        if sym.Engine.current is None or not sym.Engine.current.meta.get("random"):
            return orig_uniform(low, high, size)
        if size is None:
            return low + (high - low) * _draw()
        return low + (high - low) * random(size)

    def rand(*shape):
        if sym.Engine.current is None or not sym.Engine.current.meta.get("random"):
            return orig_rand(*shape)
        return random(shape if shape else None)

    def histogram(a, bins=10, range=None, **kw):
        vals = list(a)
        flat = vals + (list(range) if range is not None else [])
        if not any(is_sym(x) for x in flat) or not isinstance(bins, int):
            return orig_hist(a, bins=bins, range=range, **kw)
        if bins < 1:
            raise ValueError("`bins` must be positive, when an integer")
        lo, hi = range if range is not None else (min(vals), max(vals))
        if hi < lo:
            raise ValueError("max must be larger than min in range parameter.")
        if lo == hi:
            lo, hi = lo - 0.5, hi + 0.5
        edges = [lo + (hi - lo) * k / bins for k in builtins.range(bins)] + [hi]
        counts = [0] * bins
        for v in vals:
            if v < lo or v > hi:
                continue
            for k in builtins.range(bins):
                if k == bins - 1 or v < edges[k + 1]:
                    counts[k] += 1
                    break
        return np.array(counts), np.array(edges, dtype=object)

    np.random.random = random
    np.random.random_sample = random
    np.random.uniform = uniform
    np.random.rand = rand
    np.histogram = histogram


def make_builtins(replace):
    d = dict(builtins.__dict__)
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            m = replace.get(name)
            if m is not None:
                return m
        return real_import(name, globals, locals, fromlist, level)

    d["__import__"] = imp
    d["float"] = xfloat
    d["complex"] = xcomplex
    return d
