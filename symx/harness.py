"""The interface a property harness is written against.  The same harness runs
symbolically (SymCtx, in the instrumented interpreter) and concretely
(ConCtx, against the unpatched package) to replay a counterexample."""
import math
import os
import shutil
import tempfile


class Stop(BaseException):
    """concrete run: an assumption does not hold for these values"""


class Base:
    TOL = 1e-6

    def __init__(self, rt):
        self.rt = rt
        self._tmps = []

    def tmp(self):
        d = tempfile.mkdtemp(prefix="symx-scratch-", dir=os.environ.get("SYMX_HOME"))
        self._tmps.append(d)
        return d

    def cleanup(self):
        for d in self._tmps:
            if os.path.basename(d).startswith("symx-scratch-"):
                shutil.rmtree(d, ignore_errors=True)
        self._tmps = []

    # ---- shared helpers, built on the primitive operations
    def reals(self, names, lo=None, hi=None, **k):
        return [self.real(n, lo, hi, **k) for n in names.split()]

    def eqs(self, pairs, label, **k):
        for i, (a, b) in enumerate(pairs):
            self.eq(a, b, f"{label}[{i}]", **k)

    def raises(self, excs, fn, label):
        """fn() must raise one of excs"""
        try:
            fn()
        except excs:
            self.reached(label)
            self.check(True, label)
            return True
        except Exception as e:
            self.check(False, f"{label} (raised {type(e).__name__} instead)")
            return False
        self.check(False, label + " (did not raise)")
        return False

    def ok(self, fn, label):
        """fn() must not raise; its result"""
        try:
            return fn()
        except Exception as e:
            self.check(False, f"{label} (raised {type(e).__name__}: {e})")
            raise Done()


class Done(BaseException):
    """the harness ends here (a violation has been recorded)"""


# --------------------------------------------------------------- concrete
class ConCtx(Base):
    symbolic = False

    def __init__(self, rt, values):
        super().__init__(rt)
        self.values = values
        self.violations = []
        self.obs = []
        self.labels = []

    def real(self, name, lo=None, hi=None, nonzero=False):
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 1.0)
        v = float(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (nonzero and v == 0):
            raise Stop()
        return v

    def choice(self, name, n):
        return int(self.values.get(name, 0))

    def assume(self, c):
        if not c:
            raise Stop()

    def check(self, c, label):
        self.labels.append(label)
        if not c:
            self.violations.append((label, ""))

    def near(self, a, b, tol=None):
        tol = self.TOL if tol is None else tol
        if isinstance(a, complex) or isinstance(b, complex):
            a, b = complex(a), complex(b)
            return self.near(a.real, b.real, tol) and self.near(a.imag, b.imag, tol)
        if a is None or b is None:
            return a is b
        a, b = float(a), float(b)
        if a == b:
            return True
        if not math.isfinite(a) or not math.isfinite(b):
            return (a != a and b != b)
        return (a - b) ** 2 <= tol * tol * (1 + a * a + b * b)

    def eq(self, a, b, label, tol=None):
        self.labels.append(label)
        self.observe(label + "/a", a)
        self.observe(label + "/b", b)
        if not self.near(a, b, tol):
            self.violations.append((label, f"{a!r} instead of {b!r}"))

    def same(self, a, b):
        return a == b

    def le(self, a, b, label, tol=None):
        self.labels.append(label)
        tol = self.TOL if tol is None else tol
        if not a <= b + tol * (1 + abs(a) + abs(b)):
            self.violations.append((label, f"{a!r} is not <= {b!r}"))

    def observe(self, label, v):
        if isinstance(v, complex):
            self.obs.append((label + ".re", v.real))
            self.obs.append((label + ".im", v.imag))
        elif v is None or isinstance(v, (bool, str)):
            self.obs.append((label, v))
        else:
            try:
                self.obs.append((label, float(v)))
            except (TypeError, ValueError):
                self.obs.append((label, str(type(v))))

    def reached(self, label):
        pass

    def note(self, text):
        pass

    @staticmethod
    def And(*c):
        return all(c)

    @staticmethod
    def Or(*c):
        return any(c)

    @staticmethod
    def Not(c):
        return not c

    @staticmethod
    def Implies(a, b):
        return (not a) or bool(b)

    sqrt = staticmethod(math.sqrt)
    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    tan = staticmethod(math.tan)
    exp = staticmethod(math.exp)
    asin = staticmethod(math.asin)

    def decide(self, c):
        return bool(c)

    def must_decide(self, c):
        return bool(c)

    def is_finite(self, x):
        return x is not None and math.isfinite(x)

    def use_random(self):
        """draws come from the recorded values"""
        import numpy as np
        k = [0]

        def draw(size=None):
            if size is None:
                v = self.values.get(f"rnd{k[0]}", 0.0)
                k[0] += 1
                return float(v)
            n = size if isinstance(size, int) else int(np.prod(size))
            return np.array([draw() for _ in range(n)])
        np.random.random = draw
        np.random.random_sample = draw
        np.random.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * draw(size)
        np.random.rand = lambda *s: draw(s if s else None)


# --------------------------------------------------------------- symbolic
class SymCtx(Base):
    symbolic = True

    def __init__(self, rt, engine, sink):
        super().__init__(rt)
        self.e = engine
        self.sink = sink          # receives obligations
        self.obs = []
        self.labels = []

    def real(self, name, lo=None, hi=None, nonzero=False):
        from .sym import SymReal
        from .poly import Poly
        i = self.e.declare(name, lo, hi)
        self.e.inputs[name] = i
        x = SymReal(Poly.var(i), ())
        if nonzero:
            self.e.assume(x != 0)
        return x

    def choice(self, name, n):
        x = self.real(name, 0, n - 1)
        for k in range(n - 1):
            if x == k:
                return k
        self.e.assume(x == n - 1)
        return n - 1

    def assume(self, c):
        self.e.assume(c)

    def check(self, c, label):
        self.labels.append(label)
        self.sink.obligation(self, c, label)

    def near(self, a, b, tol=None):
        from . import sym
        if a is None or b is None:
            return a is b
        if isinstance(a, (complex, sym.SymComplex)) or isinstance(b, (complex, sym.SymComplex)):
            a, b = sym.l_complex(a), sym.l_complex(b)
            return sym.And(self.near(a.re, b.re), self.near(a.im, b.im))
        if not sym.is_sym(a) and not sym.is_sym(b):
            return ConCtx.near(self, a, b, tol)
        return a == b

    def eq(self, a, b, label, tol=None):
        self.labels.append(label)
        self.observe(label + "/a", a)
        self.observe(label + "/b", b)
        self.sink.equality(self, a, b, label, self.TOL if tol is None else tol)

    def same(self, a, b):
        return a == b

    def le(self, a, b, label, tol=None):
        from . import sym
        self.labels.append(label)
        tol = self.TOL if tol is None else tol
        if not sym.is_sym(a) and not sym.is_sym(b):
            self.sink.obligation(self, a <= b + tol * (1 + abs(a) + abs(b)), label)
            return
        strict = a <= b
        slack = a - b
        if not sym.is_sym(slack):
            self.sink.obligation(self, slack <= tol, label)
            return
        # exact first; the tolerance only when the exact claim fails
        self.sink.obligation(self, strict, label, relaxed=lambda: slack * slack <= tol * tol * (1 + a * a + b * b))

    def observe(self, label, v):
        from . import sym
        if isinstance(v, (complex, sym.SymComplex)):
            c = sym.l_complex(v)
            self.obs.append((label + ".re", c.re))
            self.obs.append((label + ".im", c.im))
        elif isinstance(v, sym.SymBool):
            pass
        elif v is None or isinstance(v, (bool, str)) or sym.is_sym(v):
            self.obs.append((label, v))
        else:
            try:
                self.obs.append((label, float(v)))
            except (TypeError, ValueError):
                self.obs.append((label, str(type(v))))

    def reached(self, label):
        self.sink.reached(label)

    def note(self, text):
        self.sink.note(text)

    @staticmethod
    def And(*c):
        from . import sym
        return sym.And(*c)

    @staticmethod
    def Or(*c):
        from . import sym
        return sym.Or(*c)

    @staticmethod
    def Not(c):
        from . import sym
        return sym.Not(c)

    @staticmethod
    def Implies(a, b):
        from . import sym
        return sym.Implies(a, b)

    def sqrt(self, x):
        from . import sym
        return sym.sqrt(x)

    def sin(self, x):
        from . import sym
        return sym.sin(x)

    def cos(self, x):
        from . import sym
        return sym.cos(x)

    def tan(self, x):
        from . import sym
        return sym.tan(x)

    def exp(self, x):
        from . import sym
        return sym.exp(x)

    def asin(self, x):
        from . import sym
        return sym.asin(x)

    def decide(self, c):
        return bool(c)

    def is_finite(self, x):
        from . import sym
        return x is not None and sym.isfinite(x)

    def use_random(self):
        self.e.meta["random"] = True
