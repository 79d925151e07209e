"""Sparse multivariate polynomials with rational coefficients.

A monomial is a sorted tuple of variable indices, with repetition.
"""
from fractions import Fraction
import random

P = (1 << 61) - 1          # prime for quick divisibility filters
VARS = []                  # index -> name
SQUARES = {}               # index of a sqrt atom -> Poly equal to its square
_rnd = random.Random(12345)
_points = {}               # index -> random residue


def new_var(name):
    VARS.append(name)
    return len(VARS) - 1


def _pt(v):
    p = _points.get(v)
    if p is None:
        p = _points[v] = _rnd.randrange(2, P - 1)
    return p


def _key(m):
    return (len(m), m)


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_h", "_z", "_vars")

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._z = None
        self._vars = None

    # ---- constructors
    @staticmethod
    def const(c):
        if type(c) is float:
            c = Fraction(c)
        c = _norm(c)
        return Poly({(): c}) if c != 0 else Poly({})

    @staticmethod
    def var(i):
        return Poly({(i,): 1})

    # ---- queries
    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def vars(self):
        if self._vars is None:
            s = set()
            for m in self.t:
                s.update(m)
            self._vars = frozenset(s)
        return self._vars

    def degree(self):
        return max((len(m) for m in self.t), default=0)

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or self.t == o.t

    # ---- arithmetic
    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            s = r.get(m)
            if s is None:
                r[m] = c
            else:
                s = s + c
                if s == 0:
                    del r[m]
                else:
                    r[m] = _norm(s)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return Poly({})
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                c = c1 * c2
                s = r.get(m)
                r[m] = c if s is None else s + c
        r = {m: _norm(c) for m, c in r.items() if c != 0}
        p = Poly(r)
        if SQUARES:
            p = p._reduce_squares()
        return p

    def _reduce_squares(self):
        todo = None
        for m in self.t:
            for i in range(len(m) - 1):
                if m[i] == m[i + 1] and m[i] in SQUARES:
                    todo = m[i]
                    break
            if todo is not None:
                break
        if todo is None:
            return self
        keep, out = {}, Poly({})
        sq = SQUARES[todo]
        for m, c in self.t.items():
            n = m.count(todo)
            if n < 2:
                keep[m] = c
                continue
            rest = [x for x in m if x != todo] + ([todo] if n % 2 else [])
            q = Poly({tuple(sorted(rest)): c})
            for _ in range(n // 2):
                q = q * sq
            out = out + q
        return (Poly(keep) + out)._reduce_squares()

    def pow(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    # ---- structure
    def lead(self):
        return max(self.t, key=_key)

    def monic(self):
        """(coefficient, monic polynomial)"""
        c = self.t[self.lead()]
        if c == 1:
            return 1, self
        return c, self.scale(Fraction(1) / c)

    def mono_content(self):
        """Largest monomial dividing every term."""
        it = iter(self.t)
        first = next(it)
        cnt = {}
        for v in first:
            cnt[v] = cnt.get(v, 0) + 1
        for m in it:
            if not cnt:
                break
            for v in list(cnt):
                k = m.count(v)
                if k < cnt[v]:
                    if k:
                        cnt[v] = k
                    else:
                        del cnt[v]
        out = []
        for v in sorted(cnt):
            out += [v] * cnt[v]
        return tuple(out)

    def div_mono(self, mono):
        if not mono:
            return self
        r = {}
        for m, c in self.t.items():
            l = list(m)
            for v in mono:
                l.remove(v)
            r[tuple(l)] = c
        return Poly(r)

    def divides_var(self, v):
        return all(v in m for m in self.t)

    def _univariate_mod(self, x):
        """coefficients (mod P) in variable x after substituting random points."""
        co = {}
        for m, c in self.t.items():
            k = 0
            if type(c) is Fraction:
                val = c.numerator % P * pow(c.denominator % P, -1, P) % P
            else:
                val = c % P
            for v in m:
                if v == x:
                    k += 1
                else:
                    val = val * _pt(v) % P
            co[k] = (co.get(k, 0) + val) % P
        n = max(co) if co else 0
        l = [co.get(i, 0) for i in range(n + 1)]
        while l and l[-1] == 0:
            l.pop()
        return l

    def exact_div(self, q):
        """self / q when exact, else None."""
        if not self.t:
            return self
        if q.is_const():
            return self.scale(Fraction(1) / q.const_value())
        if not q.vars() <= self.vars():
            return None
        if len(q.t) == 1:
            (m, c), = q.t.items()
            need = {}
            for v in m:
                need[v] = need.get(v, 0) + 1
            for mm in self.t:
                for v, k in need.items():
                    if mm.count(v) < k:
                        return None
            return self.div_mono(m).scale(Fraction(1) / c)
        # filter
        if True:
            x = min(q.vars(), key=lambda v: (max(m.count(v) for m in q.t), v))
            a, b = self._univariate_mod(x), q._univariate_mod(x)
            if len(b) > 1:
                inv = pow(b[-1], -1, P)
                a = a[:]
                while len(a) >= len(b):
                    f = a[-1] * inv % P
                    if f:
                        sh = len(a) - len(b)
                        for i, bv in enumerate(b):
                            a[sh + i] = (a[sh + i] - f * bv) % P
                    a.pop()
                if any(a):
                    return None
        lm = q.lead()
        lc = q.t[lm]
        need = {}
        for v in lm:
            need[v] = need.get(v, 0) + 1
        r = dict(self.t)
        out = {}
        steps = 0
        while r:
            m = max(r, key=_key)
            steps += 1
            if steps > 4000:
                return None
            l = list(m)
            for v in lm:
                if v in l:
                    l.remove(v)
                else:
                    return None
            qm = tuple(l)
            c = r[m] * Fraction(1) / lc if lc != 1 else r[m]
            c = _norm(c)
            out[qm] = c
            for m2, c2 in q.t.items():
                mm = tuple(sorted(qm + m2))
                s = r.get(mm, 0) - c * c2
                if s == 0:
                    r.pop(mm, None)
                else:
                    r[mm] = _norm(s)
        return Poly(out)

    def subst(self, table):
        """replace variables by polynomials"""
        out = {}
        rest = Poly({})
        for m, c in self.t.items():
            if any(v in table for v in m):
                q = Poly({tuple(v for v in m if v not in table): c})
                for v in m:
                    if v in table:
                        q = q * table[v]
                        if not q.t:
                            break
                rest = rest + q
            else:
                out[m] = c
        return Poly(out) + rest

    def eval(self, env):
        """env: index -> Fraction/float"""
        s = 0
        for m, c in self.t.items():
            x = c
            for v in m:
                x = x * env[v]
            s = s + x
        return s

    def __repr__(self):
        def mono(m):
            return "*".join(VARS[v] for v in m)
        parts = []
        for m in sorted(self.t, key=_key, reverse=True):
            c = self.t[m]
            parts.append(f"{c}" if not m else (mono(m) if c == 1 else f"{c}*{mono(m)}"))
        return " + ".join(parts) or "0"
