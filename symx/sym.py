"""Symbolic reals, complex numbers and booleans, and the path explorer."""
import math
import cmath
import os
import time
import traceback
import numbers
from fractions import Fraction
import z3
from .poly import Poly, VARS, SQUARES, new_var
from . import poly as PM
from . import solver as SV

NEG, ZER, POS = -1, 0, 1
LT, LE, EQ, GE, GT, NE = (frozenset((-1,)), frozenset((-1, 0)), frozenset((0,)),
                          frozenset((0, 1)), frozenset((1,)), frozenset((-1, 1)))
ALL = frozenset((-1, 0, 1))
NONE = frozenset()


class PathAbort(BaseException):
    """the current path is infeasible, assumed away, or cut by a bound"""
    def __init__(self, why):
        self.why = why


class Unsupported(Exception):
    pass


def _flip(S):
    return frozenset(-s for s in S)


def q_items(p):
    return frozenset(p.t.items())


def _zdict(t):
    """{monomial: coefficient} of a z3 arithmetic term, or None"""
    k = t.decl().kind()
    if z3.is_rational_value(t):
        c = Fraction(t.numerator_as_long(), t.denominator_as_long())
        return {(): c} if c else {}
    if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
        return {(t.decl().name(),): Fraction(1)}
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        out = {}
        for i, a in enumerate(t.children()):
            d = _zdict(a)
            if d is None:
                return None
            sg = -1 if k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and i) else 1
            for m, c in d.items():
                out[m] = out.get(m, 0) + sg * c
        return {m: c for m, c in out.items() if c}
    if k == z3.Z3_OP_MUL:
        out = {(): Fraction(1)}
        for a in t.children():
            d = _zdict(a)
            if d is None or (len(d) > 1 and len(out) > 1):
                return None
            new = {}
            for m, c in out.items():
                for m2, c2 in d.items():
                    q = tuple(sorted(m + m2))
                    new[q] = new.get(q, 0) + c * c2
            out = new
        return out
    return None


_RELS = {z3.Z3_OP_LE: ("le", 1), z3.Z3_OP_GE: ("le", -1), z3.Z3_OP_LT: ("lt", 1), z3.Z3_OP_GT: ("lt", -1), z3.Z3_OP_EQ: ("eq", 1)}


def zkey(f):
    """a key of a formula that does not depend on the order z3 gives its parts"""
    k = f.decl().kind()
    if k == z3.Z3_OP_NOT:
        return _negkey(zkey(f.arg(0)))
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        return ("and" if k == z3.Z3_OP_AND else "or", frozenset(zkey(a) for a in f.children()))
    if k in _RELS and f.arg(0).sort() == z3.RealSort():
        a, b = _zdict(f.arg(0)), _zdict(f.arg(1))
        if a is not None and b is not None:
            op, sg = _RELS[k]
            d = dict(a)
            for m, c in b.items():
                d[m] = d.get(m, 0) - c
            d = {m: sg * c for m, c in d.items() if c}
            if d:
                lead = abs(d[min(d)]) if op != "eq" else d[min(d)]
                d = {m: c / lead for m, c in d.items()}
            return (op, frozenset(d.items()))
    cs = [zkey(a) if z3.is_bool(a) else str(a) for a in f.children()]
    return (f.decl().name(), tuple(cs))


def _negkey(k):
    if k[0] == "le":          # not (d <= 0)  <->  -d < 0
        return ("lt", frozenset((m, -c) for m, c in k[1]))
    if k[0] == "lt":
        return ("le", frozenset((m, -c) for m, c in k[1]))
    if k[0] in ("and", "or"):
        return ("or" if k[0] == "and" else "and", frozenset(_negkey(x) for x in k[1]))
    if k[0] == "not":
        return k[1]
    return ("not", k)


class Engine:
    """explores the paths of one harness case."""
    current = None

    def __init__(self, timeout=4.0, max_decisions=4000):
        self.timeout = timeout
        self.max_decisions = max_decisions
        self.work = []                 # (prefix)
        self.unknown_branches = 0
        self.concretised = 0
        self.branch_queries = 0
        self.where = {}
        self.nodes = {}                # node of the decision tree -> the condition decided there
        self.reset_path(())

    # ------------------------------------------------------------ per path
    def reset_path(self, prefix, model=None):
        self.prefix = prefix
        self.decisions = []
        self.node = 0
        self.pc = []
        self.pcset = set()
        self.signs = {}
        self.subst = {}                # variables eliminated by such equalities
        self.zeros = []                # polynomials known to be zero on this path
        self.memo = {}
        self.model = None
        self.hint = model
        self.inputs = {}               # name -> var index, in order
        self.meta = {}
        self.range = {}                # var -> (lo, hi)
        self.declared = set()
        self.aborting = None
        self.fresh = {}
        self.deadline = None
        self.trace_notes = []

    def add(self, f):
        k = f.get_id()
        if k in self.pcset:
            return
        self.pcset.add(k)
        self.pc.append(f)
        if self.model is not None:
            v = self.model.eval(f, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    # ------------------------------------------------------------ variables
    def declare(self, name, lo=None, hi=None):
        i = _named(name)
        if i in self.declared:
            return i
        self.declared.add(i)
        z = SV.zvar(i)
        if lo is not None:
            self.add(z >= SV.zc(_frac(lo)))
        if hi is not None:
            self.add(z <= SV.zc(_frac(hi)))
        self.range[i] = (None if lo is None else _frac(lo), None if hi is None else _frac(hi))
        p = Poly.var(i)
        s = set((-1, 0, 1))
        if lo is not None and lo >= 0:
            s.discard(-1)
            if lo > 0:
                s.discard(0)
        if hi is not None and hi <= 0:
            s.discard(1)
            if hi < 0:
                s.discard(0)
        if len(s) < 3:
            self.signs[p] = frozenset(s)
        return i

    def need(self, i):
        """declare an auxiliary atom's axioms on this path"""
        if i in self.declared:
            return
        self.declared.add(i)
        for f in AXIOMS[i]():
            self.add(f)
        s = AXSIGN.get(i)
        if s is not None:
            self.signs[Poly.var(i)] = s

    # ------------------------------------------------------------ signs
    def set_sign(self, p, S):
        self.signs[p] = S
        if S == EQ:
            self._add_zero(p)

    def _canon_zero(self, z):
        """drop the factors of z known to be nonzero (z itself is zero)"""
        mono = z.mono_content()
        drop = [v for v in mono if 0 not in self.signs.get(Poly.var(v), ALL)]
        if drop:
            z = z.div_mono(tuple(drop))
        for q, s in list(self.signs.items()):
            if 0 not in s and len(q.t) > 1 and q.vars() <= z.vars() and q.degree() < z.degree():
                r = z.exact_div(q)
                if r is not None:
                    z = r
        return z.monic()[1]

    def _add_zero(self, p):
        if self.subst and not p.vars().isdisjoint(self.subst):
            p = p.subst(self.subst)
        if p.is_const():
            return
        p = self._canon_zero(p)
        if p.is_const():
            return
        # v + constant, or v +- w : substitute v away
        if len(p.t) <= 2 and p.degree() == 1:
            v = max(m[0] for m in p.t if m)
            k = p.t[(v,)]
            rest = (Poly({(v,): k}) - p).scale(Fraction(1) / k)
            for w in list(self.subst):
                if v in self.subst[w].vars():
                    self.subst[w] = self.subst[w].subst({v: rest})
            self.subst[v] = rest
            old, self.zeros = self.zeros, []
            for z in old:
                self._add_zero(z)
        elif p not in self.zeros:
            self.zeros.append(p)

    def var_sign(self, i):
        return self.signs.get(Poly.var(i), ALL)

    def _bounds(self, p):
        """interval of p from the variables' declared ranges (None = unbounded)"""
        if len(p.t) > 12:
            return None, None
        lo = hi = Fraction(0)
        for m, c in p.t.items():
            a = b = Fraction(1)
            i = 0
            while i < len(m):
                v = m[i]
                n = 1
                while i + n < len(m) and m[i + n] == v:
                    n += 1
                i += n
                r = self.range.get(v)
                if r is None or r[0] is None or r[1] is None:
                    return None, None
                l, h = r
                pl, ph = l ** n, h ** n
                if n % 2 == 0:
                    if l <= 0 <= h:
                        pl, ph = Fraction(0), max(pl, ph)
                    elif h < 0:
                        pl, ph = ph, pl
                q = (a * pl, a * ph, b * pl, b * ph)
                a, b = min(q), max(q)
            if c < 0:
                a, b = b, a
            lo += c * a
            hi += c * b
        return lo, hi

    def sign(self, p):
        """possible signs of a polynomial, from cheap facts only"""
        if p.is_const():
            c = p.const_value()
            return frozenset(((c > 0) - (c < 0),))
        c, q = p.monic()
        s = self.signs.get(q)
        if s is None:
            tot = None
            for m, k in q.t.items():
                sg = frozenset(((k > 0) - (k < 0),))
                i = 0
                while i < len(m):
                    v = m[i]
                    n = 1
                    while i + n < len(m) and m[i + n] == v:
                        n += 1
                    i += n
                    vs = self.signs.get(Poly.var(v), ALL)
                    if n % 2 == 0:
                        vs = frozenset(x * x for x in vs)
                    sg = frozenset(a * b for a in sg for b in vs)
                if tot is None:
                    tot = sg
                else:
                    u = tot | sg
                    if u <= GE or u <= LE:
                        # sum of same-sign terms: zero only if all zero
                        tot = u if (0 in tot and 0 in sg) else u - {0}
                    else:
                        tot = ALL
                        break
            s = tot if tot is not None else frozenset((0,))
            if s == ALL:
                lo, hi = self._bounds(q)
                if lo is not None:
                    if lo > 0:
                        s = GT
                    elif lo >= 0:
                        s = GE
                    elif hi < 0:
                        s = LT
                    elif hi <= 0:
                        s = LE
            if s != ALL:
                self.signs[q] = s
        return s if c > 0 else _flip(s)

    def simplify_rel(self, p, S):
        """sign(p) in S  ->  True/False or (canonical p, S)"""
        s = self.sign(p)
        if s <= S:
            return True
        if not (s & S):
            return False
        mono = p.mono_content()
        if mono:
            drop = []
            for v in set(mono):
                n = mono.count(v)
                vs = self.signs.get(Poly.var(v), ALL)
                if 0 not in vs:
                    if len(vs) == 1:
                        drop += [v] * n
                        if vs == LT and n % 2:
                            S = _flip(S)
                    elif n >= 2:
                        drop += [v] * (n - n % 2)
            if drop:
                p = p.div_mono(tuple(drop))
        c, q = p.monic()
        if c < 0:
            S = _flip(S)
        s = self.sign(q)
        if s <= S:
            return True
        if not (s & S):
            return False
        return q, S

    # ------------------------------------------------------------ branching
    def sat(self, extra, model=False, timeout=None):
        r, m = SV.check(self.pc + list(extra), timeout or self.timeout)
        return r, m

    def branch(self, b):
        if self.aborting is not None:
            raise self.aborting
        if isinstance(b, (bool,)):
            return b
        if b.rel is not None:
            r = self.simplify_rel(*b.rel)
            if r is True or r is False:
                return r
            p, S = r
            key = None
            f = None
        else:
            p = None
            f = z3.simplify(b.z)
            if z3.is_true(f):
                return True
            if z3.is_false(f):
                return False
            key = zkey(f)
            if key in self.memo:
                return self.memo[key][0]
            opp = _negkey(key)
            if opp in self.memo:
                return not self.memo[opp][0]
        n = len(self.decisions)
        if n >= self.max_decisions:
            self.abort("decision bound reached")
        if self.deadline is not None and time.time() > self.deadline:
            self.abort("time limit of the case reached")
        if p is not None:
            cur = self.sign(p)
            f = SV.zrel(p, S)
            nf = SV.zrel(p, ALL - S)
        else:
            nf = z3.Not(f)
        fp = hash((q_items(p), S)) if p is not None else hash(key)
        if os.environ.get("SYMX_NODES"):
            where = [f"{os.path.basename(x.filename)}:{x.lineno}" for x in traceback.extract_stack() if "symx" not in x.filename][-5:]
            w0 = self.where.setdefault((n, self.node), where + [str(f)])
            if self.nodes.get((n, self.node), fp) != fp:
                with open(os.environ["SYMX_NODES"], "a") as out:
                    print(n, w0, "\n   now", where, f, file=out)
        if self.nodes.setdefault((n, self.node), fp) != fp:
            self.abort("not deterministic: the same decisions led to another condition")
        if n < len(self.prefix):
            d = self.prefix[n]
            forced = False
            if isinstance(d, tuple):
                d, forced = d
        else:
            forced = False
            side = None
            if self.model is None and self.hint is not None:
                if all(z3.is_true(self.hint.eval(g, model_completion=True)) for g in self.pc):
                    self.model = self.hint
                self.hint = None
            if self.model is not None:
                v = self.model.eval(f, model_completion=True)
                if z3.is_true(v):
                    side = True
                elif z3.is_false(v):
                    side = False
            if side is None:
                self.branch_queries += 1
                r, m = self.sat([f])
                if r == "sat":
                    side, self.model = True, m
                elif r == "unsat":
                    side = False
                    forced = True
                    # pc is satisfiable, or this path was already dead
                    r2, m2 = self.sat([nf])
                    if r2 == "unsat":
                        self.abort("infeasible")
                    if r2 == "sat":
                        self.model = m2
                    else:
                        self.unknown_branches += 1
                else:
                    self.unknown_branches += 1
                    side = True
                    self.work.append((tuple(self.decisions) + (False,), None))
                    d = True
                    self._take(d, p, S if p is not None else None, key, f, nf, False)
                    return d
            d = side
            if not forced:
                self.branch_queries += 1
                r, m = self.sat([nf if d else f])
                if r == "unsat":
                    forced = True
                else:
                    if r == "unknown":
                        self.unknown_branches += 1
                    self.work.append((tuple(self.decisions) + (not d,), m))
        self._take(d, p, S if p is not None else None, key, f, nf, forced)
        return d

    def _take(self, d, p, S, key, f, nf, forced):
        self.decisions.append((d, True) if forced else d)
        self.node = hash((self.node, bool(d)))
        if p is not None:
            cur = self.sign(p)
            self.set_sign(p, (cur & S) if d else (cur - S))
        else:
            self.memo[key] = (d, f)    
        if not forced:
            self.add(f if d else nf)

    def abort(self, why):
        self.aborting = PathAbort(why)
        raise self.aborting

    def assume(self, cond):
        """add an assumption without forking; abort when it cannot hold"""
        if self.aborting is not None:
            raise self.aborting
        b = as_bool(cond)
        if b is True:
            return
        if b is False:
            self.abort("assumption")
        if b.rel is not None:
            r = self.simplify_rel(*b.rel)
            if r is True:
                return
            if r is False:
                self.abort("assumption")
            p, S = r
            f = SV.zrel(p, S)
            self.set_sign(p, self.sign(p) & S)
        else:
            f = b.z
        self.add(f)
        if self.model is None and len(self.decisions) >= len(self.prefix):
            r, m = self.sat([])
            if r == "unsat":
                self.abort("assumption")
            self.model = m if r == "sat" else None

    def concretise(self, x):
        """pick one value for a symbolic real (recorded: not exhaustive)"""
        self.concretised += 1
        r, m = self.sat([])
        if r != "sat":
            self.abort("infeasible")
        env = {}
        for v in set().union(*(q.vars() for q, _ in x.den), x.num.vars()):
            env[v], _ = SV.model_value(m, v)
        val = x.num.eval(env)
        for q, e in x.den:
            val = val / q.eval(env) ** e
        val = Fraction(val)
        self.assume(x == val)
        return float(val)


def eng():
    e = Engine.current
    if e is None:
        raise Unsupported("symbolic value used outside a symbolic run")
    return e


# ---------------------------------------------------------------- variables
_names = {}
AXIOMS = {}      # var -> callable returning z3 formulas
AXSIGN = {}
ATOMDEF = {}     # var -> (function name, argument key, SymReal argument)
_atoms = {}


def _named(name):
    i = _names.get(name)
    if i is None:
        i = _names[name] = new_var(name)
    return i


def _frac(c):
    return c if isinstance(c, Fraction) else Fraction(c)


def atom(fname, arg, axioms, sign=None, extra=()):
    """memoised uninterpreted atom fname(arg)"""
    key = (fname, arg.key()) + tuple(extra)
    i = _atoms.get(key)
    if i is None:
        i = new_var(f"{fname}${len(_atoms)}")
        _atoms[key] = i
        ATOMDEF[i] = (fname, arg)
        AXIOMS[i] = lambda: axioms(SV.zvar(i), i)
        if sign is not None:
            AXSIGN[i] = sign
    eng().need(i)
    return SymReal(Poly.var(i), ())


# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("rel", "_zz")

    def __init__(self, z=None, rel=None):
        self.rel = rel
        self._zz = z

    @property
    def z(self):
        if self._zz is None:
            self._zz = SV.zrel(*self.rel)
        return self._zz

    def __bool__(self):
        return eng().branch(self)

    def __invert__(self):
        if self.rel is not None:
            return SymBool(rel=(self.rel[0], ALL - self.rel[1]))
        return SymBool(z3.Not(self.z))

    def __and__(self, o):
        o = as_bool(o)
        if o is True:
            return self
        if o is False:
            return False
        return SymBool(z3.And(self.z, o.z))

    __rand__ = __and__

    def __or__(self, o):
        o = as_bool(o)
        if o is False:
            return self
        if o is True:
            return True
        return SymBool(z3.Or(self.z, o.z))

    __ror__ = __or__

    def __xor__(self, o):
        o = as_bool(o)
        if o is False:
            return self
        if o is True:
            return ~self
        return SymBool(z3.Xor(self.z, o.z))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return notb(self.__xor__(o))
        if isinstance(o, (int, float)):
            return notb(self) if o == 0 else (self if o == 1 else False)
        return False

    def __ne__(self, o):
        return notb(self == o)

    def __hash__(self):
        return 11

    def _num(self):
        return 1 if bool(self) else 0

    def __int__(self):
        return self._num()

    __index__ = __int__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (bool, (bool(self),))

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__


def notb(b):
    return ~b if isinstance(b, SymBool) else (not b)


def as_bool(c):
    if isinstance(c, SymBool):
        if c.rel is not None and Engine.current is not None:
            r = eng().simplify_rel(*c.rel)
            if r is True or r is False:
                return r
        return c
    return bool(c)


def z_of(c):
    c = as_bool(c)
    if c is True or c is False:
        return z3.BoolVal(c)
    return c.z


def And(*cs):
    r = True
    for c in cs:
        c = as_bool(c)
        if c is False:
            return False
        r = c if r is True else (r if c is True else r & c)
    return r


def Or(*cs):
    r = False
    for c in cs:
        c = as_bool(c)
        if c is True:
            return True
        r = c if r is False else (r if c is False else r | c)
    return r


def Not(c):
    return notb(as_bool(c))


def Implies(a, b):
    return Or(Not(a), b)


# ---------------------------------------------------------------- reals
_serial = {}
_tokens = []
TOKEN = "9e7%09d77"       # numeric-looking tokens, recognised by float()


def mk(num, den):
    """normalised value: python float when it is a constant float"""
    if num.is_zero():
        return 0.0
    e = Engine.current
    if e is not None and e.zeros and not num.is_const():
        nv = num.vars()
        if e.subst and not nv.isdisjoint(e.subst):
            num = num.subst(e.subst)
            if num.is_zero():
                return 0.0
            nv = num.vars()
        for q in e.zeros:
            if q.vars() <= nv and num.exact_div(q) is not None:
                return 0.0
    if den:
        nd = []
        for q, e in den:
            while e:
                d = num.exact_div(q)
                if d is None:
                    break
                num = d
                e -= 1
            if e:
                nd.append((q, e))
        den = tuple(nd)
    if not den and num.is_const():
        c = num.const_value()
        f = float(c)
        if Fraction(f) == c:
            return f
    return SymReal(num, den)


def _lift(o):
    """-> SymReal, or a python float that is inf/nan, or None"""
    if type(o) is SymReal:
        return o
    if type(o) is AbsReal:
        return _lift(o.force())
    if isinstance(o, bool):
        return SymReal(Poly.const(int(o)), ())
    if isinstance(o, (int, Fraction)):
        return SymReal(Poly.const(o), ())
    if isinstance(o, float):
        if math.isfinite(o):
            return SymReal(Poly.const(Fraction(float(o))), ())
        return float(o)
    if isinstance(o, SymBool):
        return SymReal(Poly.const(int(bool(o))), ())
    if isinstance(o, numbers.Integral):
        return SymReal(Poly.const(int(o)), ())
    if isinstance(o, numbers.Real):
        return _lift(float(o))
    if hasattr(o, "dtype") and getattr(o, "shape", None) == ():
        return _lift(o.item())
    return None


def _split(num):
    """num -> (coefficient, [(monic factor, exp)]) by content only"""
    mono = num.mono_content()
    rest = num.div_mono(mono) if mono else num
    fs = []
    for v in sorted(set(mono)):
        fs.append((Poly.var(v), mono.count(v)))
    c, q = rest.monic()
    if not q.is_const():
        fs.append((q, 1))
    return c, fs


def _mulden(d1, d2):
    if not d1:
        return d2
    if not d2:
        return d1
    r = dict(d1)
    for q, e in d2:
        r[q] = r.get(q, 0) + e
    return tuple(r.items())


def denpoly(den):
    p = Poly.const(1)
    for q, e in den:
        for _ in range(e):
            p = p * q
    return p


class SymReal:
    __slots__ = ("num", "den", "_id", "__weakref__")
    __array_priority__ = 10000

    def __init__(self, num, den=()):
        self.num = num
        self.den = den
        self._id = None

    def key(self):
        return (self.num, frozenset(self.den))

    def is_const(self):
        return not self.den and self.num.is_const()

    def const(self):
        return Fraction(self.num.const_value())

    # ---- arithmetic
    def __add__(self, o):
        o = _lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        if not self.den and not o.den:
            return mk(self.num + o.num, ())
        d1, d2 = dict(self.den), dict(o.den)
        m1 = m2 = Poly.const(1)
        den = dict(d1)
        for q, e in d2.items():
            k = d1.get(q, 0)
            if e > k:
                den[q] = e
                m1 = m1 * q.pow(e - k)
        for q, k in d1.items():
            e = d2.get(q, 0)
            if k > e:
                m2 = m2 * q.pow(k - e)
        return mk(self.num * m1 + o.num * m2, tuple(den.items()))

    __radd__ = __add__

    def __neg__(self):
        return SymReal(-self.num, self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return -o
        return self + (-o)

    def __rsub__(self, o):
        o = _lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        return o + (-self)

    def __mul__(self, o):
        l = _lift(o)
        if l is None:
            if isinstance(o, complex):
                return SymComplex(self, 0.0) * o
            return NotImplemented
        o = l
        if isinstance(o, float):
            if o != o:
                return o
            if self > 0:
                return o
            if self < 0:
                return -o
            return float("nan")
        n1, n2 = self.num, o.num
        d1, d2 = [], []
        for q, e in o.den:
            while e:
                d = n1.exact_div(q)
                if d is None:
                    break
                n1 = d
                e -= 1
            if e:
                d2.append((q, e))
        for q, e in self.den:
            while e:
                d = n2.exact_div(q)
                if d is None:
                    break
                n2 = d
                e -= 1
            if e:
                d1.append((q, e))
        num = n1 * n2
        if num.is_zero():
            return 0.0
        den = _mulden(tuple(d1), tuple(d2))
        return mk(num, den)

    def __rmul__(self, o):
        return self * o

    def inverse(self):
        if self.is_const():
            c = self.const()
            if c == 0:
                raise ZeroDivisionError("float division by zero")
            return SymReal(Poly.const(1 / c), ())
        if bool(self == 0):
            raise ZeroDivisionError("float division by zero")
        c, fs = _split(self.num)
        n = Poly.const(Fraction(1) / c)
        for q, e in self.den:
            n = n * q.pow(e)
        return SymReal(n, tuple(fs))

    def __truediv__(self, o):
        l = _lift(o)
        if l is None:
            if isinstance(o, complex):
                return SymComplex(self, 0.0) / o
            return NotImplemented
        o = l
        if isinstance(o, float):
            return o if o != o else 0.0
        if not o.den and o.num.is_const():
            c = o.num.const_value()
            if c == 0:
                raise ZeroDivisionError("float division by zero")
            return SymReal(self.num.scale(Fraction(1) / c), self.den)
        return self * o.inverse()

    def __rtruediv__(self, o):
        l = _lift(o)
        if l is None:
            if isinstance(o, complex):
                return SymComplex(l_complex(o).re, l_complex(o).im) / self
            return NotImplemented
        if isinstance(l, float):
            if l != l:
                return l
            if self > 0:
                return l
            if self < 0:
                return -l
            raise ZeroDivisionError("float division by zero")
        return l * self.inverse()

    def __pow__(self, n, mod=None):
        if isinstance(n, SymReal):
            if n.is_const():
                n = float(n.const())
            else:
                raise Unsupported("symbolic exponent")
        if isinstance(n, numbers.Integral) or (isinstance(n, float) and n.is_integer()):
            n = int(n)
            if n == 0:
                return 1.0
            if n < 0:
                return 1.0 / (self ** (-n))
            r = self
            for _ in range(n - 1):
                r = r * self
            return r
        if isinstance(n, (float, Fraction)) and (2 * n) == int(2 * n):
            k = int(2 * n)
            if bool(self < 0):
                s = SymComplex(0.0, sqrt(-self))
            elif bool(self == 0):
                if k < 0:
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                return 0.0
            else:
                s = sqrt(self)
            return s ** k
        raise Unsupported(f"exponent {n}")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        s = self.sign()
        if s <= GE:
            return self
        if s <= LE:
            return -self
        return AbsReal(self)

    def __floordiv__(self, o):
        return math_floor(self / o)

    def __mod__(self, o):
        return self - o * math_floor(self / o)

    def __rmod__(self, o):
        return o - self * math_floor(o / self)

    def __divmod__(self, o):
        q = self // o
        return q, self - o * q

    # ---- signs and comparisons
    def sign(self):
        """possible signs from cheap facts"""
        e = eng()
        s = e.sign(self.num)
        for q, k in self.den:
            if k % 2:
                qs = e.sign(q) - {0}
                s = frozenset(a * b for a in s for b in qs)
        return s

    def rel(self, S):
        """SymBool / bool: sign(self) in S"""
        e = eng()
        if e.zeros or e.subst:
            r = mk(self.num, self.den)
            if not isinstance(r, SymReal):
                return ((r > 0) - (r < 0)) in S
            if r.num is not self.num:
                self = r
        p = self.num
        for q, k in self.den:
            if k % 2:
                qs = e.sign(q) - {0}
                if qs == GT:
                    continue
                if qs == LT:
                    S = _flip(S)
                elif S == EQ or S == NE:
                    continue
                else:
                    p = p * q
        r = e.simplify_rel(p, S)
        if r is True or r is False:
            return r
        return SymBool(rel=r)

    def _cmp(self, o, S, infpos, infneg):
        if type(o) is AbsReal:
            return o._cmp(self, _flip(S), None, None)
        l = _lift(o)
        if l is None:
            return NotImplemented
        if isinstance(l, float):
            if l != l:
                return S == NE
            return infpos if l > 0 else infneg
        if l.is_const() and l.num.is_zero():
            return self.rel(S)
        d = self - l
        if isinstance(d, float):
            return (((d > 0) - (d < 0)) in S)
        return d.rel(S)

    def __lt__(self, o):
        return self._cmp(o, LT, True, False)

    def __le__(self, o):
        return self._cmp(o, LE, True, False)

    def __gt__(self, o):
        return self._cmp(o, GT, False, True)

    def __ge__(self, o):
        return self._cmp(o, GE, False, True)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, (SymComplex, complex)):
            c = l_complex(o)
            return And(self == c.re, c.im == 0)
        r = self._cmp(o, EQ, False, False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return notb(self == o)

    def __hash__(self):
        if self.is_const():
            return hash(self.const())
        return 7

    def __bool__(self):
        return bool(self != 0)

    # ---- conversions
    def __float__(self):
        if self.is_const():
            return float(self.const())
        return eng().concretise(self)

    def __int__(self):
        return math_trunc(self)

    def __trunc__(self):
        return math_trunc(self)

    def __floor__(self):
        return math_floor(self)

    def __ceil__(self):
        return -math_floor(-self)

    def __round__(self, n=None):
        if n is None:
            return math_floor(self + 0.5)
        return round(float(self), n)

    def __complex__(self):
        return complex(float(self))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    def is_integer(self):
        return bool(self == math_floor(self))

    def item(self):
        return self

    def _token(self):
        if self._id is None:
            _tokens.append(self)
            self._id = len(_tokens) - 1
        return TOKEN % self._id

    def __format__(self, spec):
        if self.is_const():
            return format(float(self.const()), spec)
        return self._token()

    def __str__(self):
        return self.__format__("")

    def __repr__(self):
        d = "".join(f"/({q})^{e}" for q, e in self.den)
        return f"<{self.num}{d}>" if Engine.current is None else self.__format__("")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        self._token()
        return (_from_token, (self._id,))

    # ---- numpy
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return np_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return np_function(func, args, kwargs)

    # methods called by numpy on object arrays
    def sqrt(self):
        return sqrt(self)

    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def tan(self):
        return tan(self)

    def exp(self):
        return exp(self)


numbers.Real.register(SymReal)


def _from_token(i):
    return _tokens[i]


def parse_token(text):
    """float() of a text holding a token -> SymReal or None"""
    t = text.strip()
    neg = False
    if t[:1] in "+-":
        neg = t[:1] == "-"
        t = t[1:]
    if len(t) == 14 and t.startswith("9e7") and t.endswith("77") and t[3:12].isdigit():
        i = int(t[3:12])
        if i < len(_tokens):
            v = _tokens[i]
            return -v if neg else v
    return None


class AbsReal(SymReal):
    """|x| for an x of unknown sign; forks only when arithmetic needs it"""
    __slots__ = ("inner", "_forced")

    def __init__(self, inner):
        self.inner = inner
        self._id = None
        self._forced = None

    def force(self):
        if self._forced is None:
            self._forced = self.inner if bool(self.inner >= 0) else -self.inner
        return self._forced

    @property
    def num(self):
        return self.force().num

    @property
    def den(self):
        return self.force().den

    def __abs__(self):
        return self

    def sign(self):
        return GE

    def rel(self, S):
        return self._cmp(0, S, None, None)

    def __neg__(self):
        return -self.force()

    def _cmp(self, o, S, infpos, infneg):
        if self._forced is not None:
            f = self._forced
            if isinstance(f, SymReal):
                return SymReal._cmp(f, o, S, 1 in _flip(S) if infpos is None else infpos,
                                    -1 in _flip(S) if infneg is None else infneg)
        x = self.inner
        if type(o) is AbsReal:
            y = o.inner
            # |x| ? |y|  <=>  x^2 ? y^2
            d = (x - y) * (x + y)
            if not isinstance(d, SymReal):
                return ((d > 0) - (d < 0)) in S
            return d.rel(S)
        l = _lift(o)
        if l is None:
            return NotImplemented
        if isinstance(l, float):
            if l != l:
                return S == NE
            return (-1 in S) if l > 0 else (1 in S)
        y = l
        if y.is_const() and y.const() < 0:
            return 1 in S
        if y.is_const() and y.const() == 0:
            if S == LT:
                return False
            if S == GE:
                return True
            if S == LE:
                return x == 0
            if S == GT:
                return x != 0
            return x.rel(S)

        def R(d, SS):
            if isinstance(d, SymReal):
                return d.rel(SS)
            return ((d > 0) - (d < 0)) in SS
        a, b = x - y, -x - y
        if S == LT or S == LE:
            return And(R(a, S), R(b, S))
        if S == GT or S == GE:
            return Or(R(a, S), R(b, S))
        if S == EQ:
            return And(R(y, GE), Or(R(a, EQ), R(b, EQ)))
        if S == NE:
            return Not(And(R(y, GE), Or(R(a, EQ), R(b, EQ))))
        raise Unsupported("abs comparison")


def _via_force(name):
    def f(self, *a):
        return getattr(self.force(), name)(*a)
    f.__name__ = name
    return f


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__",
           "__rtruediv__", "inverse", "key", "is_const", "const", "__format__",
           "__reduce__"):
    setattr(AbsReal, _n, _via_force(_n))


def _abs_pow(self, n, mod=None):
    if isinstance(n, numbers.Integral) and n % 2 == 0:
        return self.inner ** n
    return self.force() ** n


AbsReal.__pow__ = _abs_pow
AbsReal.__hash__ = lambda self: 7
AbsReal.__bool__ = lambda self: bool(self.inner != 0)
AbsReal.__eq__ = SymReal.__eq__
AbsReal.__ne__ = SymReal.__ne__


# ---------------------------------------------------------------- functions
def is_sym(x):
    return isinstance(x, (SymReal, SymComplex))


def sqrt(x):
    if isinstance(x, AbsReal):
        x = x.force()
    if not isinstance(x, SymReal):
        return math.sqrt(x)
    if x.is_const():
        c = x.const()
        if c < 0:
            raise ValueError("math domain error")
        return math.sqrt(c)
    if bool(x < 0):
        raise ValueError("math domain error")
    # sqrt(N/D) = sqrt(N*D_odd) / |D_half|
    inner = x.num
    out = 1.0
    for q, e in x.den:
        if e % 2:
            inner = inner * q
            e += 1
        out = out / _abs_forced(SymReal(q, ())) ** (e // 2)
    mono = inner.mono_content()
    drop = []
    for v in sorted(set(mono)):
        k = mono.count(v) // 2
        if k:
            drop += [v] * (2 * k)
            out = out * _abs_forced(SymReal(Poly.var(v), ())) ** k
    if drop:
        inner = inner.div_mono(tuple(drop))
    r = _poly_sqrt(inner)
    if r is not None:
        return out * _abs_forced(mk(r, ()))
    c, inner_m = inner.monic()
    c = Fraction(c)
    if c > 0:
        sc = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if sc[0] ** 2 == c.numerator and sc[1] ** 2 == c.denominator:
            out = out * Fraction(sc[0], sc[1])
            inner = inner_m
    arg = SymReal(inner, ())
    s = atom("sqrt", arg,
             lambda z, i: [z >= 0, z * z == SV.zpoly(inner)], sign=GE)
    (m, _), = s.num.t.items()
    SQUARES[m[0]] = inner
    return s * out


def _poly_sqrt(p):
    """square root of a polynomial that is a perfect square, else None"""
    if p.is_const():
        c = Fraction(p.const_value())
        if c < 0:
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return Poly.const(Fraction(a, b))
        return None
    if len(p.t) > 60:
        return None
    r = Poly({})
    rem = p
    for _ in range(12):
        if rem.is_zero():
            return r
        m = rem.lead()
        c = Fraction(rem.t[m])
        if r.is_zero():
            if c < 0 or any(m.count(v) % 2 for v in set(m)):
                return None
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a != c.numerator or b * b != c.denominator:
                return None
            t = []
            for v in sorted(set(m)):
                t += [v] * (m.count(v) // 2)
            term = Poly({tuple(t): Fraction(a, b)})
        else:
            lm = r.lead()
            l = list(m)
            for v in lm:
                if v not in l:
                    return None
                l.remove(v)
            term = Poly({tuple(l): c / (2 * Fraction(r.t[lm]))})
        r2 = r + term
        rem = p - r2 * r2
        r = r2
    return None


def _abs_forced(x):
    a = abs(x)
    if isinstance(a, AbsReal):
        a = a.force()
    return a


def _canon_arg(x):
    """x -> (sign, x*sign) with a positive leading coefficient"""
    c, _ = x.num.monic()
    return (1, x) if c > 0 else (-1, -x)


def _trig_pair(x):
    s, y = _canon_arg(x)
    zs = atom("sin", y, lambda z, i: [z >= -1, z <= 1])
    zc = atom("cos", y, lambda z, i: [z >= -1, z <= 1])
    e = eng()
    i, j = next(iter(zs.num.vars())), next(iter(zc.num.vars()))
    e.add(SV.zvar(i) * SV.zvar(i) + SV.zvar(j) * SV.zvar(j) == 1)
    if not y.den:
        # cos > 0 on (-pi/2, pi/2);  sin x has the sign of x on (-pi, pi); |sin x| <= |x|
        z = SV.zpoly(y.num)
        h = SV.zc(Fraction(math.pi) / 2)
        e.add(z3.Implies(z3.And(z > -h, z < h), SV.zvar(j) > 0))
        e.add(z3.Implies(z3.And(z > 0, z < 2 * h), z3.And(SV.zvar(i) > 0, SV.zvar(i) < z)))
        e.add(z3.Implies(z3.And(z < 0, z > -2 * h), z3.And(SV.zvar(i) < 0, SV.zvar(i) > z)))
        e.add(z3.Implies(z == 0, z3.And(SV.zvar(i) == 0, SV.zvar(j) == 1)))
    return s, zs, zc


def _asin_arg(x):
    """a when x is asin(a)"""
    if x.den or len(x.num.vars()) != 1:
        return None
    i = next(iter(x.num.vars()))
    f = ATOMDEF.get(i)
    if f is None or f[0] != "asin":
        return None
    v = SymReal(Poly.var(i), ())
    if x.key() == v.key():
        return f[1]
    if x.key() == (-v).key():
        return -f[1]
    return None


def sin(x):
    if isinstance(x, AbsReal):
        x = x.force()
    if not isinstance(x, SymReal):
        return math.sin(x)
    if x.is_const():
        return math.sin(x.const())
    a = _asin_arg(x)
    if a is not None:
        return a
    s, zs, zc = _trig_pair(x)
    return zs if s > 0 else -zs


def cos(x):
    if isinstance(x, AbsReal):
        x = x.inner
    if not isinstance(x, SymReal):
        return math.cos(x)
    if x.is_const():
        return math.cos(x.const())
    a = _asin_arg(x)
    if a is not None:
        return sqrt(1 - a * a)
    return _trig_pair(x)[2]


def tan(x):
    if not isinstance(x, SymReal):
        return math.tan(x)
    return sin(x) / cos(x)


def exp(x):
    if isinstance(x, AbsReal):
        x = x.force()
    if not isinstance(x, SymReal):
        return math.exp(x)
    if x.is_const():
        return math.exp(x.const())

    def ax(z, i):
        r = [z > 0]
        if not x.den:
            a = SV.zpoly(x.num)
            r += [z >= 1 + a, z3.Implies(a < 0, z < 1), z3.Implies(a == 0, z == 1)]
        return r
    return atom("exp", x, ax, sign=GT)


def log(x, *base):
    if not isinstance(x, SymReal):
        return math.log(x, *base)
    if bool(x <= 0):
        raise ValueError("math domain error")
    return atom("log", x, lambda z, i: [])


def asin(x):
    if isinstance(x, AbsReal):
        x = x.force()
    if not isinstance(x, SymReal):
        return math.asin(x)
    if x.is_const():
        return math.asin(x.const())
    if bool(x > 1) or bool(x < -1):
        raise ValueError("math domain error")
    h = SV.zc(Fraction(math.pi) / 2)
    s, y = _canon_arg(x)
    r = atom("asin", y, lambda z, i: [z >= -h, z <= h])
    return r if s > 0 else -r


def acos(x):
    if not is_sym(x):
        return math.acos(x)
    return math.pi / 2 - asin(x)


def atan(x):
    if isinstance(x, AbsReal):
        x = x.force()
    if not isinstance(x, SymReal):
        return math.atan(x)
    if x.is_const():
        return math.atan(x.const())
    h = SV.zc(Fraction(math.pi) / 2)
    s, y = _canon_arg(x)

    def ax(z, i):
        r = [z > -h, z < h]
        if not y.den:
            a = SV.zpoly(y.num)
            r += [z3.Implies(a > 0, z3.And(z > 0, z < a)), z3.Implies(a < 0, z3.And(z < 0, z > a)),
                  z3.Implies(a == 0, z == 0)]
        return r
    r = atom("atan", y, ax)
    return r if s > 0 else -r


def atan2(y, x):
    if not is_sym(x) and not is_sym(y):
        return math.atan2(y, x)
    if bool(_sr(x) > 0):
        return atan(y / x)
    if bool(_sr(x) < 0):
        return atan(y / x) + (math.pi if bool(_sr(y) >= 0) else -math.pi)
    if bool(_sr(y) > 0):
        return math.pi / 2
    if bool(_sr(y) < 0):
        return -math.pi / 2
    return 0.0


def _sr(x):
    return x


def math_floor(x):
    """floor by a case split on small integers, else a concrete value"""
    if isinstance(x, AbsReal):
        x = x.force()
    if not isinstance(x, SymReal):
        return math.floor(x)
    if x.is_const():
        return math.floor(x.const())
    e = eng()
    for k in range(0, 64):
        for v in ((k,) if k == 0 else (k, -k)):
            if bool(And(x >= v, x < v + 1)):
                return v
    return math.floor(e.concretise(x))


def math_trunc(x):
    if isinstance(x, AbsReal):
        x = x.force()
    if not isinstance(x, SymReal):
        return math.trunc(x)
    if x.is_const():
        return math.trunc(x.const())
    if bool(x >= 0):
        return math_floor(x)
    return -math_floor(-x)


def hypot(*xs):
    s = 0.0
    for x in xs:
        s = s + x * x
    return sqrt(s)


def isfinite(x):
    if isinstance(x, SymReal):
        return True
    if isinstance(x, SymComplex):
        return isfinite(x.re) and isfinite(x.im)
    return math.isfinite(x)


def isinf(x):
    if is_sym(x):
        return False if isinstance(x, SymReal) else isinf(x.re) or isinf(x.im)
    return math.isinf(x)


def isnan(x):
    if is_sym(x):
        return False if isinstance(x, SymReal) else isnan(x.re) or isnan(x.im)
    return math.isnan(x)


def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not is_sym(a) and not is_sym(b):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    return bool(Or(d <= rel_tol * _abs_forced(a), d <= rel_tol * _abs_forced(b), d <= abs_tol))


def copysign(x, y):
    if not is_sym(x) and not is_sym(y):
        return math.copysign(x, y)
    a = _abs_forced(x)
    return a if bool(y >= 0) else -a


# ---------------------------------------------------------------- complex
def l_complex(o):
    if isinstance(o, SymComplex):
        return o
    if isinstance(o, complex):
        return SymComplex(o.real, o.imag)
    if isinstance(o, SymReal) or isinstance(o, numbers.Real):
        return SymComplex(o, 0.0)
    return None


def _nz(x):
    return x if is_sym(x) else float(x)


class SymComplex:
    __slots__ = ("re", "im", "_id")
    __array_priority__ = 10000

    def __init__(self, re, im):
        self.re = re.force() if isinstance(re, AbsReal) else re
        self.im = im.force() if isinstance(im, AbsReal) else im
        self._id = None

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    def __add__(self, o):
        o = l_complex(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = l_complex(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = l_complex(o)
        if o is None:
            return NotImplemented
        return SymComplex(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        o = l_complex(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = l_complex(o)
        if o is None:
            return NotImplemented
        if not is_sym(o.im) and o.im == 0:
            return SymComplex(self.re / o.re, self.im / o.re)
        if not is_sym(o.re) and o.re == 0:
            # (a+ib)/(i d) = b/d - i a/d
            return SymComplex(self.im / o.im, -self.re / o.im)
        if is_sym(o.im) or is_sym(o.re):
            d = o.re * o.re + o.im * o.im
            if not is_sym(d) and d == 0:
                raise ZeroDivisionError("complex division by zero")
        else:
            d = Fraction(o.re) ** 2 + Fraction(o.im) ** 2
        try:
            return SymComplex((self.re * o.re + self.im * o.im) / d, (self.im * o.re - self.re * o.im) / d)
        except ZeroDivisionError:
            raise ZeroDivisionError("complex division by zero")

    def __rtruediv__(self, o):
        o = l_complex(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, n):
        if isinstance(n, numbers.Integral):
            if n == 0:
                return SymComplex(1.0, 0.0)
            r = self
            for _ in range(abs(n) - 1):
                r = r * self
            return r if n > 0 else 1.0 / r
        raise Unsupported("complex power")

    def __abs__(self):
        return sqrt(self.re * self.re + self.im * self.im)

    def __eq__(self, o):
        if self is o:
            return True
        o = l_complex(o)
        if o is None:
            return False
        return And(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        return notb(self == o)

    def __hash__(self):
        return 13

    def __bool__(self):
        return bool(self != 0)

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __format__(self, spec):
        return f"({self.re}+{self.im}j)"

    def __str__(self):
        return self.__format__("")

    __repr__ = __str__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (SymComplex, (self.re, self.im))

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return np_ufunc(ufunc, method, inputs, kwargs)


numbers.Complex.register(SymComplex)


def csqrt(x):
    """cmath.sqrt"""
    if isinstance(x, SymComplex):
        if not is_sym(x.im) and x.im == 0:
            x = x.re
        else:
            a, b = x.re, x.im
            if bool(b == 0) if is_sym(b) else b == 0:
                return csqrt(a)
            m = sqrt(a * a + b * b)
            re = sqrt((m + a) / 2)
            return SymComplex(re, b / (2 * re))
    if isinstance(x, SymReal):
        if x < 0:
            return SymComplex(0.0, sqrt(-x))
        return SymComplex(sqrt(x), 0.0)
    return cmath.sqrt(x)


# ---------------------------------------------------------------- numpy
def _np_isclose(a, b, rtol=1e-5, atol=1e-8):
    return bool(abs(a - b) <= atol + rtol * _abs_forced(b))


def np_ufunc(ufunc, method, inputs, kwargs):
    import numpy as np
    name = ufunc.__name__
    arrays = [x for x in inputs if isinstance(x, np.ndarray)]
    if method == "__call__" and not arrays:
        f = _UF.get(name)
        if f is not None:
            return f(*inputs)
        raise Unsupported(f"numpy.{name} on symbolic value")
    ins = []
    for x in inputs:
        if is_sym(x):
            o = np.empty((), dtype=object)
            o[()] = x
            ins.append(o)
        elif isinstance(x, np.ndarray) and x.dtype != object:
            ins.append(x.astype(object))
        else:
            ins.append(x)
    if name in _UF and method == "__call__":
        out = np.frompyfunc(_UF[name], len(ins), 1)(*ins)
        return out
    return getattr(ufunc, method)(*ins, **kwargs)


_UF = {
    "add": lambda a, b: _pl(a) + _pl(b), "subtract": lambda a, b: _pl(a) - _pl(b),
    "multiply": lambda a, b: _pl(a) * _pl(b),
    "divide": lambda a, b: _npdiv(_pl(a), _pl(b)), "true_divide": lambda a, b: _npdiv(_pl(a), _pl(b)),
    "negative": lambda a: -a, "positive": lambda a: a,
    "absolute": lambda a: abs(a), "fabs": lambda a: abs(a),
    "power": lambda a, b: _pl(a) ** _pl(b), "square": lambda a: a * a,
    "sqrt": lambda a: sqrt(a), "sin": lambda a: sin(a), "cos": lambda a: cos(a), "tan": lambda a: tan(a),
    "exp": lambda a: exp(a), "log": lambda a: log(a), "arcsin": lambda a: asin(a),
    "arccos": lambda a: acos(a), "arctan": lambda a: atan(a), "arctan2": lambda a, b: atan2(a, b),
    "isfinite": lambda a: isfinite(a), "isinf": lambda a: isinf(a), "isnan": lambda a: isnan(a),
    "less": lambda a, b: _pl(a) < _pl(b), "less_equal": lambda a, b: _pl(a) <= _pl(b),
    "greater": lambda a, b: _pl(a) > _pl(b), "greater_equal": lambda a, b: _pl(a) >= _pl(b),
    "equal": lambda a, b: _pl(a) == _pl(b), "not_equal": lambda a, b: _pl(a) != _pl(b),
    "maximum": lambda a, b: max(_pl(a), _pl(b)), "minimum": lambda a, b: min(_pl(a), _pl(b)),
    "fmax": lambda a, b: max(_pl(a), _pl(b)), "fmin": lambda a, b: min(_pl(a), _pl(b)),
    "sign": lambda a: 1.0 if bool(a > 0) else (-1.0 if bool(a < 0) else 0.0),
    "reciprocal": lambda a: 1.0 / a, "conjugate": lambda a: a.conjugate(),
    "hypot": lambda a, b: hypot(a, b), "copysign": copysign,
    "deg2rad": lambda a: a * (math.pi / 180), "radians": lambda a: a * (math.pi / 180),
    "rad2deg": lambda a: a * (180 / math.pi), "degrees": lambda a: a * (180 / math.pi),
    "floor": lambda a: math_floor(a), "ceil": lambda a: -math_floor(-a),
}


def _npdiv(a, b):
    if not is_sym(b) and b == 0:
        b = float(b)
    return a / b


def _pl(x):
    """plain python number for numpy scalars"""
    if hasattr(x, "item") and not is_sym(x) and getattr(x, "shape", ()) == ():
        return x.item()
    return x


def np_function(func, args, kwargs):
    import numpy as np
    name = func.__name__
    if name == "linspace":
        def lin(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
            n = num - 1 if endpoint else num
            out = np.empty(num, dtype=object)
            for i in range(num):
                if i == 0:
                    out[i] = start
                elif endpoint and i == num - 1:
                    out[i] = stop
                else:
                    out[i] = start + (stop - start) * Fraction(i, n)
            return out
        return lin(*args, **kwargs)
    if name == "isclose":
        return _np_isclose(*args, **kwargs)
    if name in ("clip",):
        x, lo, hi = args[:3]
        return max(lo, min(hi, x))
    if name in ("real",):
        return args[0].real
    if name in ("imag",):
        return args[0].imag
    if name in ("isreal",):
        return True
    if name in ("ndim",):
        return 0
    if name in ("shape",):
        return ()
    if name == "round" or name == "around":
        return round(args[0])
    if name == "result_type":
        return np.dtype(object)

    def conv(a):
        if is_sym(a):
            o = np.empty((), dtype=object)
            o[()] = a
            return o
        if isinstance(a, (list, tuple)):
            return type(a)(conv(x) for x in a)
        return a
    return func(*[conv(a) for a in args], **{k: conv(v) for k, v in kwargs.items()})
