"""Solver portfolio: z3 (default, then nlsat), then cvc5.  Every answer is
'sat' / 'unsat' / 'unknown'; an unknown is never treated as success."""
import time
import z3
from fractions import Fraction
from . import poly as P

STATS = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "solver_s": 0.0, "by": {}}
_vars = {}


def zvar(i):
    v = _vars.get(i)
    if v is None:
        v = _vars[i] = z3.Real(f"v{i}_{P.VARS[i]}")
    return v


def zc(c):
    if isinstance(c, Fraction):
        return z3.RealVal(f"{c.numerator}/{c.denominator}")
    return z3.RealVal(c)


def zpoly(p):
    if p._z is not None:
        return p._z
    terms = []
    for m, c in p.t.items():
        fs = [zvar(v) for v in m]
        if c != 1 or not fs:
            fs.insert(0, zc(c))
        terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    if not terms:
        z = z3.RealVal(0)
    elif len(terms) == 1:
        z = terms[0]
    else:
        z = z3.Sum(*terms)
    p._z = z
    return z


ZERO = z3.RealVal(0)


def zrel(p, S):
    z = zpoly(p)
    if S == frozenset((-1,)):
        return z < ZERO
    if S == frozenset((-1, 0)):
        return z <= ZERO
    if S == frozenset((0,)):
        return z == ZERO
    if S == frozenset((1,)):
        return z > ZERO
    if S == frozenset((0, 1)):
        return z >= ZERO
    if S == frozenset((-1, 1)):
        return z != ZERO
    return z3.BoolVal(bool(S))


def _count(r, who, t):
    STATS["by"][who] = STATS["by"].get(who, 0) + 1
    STATS["solver_s"] += t


def _cvc5(formulas, timeout):
    """in a process of its own: its own time limit is not always obeyed"""
    import subprocess
    s = z3.Solver()
    s.add(*formulas)
    txt = "(set-logic QF_NRA)\n" + "\n".join(l for l in s.to_smt2().split("\n") if not l.startswith("(set-"))
    try:
        p = subprocess.run(["cvc5", "--lang", "smt2", f"--tlimit={int(timeout * 1000)}", "-"], input=txt,
                           capture_output=True, text=True, timeout=timeout + 2)
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    if "(error" in p.stdout or "(error" in p.stderr:
        return "unknown"
    for l in p.stdout.split("\n"):
        if l.strip() in ("sat", "unsat"):
            return l.strip()
    return "unknown"


def check(formulas, timeout=4.0, want_model=True, deep=True):
    """-> (answer, model or None)"""
    STATS["queries"] += 1
    formulas = list(formulas)
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.add(*formulas)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    _count(r, "z3", time.time() - t0)
    if r == z3.unsat:
        STATS["unsat"] += 1
        return "unsat", None
    if r == z3.sat:
        STATS["sat"] += 1
        return "sat", s.model()
    if deep:
        t0 = time.time()
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
        s.set("timeout", int(2 * timeout * 1000))
        s.add(*formulas)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        _count(r, "z3-nlsat", time.time() - t0)
        if r == z3.unsat:
            STATS["unsat"] += 1
            return "unsat", None
        if r == z3.sat:
            STATS["sat"] += 1
            return "sat", s.model()
        t0 = time.time()
        a = _cvc5(formulas, 2 * timeout)
        _count(a, "cvc5", time.time() - t0)
        if a == "unsat":
            STATS["unsat"] += 1
            return "unsat", None
    STATS["unknown"] += 1
    return "unknown", None


def model_value(m, i):
    """value of variable i in model m: (Fraction, exact?)"""
    v = m.eval(zvar(i), model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long()), True
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return Fraction(a.numerator_as_long(), a.denominator_as_long()), False
    return Fraction(0), False
