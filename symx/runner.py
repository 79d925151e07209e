"""Explores the cases of a property in parallel, discharges the obligations
with the solver, replays counterexamples and writes the evidence."""
import json
import math
import multiprocessing as mp
import os
import pickle
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import loader, sandboxhome, solver as SV, sym
from .harness import SymCtx, Done
from .poly import Poly, VARS
from .sym import Engine, PathAbort, SymReal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
REPLAYS = os.path.join(VERIF, "replays")


# ------------------------------------------------------------ model -> values
def to_float(v):
    return float(v)


def eval_sym(x, env):
    """numeric value of a SymReal under env (var index -> float)"""
    if not sym.is_sym(x):
        return x
    if isinstance(x, sym.AbsReal):
        return abs(eval_sym(x.inner, env))
    for v in x.num.vars():
        _eval_var(v, env)
    r = float(x.num.eval(env))
    for q, e in x.den:
        for v in q.vars():
            _eval_var(v, env)
        r /= float(q.eval(env)) ** e
    return r


_F = {"sqrt": lambda a: math.sqrt(max(a, 0.0)), "sin": math.sin, "cos": math.cos, "exp": math.exp,
      "asin": lambda a: math.asin(max(-1, min(1, a))), "atan": math.atan, "log": math.log}


def _eval_var(v, env):
    if v in env:
        return env[v]
    d = sym.ATOMDEF.get(v)
    if d is None:
        env[v] = 0.0
        return 0.0
    f, arg = d
    env[v] = _F[f](eval_sym(arg, env))
    return env[v]


_SERVER = [None]


def strictly(p):
    """the same condition with its inequalities strict"""
    if z3.is_not(p):
        a = p.arg(0)
        if z3.is_lt(a):
            return a.arg(0) > a.arg(1)
        if z3.is_gt(a):
            return a.arg(0) < a.arg(1)
        return p
    if z3.is_le(p):
        return p.arg(0) < p.arg(1)
    if z3.is_ge(p):
        return p.arg(0) > p.arg(1)
    if z3.is_and(p):
        return z3.And([strictly(a) for a in p.children()])
    if z3.is_or(p):
        return z3.Or([strictly(a) for a in p.children()])
    return p


class Confirmed(BaseException):
    pass


class Sink:
    """obligations of one case"""

    def __init__(self, spec, module, prop, opts):
        self.spec, self.module, self.prop, self.opts = spec, module, prop, opts
        self.n_obl = 0
        self.n_dis = 0
        self.n_tol = 0
        self.n_static = 0
        self.unknown = []
        self.unrepro = []
        self.violation = None
        self.known_hits = []
        self.reach = {}
        self.samples = []
        self.server = None
        self.replays = 0
        self.cache = {}

    # ---- called by the ctx
    def reached(self, label):
        self.reach[label] = self.reach.get(label, 0) + 1

    def note(self, text):
        pass

    def obligation(self, ctx, cond, label, relaxed=None):
        self.n_obl += 1
        self.reached(label)
        c = sym.as_bool(cond)
        if c is True:
            # a concrete fact of this path, or one already settled on it
            self.n_dis += 1
            self.n_static += 1
            return
        e = ctx.e
        nf = z3.BoolVal(True) if c is False else z3.Not(c.z)
        r, m = e.sat([nf])
        if r == "unsat":
            self.n_dis += 1
            return
        if relaxed is not None:
            rc = sym.as_bool(relaxed())
            rf = z3.BoolVal(True) if rc is False else (z3.BoolVal(False) if rc is True else z3.Not(rc.z))
            r2, m2 = e.sat([nf, rf])
            if r2 == "unsat":
                self.n_dis += 1
                self.n_tol += 1
                return
            if r2 == "sat":
                r, m, nf = r2, m2, z3.And(nf, rf)
        self.candidate(ctx, r, m, nf, label)

    def equality(self, ctx, a, b, label, tol):
        self.n_obl += 1
        self.reached(label)
        if a is None or b is None:
            if a is b:
                self.n_dis += 1
                self.n_static += 1
            else:
                self.candidate(ctx, "sat", None, z3.BoolVal(True), label)
            return
        if isinstance(a, (complex, sym.SymComplex)) or isinstance(b, (complex, sym.SymComplex)):
            self.n_obl -= 1
            ca, cb = sym.l_complex(a), sym.l_complex(b)
            self.equality(ctx, ca.re, cb.re, label, tol)
            self.equality(ctx, ca.im, cb.im, label, tol)
            return
        if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            self.n_obl -= 1
            self.obligation(ctx, a == b, label)
            return
        if not sym.is_sym(a) and not sym.is_sym(b):
            fa, fb = float(a), float(b)
            good = fa == fb or (math.isfinite(fa) and math.isfinite(fb)
                                and (fa - fb) ** 2 <= tol * tol * (1 + fa * fa + fb * fb))
            if good:
                self.n_dis += 1
                self.n_static += 1
            else:
                self.candidate(ctx, "sat", None, z3.BoolVal(True), label)
            return
        la, lb = sym._lift(a), sym._lift(b)
        if isinstance(la, float) or isinstance(lb, float):
            self.candidate(ctx, "sat", None, z3.BoolVal(True), label)
            return
        e = ctx.e
        # the un-cancelled statement  na*db == nb*da
        size = len(la.num.t) * max(1, len(lb.den)) + len(lb.num.t)
        d = la - lb
        zero = not sym.is_sym(d) and d == 0
        asked = False
        if size < 400:
            za = SV.zpoly(la.num)
            zb = SV.zpoly(lb.num)
            for q, k in lb.den:
                for _ in range(k):
                    za = za * SV.zpoly(q)
            for q, k in la.den:
                for _ in range(k):
                    zb = zb * SV.zpoly(q)
            if zero:
                # an identity: needs no path condition
                key = (la.key(), lb.key())
                if self.cache.get(key):
                    self.n_dis += 1
                    return
                r, m = SV.check([za != zb], 3.0, deep=False)
                if r == "unsat":
                    self.cache[key] = True
                    self.n_dis += 1
                    return
            else:
                asked = True
                r, m = SV.check(list(e.pc) + [za != zb], 3.0, deep=False)
                if r == "unsat":
                    self.n_dis += 1
                    return
        if zero:
            # normal forms coincide on this path; the un-cancelled query was too big
            self.n_dis += 1
            self.n_static += 1
            return
        if sym.is_sym(d):
            s = d.rel(sym.EQ)
            if s is True:
                self.n_dis += 1
                self.n_static += 1
                return
            nf = z3.BoolVal(True) if s is False else z3.Not(s.z)
        else:
            nf = z3.BoolVal(True)
        r, m = e.sat([nf])
        if r == "unsat":
            self.n_dis += 1
            return
        # does it fail by more than the tolerance?
        mf = self._margin(la, lb, d, tol)
        r2, m2 = e.sat([nf, mf])
        if r2 == "unsat":
            self.n_dis += 1
            self.n_tol += 1
            return
        for t2 in (1e-1, 1e-3):
            if r2 != "sat" and r != "sat":
                break
            r3, m3 = e.sat([nf, self._margin(la, lb, d, t2)], timeout=2.0)
            if r3 == "sat":
                self.candidate(ctx, "sat", m3, z3.And(nf, self._margin(la, lb, d, t2)), label)
                return
        if r2 == "sat":
            self.candidate(ctx, "sat", m2, z3.And(nf, mf), label)
        else:
            self.candidate(ctx, r, m, nf, label)

    def _margin(self, la, lb, d, tol):
        d = sym._lift(d)
        t = sym._frac(tol) ** 2
        # (a-b)^2 > t (1 + a^2 + b^2), all over the square of a common denominator
        def z(x):
            n = SV.zpoly(x.num)
            den = None
            for q, k in x.den:
                for _ in range(k):
                    den = SV.zpoly(q) if den is None else den * SV.zpoly(q)
            return n, den
        dn, dd = z(d)
        an, ad = z(la)
        bn, bd = z(lb)
        one = z3.RealVal(1)
        dd, ad, bd = dd if dd is not None else one, ad if ad is not None else one, bd if bd is not None else one
        L = dn * dn * ad * ad * bd * bd
        R = SV.zc(t) * dd * dd * (ad * ad * bd * bd + an * an * bd * bd + bn * bn * ad * ad)
        return L > R

    # ---- counterexamples
    def candidate(self, ctx, r, m, nf, label):
        e = ctx.e
        if r != "sat" or m is None:
            r2, m2 = e.sat([nf])
            if r2 == "unsat":
                self.n_dis += 1
                return
            if r2 == "sat":
                r, m = r2, m2
        if m is None:
            self.unknown.append(label)
            return
        tried = set()
        last = None
        for values in self._models(e, m, nf):
            k = json.dumps(values, sort_keys=True)
            if k in tried:
                continue
            tried.add(k)
            req = {"property": self.prop, "module": self.module, "case": self.spec["name"], "fn": self.spec["fn"],
                   "args": self.spec.get("args", []), "label": label, "values": values}
            bad = self._replay(req)
            if bad:
                known = self._known(req, bad)
                if known:
                    if known not in self.known_hits:
                        self.known_hits.append(known)
                    return
                self.violation = (req, bad)
                raise Confirmed()
            last = values
            if len(tried) >= 6:
                break
        self.unrepro.append({"label": label, "values": last})

    def _known(self, req, bad):
        for k in self.opts["known"]:
            if k["property"] == req["property"] and k["case"] == req["case"] and k["label"] == req["label"]:
                return k["what"]
        return None

    def _values(self, e, m):
        return {n: to_float(SV.model_value(m, i)[0]) for n, i in e.inputs.items()}

    def _models(self, e, m, nf):
        base = list(e.pc) + [nf]
        t_end = time.time() + 20

        def pinned(m, digits):
            extra = []
            cur = m
            for n, i in e.inputs.items():
                if time.time() > t_end:
                    break
                v, exact = SV.model_value(cur, i)
                done = False
                for dg in digits:
                    c = Fraction(round(v * dg), dg)
                    f = SV.zvar(i) == SV.zc(c)
                    if exact and c == v:
                        extra.append(f)
                        done = True
                        break
                    r, m2 = SV.check(base + extra + [f], 1.0, deep=False)
                    if r == "sat":
                        extra.append(f)
                        cur = m2
                        done = True
                        break
                if not done and exact:
                    extra.append(SV.zvar(i) == SV.zc(v))
            return cur
        yield self._values(e, pinned(m, (1, 2, 16, 1024)))
        yield self._values(e, m)
        # away from zero and from the bounds
        for lo, hi in ((Fraction(1, 10), 50), (Fraction(1, 100), 1000)):
            cs = []
            for n, i in e.inputs.items():
                z = SV.zvar(i)
                cs.append(z3.Or(z > SV.zc(lo), z < SV.zc(-lo)))
                cs.append(z3.And(z < SV.zc(hi), z > SV.zc(-hi)))
            r, m2 = SV.check(base + cs, 3.0, deep=False)
            if r == "sat":
                yield self._values(e, pinned(m2, (16, 1024)))
                yield self._values(e, m2)

    def _replay(self, req):
        self.replays += 1
        path = os.path.join(REPLAYS, f"try-{self.prop}-{os.getpid()}-{self.replays}.json")
        os.makedirs(REPLAYS, exist_ok=True)
        with open(path, "w") as f:
            json.dump(req, f)
        try:
            p = subprocess.run([PYTHON, os.path.join(VERIF, "symx", "replay.py"), path, "--json"],
                               capture_output=True, text=True, timeout=self.opts.get("replay_timeout", 60))
            res = json.loads(p.stdout.strip().split("\n")[-1])
        except (subprocess.TimeoutExpired, ValueError, IndexError):
            return ""
        finally:
            os.unlink(path)
        from .replay import confirm
        return confirm(req, res)

    # ---- translator validation
    def validate(self, ctx, status):
        """run the same harness concretely on a model of this path, compare"""
        e = ctx.e
        r, m = (("sat", e.model) if e.model is not None else e.sat([], timeout=2.0))
        if r != "sat":
            return None
        v = self._agree(ctx, e, m, e.pc)
        if v in ("agree", "diverged", None):
            return v
        # a point where quantities compared by the program tie may be rounded to either side: compare away from ties
        inner = [strictly(p) for p in e.pc]
        r, m = SV.check(inner, 3.0, deep=False)
        if r != "sat":
            return "diverged"
        return self._agree(ctx, e, m, inner)

    def _agree(self, ctx, e, m, pc):
        values = None
        # simple values make agreement meaningful
        extra = []
        cur = m
        for n, i in e.inputs.items():
            v, exact = SV.model_value(cur, i)
            if exact and v.denominator <= 1024:
                extra.append(SV.zvar(i) == SV.zc(v))
                continue
            for dg in (4, 1024):
                c = Fraction(round(v * dg), dg)
                rr, m2 = SV.check(list(pc) + extra + [SV.zvar(i) == SV.zc(c)], 0.5, deep=False)
                if rr == "sat":
                    extra.append(SV.zvar(i) == SV.zc(c))
                    cur = m2
                    break
        values = self._values(e, cur)
        req = {"module": self.module, "fn": self.spec["fn"], "args": self.spec.get("args", []), "values": values}
        res = self._serve(req)
        if res is None:
            return None
        env = {i: values[n] for n, i in e.inputs.items()}
        if len(self.samples) < 2:
            self.samples.append({"case": self.spec["name"], "inputs": values,
                                 "claims": sorted(set(ctx.labels))[:6]})
        if res["labels"] != ctx.labels:
            return "diverged"
        for (l1, v1), (l2, v2) in zip(ctx.obs, res["obs"]):
            if l1 != l2:
                return "diverged"
            if v1 is None or isinstance(v1, (bool, str)):
                if v1 != v2:
                    return f"mismatch {l1}: {v1} {v2}"
                continue
            try:
                x = eval_sym(v1, env)
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            try:
                y = float(v2)
            except (TypeError, ValueError):
                return f"mismatch {l1}: {x} {v2}"
            if x == y or (x != x and y != y):
                continue
            if not abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y)):
                return f"mismatch {l1}: {x} {y}"
        return "agree"

    def _serve(self, req):
        self.server = _SERVER[0]
        if self.server is None:
            self.server = _SERVER[0] = subprocess.Popen([PYTHON, os.path.join(VERIF, "symx", "replay.py"), "--serve"],
                                           stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                           stderr=subprocess.DEVNULL, text=True)
        try:
            self.server.stdin.write(json.dumps(req) + "\n")
            self.server.stdin.flush()
            line = self.server.stdout.readline()
            return json.loads(line)
        except (OSError, ValueError):
            _SERVER[0] = None
            return None


def run_case(rt, mod, prop, spec, opts):
    t0 = time.time()
    e = Engine(timeout=opts["timeout"], max_decisions=spec.get("max_decisions", 4000))
    sink = Sink(spec, mod.__name__.split(".")[-1], prop, opts)
    fn = getattr(mod, spec["fn"])
    limit = spec.get("time_limit", opts["time_limit"])
    maxp = spec.get("max_paths", 3000)
    res = {"case": spec["name"], "paths": 0, "completed": 0, "infeasible": 0, "cut": 0, "incomplete": "",
           "decisions": 0, "validated": 0, "diverged": 0, "mismatch": [], "errors": [], "exceptions": 0}
    stack = [((), None)]
    nval = spec.get("validate", opts["validate"])
    try:
        while stack:
            if time.time() - t0 > limit:
                res["incomplete"] = f"time limit {limit}s, {len(stack)} paths left"
                break
            if res["paths"] >= maxp:
                res["incomplete"] = f"path limit {maxp}, {len(stack)} left"
                break
            prefix, hint = stack.pop()
            e.reset_path(prefix, hint)
            e.deadline = t0 + limit
            e.work = []
            res["paths"] += 1
            ctx = SymCtx(rt, e, sink)
            Engine.current = e
            status = "done"
            try:
                fn(ctx, *spec.get("args", []))
            except PathAbort as a:
                status = a.why
            except Done:
                pass
            except Exception as x:
                if e.aborting is not None:
                    status = e.aborting.why
                else:
                    status = "exception"
                    res["exceptions"] += 1
                    tb = traceback.format_exc()
                    label = "no unexpected exception"
                    ctx.labels.append(label)
                    n_un, n_re = len(sink.unknown), len(sink.unrepro)
                    sink.n_obl += 1
                    try:
                        sink.candidate(ctx, "none", None, z3.BoolVal(True), label)
                    finally:
                        Engine.current = e
                    if len(sink.unrepro) > n_re or len(sink.unknown) > n_un:
                        res["errors"].append(tb[-1800:])
            finally:
                ctx.cleanup()
            stack.extend(e.work)
            e.work = []
            res["decisions"] += len(e.decisions)
            if status in ("infeasible", "assumption"):
                res["infeasible"] += 1
            elif status.startswith("not deterministic"):
                res["incomplete"] = status
            elif status == "decision bound reached":
                res["cut"] += 1
            elif status == "time limit of the case reached":
                res["incomplete"] = f"time limit {limit}s"
                break
            else:
                res["completed"] += 1
                if res["validated"] + res["diverged"] < nval and status == "done":
                    v = sink.validate(ctx, status)
                    if v == "agree":
                        res["validated"] += 1
                    elif v == "diverged":
                        res["diverged"] += 1
                    elif v:
                        res["mismatch"].append(v)
                        nval -= 1
            Engine.current = None
    except Confirmed:
        res["violation"] = {"req": sink.violation[0], "what": sink.violation[1]}
    finally:
        Engine.current = None
    res.update(obligations=sink.n_obl, discharged=sink.n_dis, tolerance=sink.n_tol, static=sink.n_static,
               unknown=sink.unknown, unrepro=sink.unrepro, reached=sink.reach, known=sink.known_hits,
               samples=sink.samples, replays=sink.replays, unknown_branches=e.unknown_branches,
               concretised=e.concretised, stats=SV.STATS, functions=loader.functions(),
               wall=time.time() - t0)
    return res


def _child(conn, rt, mod, prop, opts):
    """a worker: receives case specifications, sends back results"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    _SERVER[0] = None
    while True:
        try:
            spec = conn.recv()
        except EOFError:
            break
        if spec is None:
            break
        for k in ("queries", "sat", "unsat", "unknown"):
            SV.STATS[k] = 0
        SV.STATS["solver_s"] = 0.0
        SV.STATS["by"] = {}
        try:
            r = run_case(rt, mod, prop, spec, opts)
        except BaseException:
            r = {"case": spec["name"], "crash": traceback.format_exc()[-2500:]}
        conn.send(json.loads(json.dumps(r, default=str)))
    if _SERVER[0] is not None:
        _SERVER[0].kill()
    os._exit(0)


def _worker_main(a, b, others, *rest):
    os.setpgid(0, 0)
    a.close()
    for c in others:
        c.close()
    _child(b, *rest)


def _kill_tree(p):
    """a worker leads its own process group (replays and cvc5 included)"""
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        p.kill()


def run_property(prop, module, tier, seed=1, jobs=None, only=None, verbose=False):
    import importlib
    t0 = time.time()
    home = sandboxhome.make()
    os.environ["HOME"] = os.environ["SYMX_HOME"] = home
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    z3.set_param("smt.random_seed", seed % (1 << 30))
    try:
        try:
            rt = loader.load(symbolic=True)
        except Exception:
            traceback.print_exc()
            print(f"ERROR property={prop}: the package does not load")
            return 2
        mod = importlib.import_module("props." + module)
        return _run(prop, module, mod, rt, tier, seed, jobs, only, verbose, t0)
    finally:
        sandboxhome.remove(home)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k.get("status") == "known"]


def _run(prop, module, mod, rt, tier, seed, jobs, only, verbose, t0):
    known = load_known(prop)
    opts = {"timeout": 5.0 if tier == "quick" else 20.0,
            "time_limit": 400 if tier == "quick" else 1500,
            "validate": 2 if tier == "quick" else 6, "known": known}
    opts.update(getattr(mod, "OPTIONS", {}).get(tier, {}))
    specs = [dict(s) for s in mod.cases(tier)]
    if only:
        specs = [s for s in specs if only in s["name"]]
    assert len(set(s["name"] for s in specs)) == len(specs), "case names must be distinct"
    specs.sort(key=lambda s: -s.get("weight", 1))
    jobs = jobs or min(8, os.cpu_count() or 8)
    ctxm = mp.get_context("fork")
    pending = list(specs)
    results = []
    workers = {}                       # connection -> [process, spec or None, deadline]

    def start():
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=_worker_main, args=(a, b, list(workers), rt, mod, prop, opts))
        p.start()
        b.close()
        workers[a] = [p, None, 0]

    def stop(c):
        p = workers.pop(c)[0]
        c.close()
        _kill_tree(p)
        p.join()

    for _ in range(min(jobs, len(specs))):
        start()
    stopping = False
    while not stopping and (pending or any(w[1] for w in workers.values())):
        for c, w in workers.items():
            if w[1] is None and pending:
                s = pending.pop(0)
                w[1] = s
                w[2] = time.time() + s.get("time_limit", opts["time_limit"]) * 1.5 + 90
                c.send(s)
        busy = [c for c, w in workers.items() if w[1] is not None]
        ready = mp.connection.wait(busy, timeout=1.0)
        now = time.time()
        for c in busy:
            p, s, dead = workers[c]
            if c in ready:
                try:
                    r = c.recv()
                    workers[c][1] = None
                except (EOFError, OSError):
                    r = {"case": s["name"], "crash": "worker died"}
                    stop(c)
                    start()
            elif now > dead:
                r = {"case": s["name"], "crash": "hard time limit"}
                stop(c)
                start()
            else:
                continue
            r["spec"] = s
            results.append(r)
            if verbose:
                _show(r)
            if r.get("violation"):
                stopping = True        # one confirmed violation decides
                break
    for c in list(workers):
        stop(c)
    return _report(prop, module, mod, tier, seed, results, known, t0, only)


def _show(r):
    if "crash" in r:
        print(f"  {r['case']}: CRASH {r['crash']}")
        return
    print(f"  {r['case']}: paths {r['paths']} (done {r['completed']}, infeasible {r['infeasible']}, cut {r['cut']}), "
          f"obligations {r['obligations']} (discharged {r['discharged']}, static {r['static']}, tol {r['tolerance']}), "
          f"unknown {len(r['unknown'])}, unrepro {len(r['unrepro'])}, valid {r['validated']}/{r['diverged']}, "
          f"{r['wall']:.1f}s (solver {r['stats']['solver_s']:.1f}s, {r['stats']['queries']}q) {r['incomplete']}")
    for k in ("mismatch", "errors", "unrepro"):
        for x in r[k][:2]:
            print("     ", k, x)
    if r["unknown"]:
        print("      unknown", r["unknown"][:4])
    if r.get("known"):
        print("      known", r["known"][:4])
    if r.get("violation"):
        print("      VIOLATION", r["violation"])
    if not r["reached"]:
        print("      NOTHING REACHED")


def _report(prop, module, mod, tier, seed, results, known, t0, only):
    ok = [r for r in results if "crash" not in r]
    crashes = [r for r in results if "crash" in r]
    tot = lambda k: sum(r[k] for r in ok)
    stats = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "solver_s": 0.0, "by": {}}
    for r in ok:
        for k in ("queries", "sat", "unsat", "unknown", "solver_s"):
            stats[k] += r["stats"][k]
        for k, v in r["stats"]["by"].items():
            stats["by"][k] = stats["by"].get(k, 0) + v
    functions = sorted(set(f for r in ok for f in r["functions"]))
    viol = [r for r in ok if r.get("violation")]
    vacuous = [r["case"] for r in ok if not r["obligations"] and not r.get("violation")
               and not r["spec"].get("may_be_empty")]
    problems = []
    for r in crashes:
        problems.append(f"{r['case']}: {r['crash'][-300:]}")
    for r in ok:
        if r["unknown"]:
            problems.append(f"{r['case']}: solver gave no answer for {sorted(set(r['unknown']))[:3]}")
        if r["unrepro"]:
            problems.append(f"{r['case']}: counterexample not reproduced {r['unrepro'][:2]}")
        if r["incomplete"]:
            problems.append(f"{r['case']}: {r['incomplete']}")
        if r["cut"] and not r["spec"].get("allow_cut"):
            problems.append(f"{r['case']}: {r['cut']} paths reached the decision bound")
        if r["mismatch"]:
            problems.append(f"{r['case']}: symbolic and concrete runs disagree {r['mismatch'][:1]}")
    if not viol:
        for c in vacuous:
            problems.append(f"{c}: vacuous, no assertion was reached")
        need = set(getattr(mod, "MUST_REACH", ()))
        got = set(l for r in ok for l in r["reached"])
        for l in sorted(need - got) if not only else ():
            problems.append(f"reachability witness missing: {l}")
    rc = 0
    lines = []
    if viol:
        rc = 1
        v = viol[0]["violation"]
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{prop}-{abs(hash(json.dumps(v['req'], sort_keys=True))) % 10**8}.json")
        with open(path, "w") as f:
            json.dump(dict(v["req"], what=v["what"],
                           how="/opt/venv/bin/python /verif/symx/replay.py <this file>"), f, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        lines.append(f"  case {v['req']['case']}: {v['what']}")
        lines.append(f"  inputs {json.dumps(v['req']['values'])}")
    elif problems:
        rc = 2
        for p in problems[:12]:
            lines.append(f"INCONCLUSIVE property={prop} {p}")
    seen = set()
    for r in ok:
        for k in r.get("known", []):
            if k not in seen:
                seen.add(k)
                lines.append(f"KNOWN-FINDING: property={prop} {k}")
    samples = [s for r in ok for s in r["samples"]][:4]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("completed"), "transitions": tot("decisions"),
            "traces_validated_against_impl": tot("validated"),
            "samples": samples or [{"note": "no sample on this run"}],
            "explanation": "states = feasible symbolic paths explored to the end; transitions = branch decisions "
                           "taken on them; traces validated = paths whose model was re-run on the unpatched package "
                           "with every compared value agreeing",
            "cases": len(results), "obligations": tot("obligations"), "discharged": tot("discharged"),
            "decided_without_a_query": tot("static"), "discharged_within_tolerance_only": tot("tolerance"),
            "solver_queries": stats["queries"], "solver_seconds": round(stats["solver_s"], 2),
            "answers": {k: stats[k] for k in ("sat", "unsat", "unknown")}, "answered_by": stats["by"],
            "paths_infeasible": tot("infeasible"), "paths_cut_by_bound": tot("cut"),
            "validation_diverged": tot("diverged"), "branches_solver_unknown": tot("unknown_branches"),
            "concretised_values": tot("concretised"), "counterexample_replays": tot("replays"),
            "functions_encoded": functions, "bounds": mod.BOUNDS,
            "outside_the_claim": getattr(mod, "OUTSIDE", ""),
            "reachability": {l: n for l, n in sorted(_merge(ok).items())[:200]},
            "problems": problems[:20],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    if not only:
        where = os.environ.get("SYMX_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(where, exist_ok=True)
        with open(os.path.join(where, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    c = ev["coverage"]
    lines.append(f"{prop} [{tier}] cases {c['cases']}, paths {c['states']}, obligations {c['obligations']} "
                 f"(discharged {c['discharged']}), queries {c['solver_queries']} in {c['solver_seconds']} s, "
                 f"validated {c['traces_validated_against_impl']}, wall {ev['wall_s']} s")
    print("\n".join(lines))
    return rc


def _merge(ok):
    d = {}
    for r in ok:
        for l, n in r["reached"].items():
            d[l] = d.get(l, 0) + n
    return d


COMMON = [
    "Floating-point numbers are treated as real numbers: rounding is outside the claim; equalities are claimed to a "
    "relative tolerance of 1e-6, and counterexamples are confirmed in real floating point before being reported.",
    "sin, cos, tan, asin, atan, exp, log are uninterpreted functions with a few sound axioms; sqrt is exact.",
    "Stubs: float() and complex() accept symbolic numbers; math, cmath and numpy ufuncs have symbolic versions; "
    "multiprocessing.Pool runs its work in order in this process; time.sleep does nothing; numpy.random draws are "
    "arbitrary values in [0,1) where a harness asks for it; the home directory is a scratch folder.",
]
