"""Path-forking symbolic execution with z3 as the deciding solver.

A harness is a function run(ctx, cfg).  It is executed again from the start for every path; `branch` replays the
recorded decisions of the path prefix and asks z3 which outcomes of the next symbolic condition are feasible.
`check(cond, label)` asks z3 for a value of the inputs on this path which falsifies cond.
"""
import math
import os
import random
import select
import signal
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import sym
from .sym import (OutOfModel, SymBool, SymComplex, SymReal, Unsupported, bexpr, is_sym, ite, lift, mkbool, rv,
                  rand, rnot, ror, smax, smin)
from .z3path import z3

REPO_SRC = os.environ.get("QUOCS_SRC", "/repo/src")


class PathEnd(Exception):
    """The rest of this path is not reachable (an assumption excludes it)."""


class Stop(BaseException):
    """Deadline reached."""


def sh_close(a, b):
    """shadow filter; a shadow which is not known (nan) never rules anything out"""
    return not abs(a - b) > 1e-7 * (1 + abs(a))


class BaseCtx:
    """Operations shared by the symbolic and the concrete context; harnesses only use these."""
    tol = 1e-7

    def And(self, *a):
        return rand(*a)

    def Or(self, *a):
        return ror(*a)

    def Not(self, a):
        return rnot(a)

    def implies(self, a, b):
        return ror(rnot(a), b)

    def iff(self, a, b):
        return ror(rand(a, b), rand(rnot(a), rnot(b)))

    def ite(self, c, a, b):
        return ite(c, a, b)

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = smax(r, x)
        return r

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = smin(r, x)
        return r

    def le(self, a, b, tol=None):
        t = self.tol if tol is None else tol
        return a <= b + t

    def close(self, a, b, tol=None):
        t = self.tol if tol is None else tol
        if isinstance(a, (SymComplex, complex, np.complexfloating)) or isinstance(
                b, (SymComplex, complex, np.complexfloating)):
            a, b = sym.to_complex(a), sym.to_complex(b)
            return rand(self.close(a.re, b.re, t), self.close(a.im, b.im, t))
        d = a - b
        if isinstance(d, float) and math.isnan(d):
            return False
        return rand(d <= t, d >= -t)

    def allclose(self, xs, ys, tol=None):
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            return False
        return rand(*[self.close(x, y, tol) for x, y in zip(xs, ys)])


class Ctx(BaseCtx):
    """Symbolic context: one instance per path."""
    symbolic = True

    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.fork_ite = eng.fork_ite
        self.pos = 0
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set("timeout", eng.query_timeout_ms)
        self.pc = []
        self.inputs = {}
        self.range = {}
        self.ufs = {}
        self.nuf = 0
        self.labels = []
        self.observations = []
        self.fs = {}
        self.log = []
        self.names = {}
        self.memo = {}
        self.bounds = {}
        self._rng = random.Random(12345)

    # ---- inputs ---------------------------------------------------------
    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def real(self, name, lo=-10.0, hi=10.0, open_hi=False, open_lo=False):
        name = self._name(name)
        v = z3.Real(name)
        self.inputs[name] = v
        self.range[name] = Fraction(max(abs(lo), abs(hi)))
        self.add(v > rv(lo) if open_lo else v >= rv(lo))
        self.add(v < rv(hi) if open_hi else v <= rv(hi))
        sh = self._rng.uniform(lo, hi)
        self.bounds[name] = (lo, hi)
        return SymReal(v, sh)

    def int(self, name, lo, hi):
        name = self._name(name)
        v = z3.Int(name)
        self.inputs[name] = v
        self.add(v >= lo)
        self.add(v <= hi)
        return SymReal(z3.ToReal(v), float(self._rng.randint(lo, hi)))

    poly = False       # harness sets it: compare by polynomial normal form first

    def close(self, a, b, tol=None):
        t = self.tol if tol is None else tol
        if self.poly and not any(isinstance(x, (SymComplex, complex, np.complexfloating)) for x in (a, b)):
            d = a - b
            if is_sym(d):
                e = z3.simplify(d.e, som=True, som_blowup=100000)
                if z3.is_rational_value(e):
                    return abs(e.as_fraction()) <= Fraction(t)
                if self._tiny(e, t):
                    return True
                d = SymReal(e, d.sh)
            return rand(d <= t, d >= -t)
        return super().close(a, b, tol)

    def _tiny(self, e, t):
        """sum of monomials with tiny coefficients (rounding of constants): each monomial is replaced by a fresh variable within its own
        range, z3 then decides the linear problem; True only if that suffices"""
        terms = list(e.children()) if z3.is_add(e) else [e]
        s, cs = [], []
        for i, m in enumerate(terms):
            c, bound = Fraction(1), Fraction(1)
            todo = [m]
            while todo:
                f = todo.pop()
                if z3.is_rational_value(f):
                    c *= f.as_fraction()
                elif z3.is_mul(f):
                    todo += f.children()
                elif z3.is_app_of(f, z3.Z3_OP_POWER) and z3.is_int_value(f.arg(1)):
                    todo += [f.arg(0)] * f.arg(1).as_long()
                elif f.decl().name() in self.range:
                    bound *= self.range[f.decl().name()]
                else:
                    return False
            if abs(c) * bound * len(terms) > Fraction(t):
                return False
            v = z3.Real("mono!%d" % i)
            s.append(v * z3.RealVal(str(c)))
            cs += [v <= z3.RealVal(str(bound)), v >= z3.RealVal(str(-bound))]
        so = z3.Solver()
        so.add(*cs)
        tot = z3.Sum(s)
        so.add(z3.Or(tot > rv(t), tot < rv(-t)))
        self.eng.stats["queries"] += 1
        return so.check() == z3.unsat

    def bool(self, name):
        name = self._name(name)
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    def choice(self, name, options):
        """symbolic choice among finitely many python values (forks)"""
        i = self.int(name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if self.branch(i.e == k):
                return options[k]
        return options[-1]

    # ---- path condition --------------------------------------------------
    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def assume(self, c):
        e = z3.simplify(bexpr(c))
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd()
        self.add(e)
        if self.pos >= len(self.prefix) and self._check() == z3.unsat:
            raise PathEnd()

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        st = self.eng.stats
        st["solver_s"] += time.time() - t
        st["queries"] += 1
        if time.time() > self.eng.deadline:
            raise Stop()
        return r

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][1]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            rt = self._check(e)
            rf = self._check(z3.Not(e))
            if rt == z3.unsat and rf == z3.unsat:
                raise PathEnd()
            if rt != z3.unsat and rf != z3.unsat:
                self.eng.stats["forks"] += 1
                if rt == z3.unknown or rf == z3.unknown:
                    self.eng.stats["unknown_branches"] += 1
                self.eng.pending.append(self.decisions + [False])
                d = True
            else:
                d = rt != z3.unsat
        self.pos += 1
        self.decisions.append(d)
        self.add(e if d else z3.Not(e))
        self.memo[k] = (e, d)
        ne = z3.simplify(z3.Not(e))
        self.memo[ne.get_id()] = (ne, not d)
        return d

    def concretize_int(self, x):
        e = z3.simplify(x.e)
        if z3.is_rational_value(e):
            return int(math.trunc(e.as_fraction()))
        t = sym.trunc_(x).e
        while True:
            if self.pos < len(self.prefix):
                v, d = self.prefix[self.pos]
            else:
                if self._check() != z3.sat:
                    raise Unsupported("cannot concretize an integer")
                v = self.solver.model().eval(t, model_completion=True).as_fraction()
                v = int(v)
                d = True
                if self._check(t != v) != z3.unsat:
                    self.eng.stats["forks"] += 1
                    self.eng.pending.append(self.decisions + [(v, False)])
            self.pos += 1
            self.decisions.append((v, d))
            if d:
                self.add(t == v)
                return v
            self.add(t != v)
            if self.pos >= len(self.prefix) and self._check() == z3.unsat:
                raise PathEnd()

    # ---- uninterpreted transcendental functions ---------------------------
    CONC = {"sin": math.sin, "cos": math.cos, "exp": math.exp, "log": math.log, "erf": math.erf, "tan": math.tan,
            "tanh": math.tanh, "arccos": math.acos, "arcsin": math.asin, "arctan": math.atan,
            "normcdf": lambda z: 0.5 * (1 + math.erf(z / math.sqrt(2)))}
    RANGE = {"sin": (-1, 1), "cos": (-1, 1), "erf": (-1, 1), "normcdf": (0, 1), "arccos": (0, math.pi),
             "tanh": (-1, 1), "exp": (0, None), "arcsin": (-math.pi / 2, math.pi / 2),
             "arctan": (-math.pi / 2, math.pi / 2)}
    MONO = {"erf", "normcdf", "exp", "log", "tanh", "arctan", "arcsin"}

    def _shadow(self, name, x):
        try:
            return self.CONC[name](x)
        except (ValueError, OverflowError):
            return 0.321

    def always_close(self, a, b, eps=1e-9):
        """z3: do the two real terms agree (within eps) for every input on this path?"""
        if a.eq(b):
            return True
        d = z3.simplify(a - b, som=True)
        if z3.is_rational_value(d):
            return abs(d.as_fraction()) <= Fraction(eps)
        neg = z3.Or(d > rv(eps), d < rv(-eps))
        r = self._check(neg)
        return r == z3.unsat

    def uf(self, name, x):
        if not is_sym(x):
            return self.CONC[name](x)
        e = z3.simplify(x.e)
        if z3.is_rational_value(e):
            return self._shadow(name, float(e.as_fraction()))
        if name in ("arccos", "arcsin"):
            if self.branch(z3.Or(e > 1, e < -1)):
                raise OutOfModel("arccos outside [-1, 1]")
        if name == "log" and self.branch(e <= 0):
            raise OutOfModel("log of a non positive number")
        lst = self.ufs.setdefault(name, [])
        for (a, ash, v) in lst:
            if sh_close(ash, x.sh) and self.always_close(a, e, 1e-9 * (1 + (abs(ash) if ash == ash else 0))):
                return v
        self.nuf += 1
        fv = z3.Real("uf!%s!%d" % (name, self.nuf))
        lo, hi = self.RANGE.get(name, (None, None))
        if lo is not None:
            self.add(fv >= rv(lo))
        if hi is not None:
            self.add(fv <= rv(hi))
        if name == "sin":
            self.add(z3.If(e >= 0, z3.And(fv <= e, fv >= -e), z3.And(fv >= e, fv <= -e)))
        if name in self.MONO:
            for (a, ash, v) in lst:
                self.add((a <= e) == (v.e <= fv))
            if name in ("erf", "tanh", "arctan", "arcsin"):
                self.add((e >= 0) == (fv >= 0))
            if name == "normcdf":
                self.add((e >= 0) == (fv >= rv(0.5)))
                self.add((e > 0) == (fv > rv(0.5)))
                self.add(z3.Implies(e >= 4, fv >= rv(0.9999)))
                self.add(z3.Implies(e <= -4, fv <= rv(0.0001)))
            if name == "exp":
                self.add(fv >= e + 1)
                self.add(fv > 0)
            if name == "log":
                self.add(fv <= e - 1)
        r = SymReal(fv, self._shadow(name, x.sh))
        lst.append((e, x.sh, r))
        return r

    def uf2(self, name, x, y, f):
        def ex(t):
            return z3.simplify(lift(t).e)
        ea, eb = ex(x), ex(y)
        lst = self.ufs.setdefault(name, [])
        for (a, b, v) in lst:
            if self.always_close(a, ea) and self.always_close(b, eb):
                return v
        self.nuf += 1
        fv = z3.Real("uf!%s!%d" % (name, self.nuf))
        try:
            sh = float(f(lift(x).sh, lift(y).sh))
        except Exception:
            sh = 0.3
        r = SymReal(fv, sh)
        if name == "pow" and not is_sym(x) and float(x) > 0:
            self.add(fv > 0)
        lst.append((ea, eb, r))
        return r

    def sqrt(self, x, nonneg=False):
        e = z3.simplify(x.e)
        if z3.is_rational_value(e):
            f = e.as_fraction()
            if f < 0:
                raise OutOfModel("sqrt of a negative number")
            return math.sqrt(f)
        lst = self.ufs.setdefault("sqrt", [])
        for (a, ash, v) in lst:
            if a.eq(e) or (sh_close(ash, x.sh) and self.always_close(a, e, 1e-13)):
                return v
        if not nonneg and self.branch(e < 0):
            raise OutOfModel("sqrt of a negative number")
        self.nuf += 1
        fv = z3.Real("uf!sqrt!%d" % self.nuf)
        self.add(fv >= 0)
        self.add(fv * fv == e)
        r = SymReal(fv, math.sqrt(abs(x.sh)))
        lst.append((e, x.sh, r))
        return r

    # ---- assertions ---------------------------------------------------------
    def observe(self, name, v):
        self.observations.append((name, v))

    def check(self, cond, label, info=None):
        lab = self.eng.labels.setdefault(label, {"checked": 0, "solver": 0, "structural": 0, "sat": 0, "unknown": 0})
        self.labels.append(label)
        replaying = self.pos < len(self.prefix)
        e = z3.simplify(bexpr(cond))
        if z3.is_true(e):
            if not replaying:
                lab["checked"] += 1
                if isinstance(cond, SymBool) and self._valid(cond.e):
                    lab["solver"] += 1
                else:
                    lab["structural"] += 1
            return
        if replaying:
            # decided on the path on which this prefix was first explored
            if self.eng.lemmas:
                self.add(e)
            return
        lab["checked"] += 1
        t0 = time.time()
        if z3.is_false(e):
            r = self._check()
            neg = []
        else:
            neg = [z3.Not(e)]
            self.solver.set("timeout", min(1500, self.eng.query_timeout_ms))
            r = self._check(*neg)
            self.solver.set("timeout", self.eng.query_timeout_ms)
        pinned = None
        if r == z3.unknown:
            # a counterexample among inputs most of which are fixed is cheap to find
            pinned = self._pinned(neg, n=1, budget=2.0)
            r = z3.sat if pinned else self._fallback(neg)
        if r == z3.unsat:
            if z3.is_false(e):
                raise PathEnd()
            lab["solver_s"] = round(lab.get("solver_s", 0.0) + time.time() - t0, 3)
            lab["solver"] += 1
            if self.eng.lemmas:
                self.add(e)
            return
        if r == z3.unknown:
            pinned = self._pinned(neg)
            r = z3.sat if pinned else z3.unknown
        if r == z3.unknown:
            lab["unknown"] += 1
            self.eng.inconclusive.append({"label": label, "why": "solver returned unknown"})
            return
        lab["sat"] += 1
        self._candidate(label, neg, info, pinned)
        if z3.is_false(e):
            raise PathEnd()
        if pinned:
            return
        self.add(e)
        if self._check() == z3.unsat:
            raise PathEnd()

    def _valid(self, e):
        """second opinion on a formula z3's simplifier reduces to true (no path condition needed)"""
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(z3.Not(e))
        t = time.time()
        r = s.check()
        self.eng.stats["solver_s"] += time.time() - t
        self.eng.stats["queries"] += 1
        return r == z3.unsat

    def _fallback(self, neg):
        """second and third opinion for queries the incremental core gives up on, in a process which can be killed"""
        es = self.pc + neg
        t = time.time()
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            ans = b"?"
            try:
                os.close(rd)
                for mk in (lambda: z3.Then("simplify", "solve-eqs", "elim-term-ite", "qfnra-nlsat").solver(),
                           lambda: z3.SolverFor("QF_NRA"), z3.Solver):
                    s = mk()
                    s.set("timeout", self.eng.query_timeout_ms)
                    for x in es:
                        s.add(x)
                    try:
                        r = s.check()
                    except z3.Z3Exception:
                        r = z3.unknown
                    if r != z3.unknown:
                        ans = b"s" if r == z3.sat else b"u"
                        break
                os.write(wr, ans)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(wr)
        ans = b"?"
        ok, _, _ = select.select([rd], [], [], 3 * self.eng.query_timeout_ms / 1000.0)
        if ok:
            ans = os.read(rd, 1) or b"?"
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        self.eng.stats["solver_s"] += time.time() - t
        self.eng.stats["queries"] += 1
        if time.time() > self.eng.deadline:
            raise Stop()
        return {b"s": z3.sat, b"u": z3.unsat}.get(ans, z3.unknown)

    def _pinned(self, extra, n=2, timeout=1500, budget=12.0):
        """assignments in which most inputs are fixed at arbitrary generic numbers"""
        reals = [k for k, v in self.inputs.items() if z3.is_real(v) and k in self.bounds]
        if not reals:
            return []
        rng = random.Random(len(self.pc) + 17 * len(reals))
        out, end = [], time.time() + budget
        for part in (1.0, 1.0, 1.0, 0.9, 0.7, 0.5, 0.3):
            if len(out) >= n or time.time() > end:
                break
            t = time.time()
            fixed = []
            for k in rng.sample(reals, max(1, int(part * len(reals)))):
                lo, hi = self.bounds[k]
                f = Fraction(round(rng.uniform(lo, hi) * 256), 256)
                if lo <= f <= hi:
                    fixed.append((k, self.inputs[k], z3.RealVal(str(f))))
            s = z3.Solver()
            s.set("timeout", timeout)
            try:
                for x in list(self.pc) + list(extra):
                    y = z3.simplify(z3.substitute(x, *[(v, c) for _, v, c in fixed]))
                    s.add(y)
                    if z3.is_false(y):
                        break
                if s.check() == z3.sat:
                    m = self._values(s.model())
                    m.update({k: float(c.as_fraction()) for k, _, c in fixed})
                    out.append(m)
            except z3.Z3Exception:
                pass
            self.eng.stats["solver_s"] += time.time() - t
            self.eng.stats["queries"] += 1
        return out

    def _candidate(self, label, neg, info, models=None):
        n = self.eng.cand_count.get(label, 0)
        self.eng.cand_count[label] = n + 1
        if n >= 4:
            return
        models = models or self.models(neg)
        self.eng.candidates.append({"label": label, "models": models, "info": _txt(info),
                                    "path": [str(d) for d in self.decisions][-40:]})

    def models(self, extra=(), n=5):
        """several assignments of the inputs on this path satisfying `extra`"""
        out = []
        s = z3.Solver()
        s.set("timeout", 4000)
        for x in self.pc:
            s.add(x)
        for x in extra:
            s.add(x)
        names = list(self.inputs)
        reals = [self.inputs[k] for k in names if z3.is_real(self.inputs[k])]

        def grab(constraints, timeout=4000):
            s.push()
            s.set("timeout", timeout)
            for c in constraints:
                s.add(c)
            m = None
            try:
                for k in range(12):
                    if s.check() != z3.sat:
                        break
                    mod = s.model()
                    m = self._values(mod)
                    facts = self._function_values(mod)
                    if not facts:
                        break
                    for c in facts:
                        s.add(c)
            except z3.Z3Exception:
                pass
            s.pop()
            return m
        # dyadic inputs make the replayed float run follow the same path exactly
        for scale in (8, 1024):
            ints = [z3.IsInt(r * scale) for r in reals]
            m = grab(ints, 3000)
            if m is not None:
                out.append(m)
                break
        m = grab([])
        if m is not None:
            out.append(m)
        elif not out:
            t = z3.Then("simplify", "solve-eqs", "elim-term-ite", "qfnra-nlsat").solver()
            t.set("timeout", 8000)
            for x in list(self.pc) + list(extra):
                t.add(x)
            try:
                if t.check() == z3.sat:
                    out.append(self._values(t.model()))
            except z3.Z3Exception:
                pass
        rng = random.Random(7 * len(out) + len(names))
        for _ in range(n - 2):
            if not out or not reals:
                break
            cs = []
            for r in rng.sample(reals, max(1, len(reals) // 2)):
                base = out[-1].get(str(r), 0.0)
                cs.append(r > rv(float(base)) if rng.random() < 0.5 else r < rv(float(base)))
            m = grab(cs, 1500)
            if m is not None:
                out.append(m)
        return out

    def _function_values(self, m):
        """facts about sin, erf, normcdf, ... at the arguments of a model which the model contradicts"""
        def num(e):
            x = m.eval(e, model_completion=True)
            if z3.is_rational_value(x):
                return float(x.as_fraction())
            return float(x.approx(30).as_fraction()) if z3.is_algebraic_value(x) else None
        out = []
        for name, lst in self.ufs.items():
            if name not in self.CONC:
                continue
            for (e, _, v) in lst:
                a, got = num(e), num(v.e)
                if a is None or got is None:
                    continue
                a = float(Fraction(round(a * 2 ** 20), 2 ** 20))
                try:
                    f = self.CONC[name](a)
                except (ValueError, OverflowError):
                    continue
                if abs(f - got) <= 1e-5:
                    continue
                if name in self.MONO:
                    out += [z3.Implies(e <= rv(a), v.e <= rv(f + 1e-9)), z3.Implies(e >= rv(a), v.e >= rv(f - 1e-9))]
                else:
                    out += [z3.Implies(e == rv(a), z3.And(v.e <= rv(f + 1e-9), v.e >= rv(f - 1e-9)))]
        return out

    def _values(self, m):
        r = {}
        for k, v in self.inputs.items():
            x = m.eval(v, model_completion=True)
            if z3.is_bool(x):
                r[k] = bool(z3.is_true(x))
            elif z3.is_int_value(x):
                r[k] = x.as_long()
            elif z3.is_rational_value(x):
                r[k] = float(x.as_fraction())
            elif z3.is_algebraic_value(x):
                r[k] = float(x.approx(30).as_fraction())
            else:
                r[k] = 0.0
        return r


def _txt(x):
    try:
        return str(x) if x is not None else ""
    except Exception:
        return "?"


class Engine:
    """Explores the paths of one (harness, cfg)."""

    def __init__(self, run, cfg, deadline, query_timeout_ms=8000):
        self.run = run
        self.cfg = cfg
        self.deadline = deadline
        self.query_timeout_ms = cfg.get("query_timeout_ms", query_timeout_ms) if isinstance(cfg, dict) else query_timeout_ms
        self.lemmas = cfg.get("lemmas", True)
        self.fork_ite = cfg.get("fork_ite", False)
        self.pending = []
        self.labels = {}
        self.stats = {"paths": 0, "forks": 0, "queries": 0, "solver_s": 0.0, "unknown_branches": 0,
                      "out_of_model": 0, "assumed_away": 0}
        self.oom_reasons = {}
        self.candidates = []
        self.cand_count = {}
        self.inconclusive = []
        self.witnesses = []
        self.label_sets = {}
        self.functions = set()

    def explore(self, prefixes, max_paths, want_witness=3, soft=None):
        """DFS below the given prefixes; returns the prefixes left when max_paths is used up"""
        self.pending = [list(p) for p in prefixes]
        n = 0
        while self.pending and n < max_paths and (n == 0 or soft is None or time.time() < soft):
            prefix = self.pending.pop()
            n += 1
            k = len(self.pending)
            try:
                self._one(prefix, want_witness)
            except Stop:
                del self.pending[k:]        # forks found on the aborted path will be found again
                self.pending.append(prefix)
                break
        return self.pending

    def _one(self, prefix, want_witness):
        ctx = Ctx(self, prefix)
        sym.CTX = ctx
        end = "ok"
        fresh()
        try:
            self.run(ctx, self.cfg)
        except PathEnd:
            end = "assumed_away"
        except OutOfModel as ex:
            end = "out_of_model"
            k = str(ex)[:80]
            self.oom_reasons[k] = self.oom_reasons.get(k, 0) + 1
        except Unsupported as ex:
            end = "unsupported"
            self.inconclusive.append({"label": "engine", "why": "unsupported: %s" % ex,
                                      "trace": traceback.format_exc()[-1500:]})
        except Stop:
            raise
        except RecursionError as ex:
            end = "unsupported"
            self.inconclusive.append({"label": "engine", "why": "recursion: %s" % ex})
        except Exception as ex:
            end = "exception"
            lab = "no-unexpected-exception"
            st = self.labels.setdefault(lab, {"checked": 0, "solver": 0, "structural": 0, "sat": 0, "unknown": 0})
            st["checked"] += 1
            st["sat"] += 1
            ctx._candidate(lab, [], "%s: %s | %s" % (type(ex).__name__, ex, traceback.format_exc()[-1800:]))
        finally:
            sym.CTX = None
        if end == "ok":
            self.stats["paths"] += 1
        elif end in self.stats:
            self.stats[end] += 1
        # a path which could not be followed to its end is handed to the replay with the inputs that lead into it
        cut = end == "unsupported" and sum(1 for w in self.witnesses if w.get("cut")) < 2
        if (cut or end == "ok" and len(self.witnesses) < want_witness) and ctx.inputs:
            sym.CTX = ctx
            try:
                ms = ctx._pinned((), n=1, budget=3.0) if len(self.witnesses) % 2 == 0 and not cut else []
                ms = ms or ctx.models((), n=2)
            except Exception:
                ms = []
            finally:
                sym.CTX = None
            if ms:
                self.witnesses.append({"values": ms[0], "labels": list(ctx.labels), "cut": bool(cut)})

    def result(self):
        return {"stats": self.stats, "labels": self.labels, "candidates": self.candidates,
                "inconclusive": self.inconclusive[:20], "n_inconclusive": len(self.inconclusive),
                "witnesses": self.witnesses, "oom": self.oom_reasons, "functions": sorted(self.functions)}


class ConcreteCtx(BaseCtx):
    """Concrete context: same harness, concrete inputs, the real numpy / scipy / jax underneath."""
    symbolic = False
    floor = 0.0          # relative slack of single precision code, see run_concrete

    def le(self, a, b, tol=None):
        t = self.tol if tol is None else tol
        return a <= b + self._slack(a, b, t)

    def close(self, a, b, tol=None):
        t = self.tol if tol is None else tol
        if self.floor and not isinstance(a, (complex, np.complexfloating)) and not isinstance(b, (complex, np.complexfloating)):
            t = self._slack(a, b, t)
        return super().close(a, b, t)

    def _slack(self, a, b, t):
        return max(t, self.floor * (1 + max(abs(float(a)), abs(float(b))))) if self.floor else t

    def __init__(self, values):
        self.values = values
        self.names = {}
        self.labels = []
        self.violations = []
        self.observations = []
        self.fs = {}
        self.log = []
        self.missing = []
        self._rng = random.Random(4711)

    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def real(self, name, lo=-10.0, hi=10.0, open_hi=False, open_lo=False):
        name = self._name(name)
        if name in self.values:
            v = float(self.values[name])
            if open_hi and v >= hi:
                v = math.nextafter(hi, -math.inf)
            if open_lo and v <= lo:
                v = math.nextafter(lo, math.inf)
            return v
        self.missing.append(name)
        return lo + (hi - lo) * self._rng.random()

    def int(self, name, lo, hi):
        name = self._name(name)
        if name in self.values:
            return int(self.values[name])
        self.missing.append(name)
        return self._rng.randint(lo, hi)

    def bool(self, name):
        name = self._name(name)
        if name in self.values:
            return bool(self.values[name])
        self.missing.append(name)
        return self._rng.random() < 0.5

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, c):
        if not c:
            raise PathEnd()

    def observe(self, name, v):
        self.observations.append((name, v))

    def check(self, cond, label, info=None):
        self.labels.append(label)
        if not bool(cond):
            self.violations.append({"label": label, "info": _txt(info)})

    def branch(self, e):
        return bool(e)


def fresh():
    """no path sees what another one left in the modules under test"""
    from . import loader
    loader.fresh()


def run_concrete(run, cfg, values):
    """One run of the harness on the real code; -> {"labels", "violations", "error"}"""
    ctx = ConcreteCtx(values)
    if isinstance(cfg, dict) and cfg.get("ad"):
        ctx.floor = 1e-5          # the AD flavour computes in single precision
    err = None
    fresh()
    try:
        run(ctx, cfg)
    except PathEnd:
        err = "assume"
    except Exception as ex:
        err = "%s: %s" % (type(ex).__name__, ex)
        ctx.violations.append({"label": "no-unexpected-exception", "info": err + " | " + traceback.format_exc()[-1800:]})
    return {"labels": ctx.labels, "violations": ctx.violations, "error": err, "missing": len(ctx.missing)}
