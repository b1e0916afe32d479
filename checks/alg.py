"""End-to-end runs of the real Optimizer with a modelled environment and a symbolic figure of merit."""
from .common import *


class Signal:
    def __init__(self):
        self.got = []

    def emit(self, *a):
        self.got.append(loader.snapshot(list(a)))


class Halt(Exception):
    """raised by a harness to leave a run that would not end"""


class FoM:
    """user evaluation: records what it is given, answers with symbolic figures of merit"""

    def __init__(self, ctx, lo=-100.0, hi=100.0, cap=40, std=None, status=None, value=None, hook=None):
        self.ctx, self.lo, self.hi, self.cap = ctx, lo, hi, cap
        self.std, self.status, self.value, self.hook = std, status, value, hook
        self.calls = []

    def get_FoM(self, pulses=None, parameters=None, timegrids=None, **kw):
        k = len(self.calls)
        if k >= self.cap:
            raise Halt("more than %d evaluations" % self.cap)
        c = {"k": k, "pulses": [cells(p) for p in list_(pulses)], "timegrids": [cells(p) for p in list_(timegrids)],
             "parameters": list(cells(parameters)) if parameters is not None else [], "time": ENV().clock, "status": 0}
        self.calls.append(c)
        r = {"FoM": self.value(k, c) if self.value else self.ctx.real("f%d" % k, self.lo, self.hi)}
        c["FoM"] = r["FoM"]
        if self.std is not None:
            r["std"] = c["std"] = self.std(k)
        if self.status is not None:
            s = self.status(k)
            c["status"] = s
            if s is not None:
                r["status_code"] = s
        if self.hook is not None:
            self.hook(k, c, r)
        return r

    # what GRAPE asks for
    def get_propagator(self, pulses_list=None, time_grids_list=None, parameters_list=None):
        return [np.eye(2, dtype=complex) for _ in range(len(cells(pulses_list[0])))]

    def get_initial_state(self):
        return np.array([[1, 0], [0, 0]], dtype=complex)

    def get_target_state(self):
        return np.array([[0, 0], [0, 1]], dtype=complex)

    def get_drift_Hamiltonian(self):
        return np.array([[1, 0], [0, -1]], dtype=complex)

    def get_control_Hamiltonians(self):
        return np.array([[0, 1], [1, 0]], dtype=complex)


def list_(x):
    return [] if x is None else [v for v in x]


def stop_dict(**kw):
    d = {"xatol": -1.0, "fatol": -1.0}
    d.update(kw)
    return d


def opt_dict(alg="dCRAB", dsm="NelderMead", pulses=None, times=None, pars=None, stop=None, general=None, name="job", direction=None,
             fmt="npz", **alg_kw):
    a = {"algorithm_name": alg}
    if alg in ("dCRAB", "DirectSearch"):
        a["dsm_settings"] = {"general_settings": dict({"dsm_algorithm_name": dsm}, **(general or {})),
                             "stopping_criteria": stop_dict(**(stop or {}))}
        if alg == "dCRAB":
            a["super_iteration_number"] = 1
    if direction:
        a["optimization_direction"] = direction
    a.update(alg_kw)
    return {"optimization_client_name": name, "dump_format": fmt, "algorithm_settings": a, "pulses": pulses or [], "times": times or [],
            "parameters": pars or []}


def small(alg, dim=2, seed=None, kind=None, pars=0, **kw):
    """small standard problem for the given algorithm: `dim` search directions"""
    if alg == "DirectSearch":
        return opt_dict(alg, pars=[par_dict("q%d" % i, 0.25 - 0.125 * i, -4.0, 4.0, 0.5) for i in range(dim)], **kw)
    ps, ts = [], []
    if kind == "Fourier":
        ps = [pulse_dict("A", "Fourier", bins=3, time_name="t", lower=-5.0, upper=5.0, var=0.5, nv=1)]
        pars = dim - 2
    elif dim - pars > 0:
        ps = [pulse_dict("A", "PiecewiseBasis", bins=dim - pars, time_name="t", lower=-5.0, upper=5.0, var=0.5)]
    ts = [time_dict("t", 2.0)]
    if seed is not None:
        kw["random_number_generator"] = {"seed_number": seed}
    return opt_dict(alg, pulses=ps, times=ts, pars=[par_dict("q%d" % i, 0.25, -4.0, 4.0, 0.5) for i in range(pars)], **kw)


def in_order(ctx, seed=0, name="f"):
    """figures of merit of a long run: symbolic values whose order is given, in ranges that do not meet (the k-th of 211 ranks)"""
    def value(k, c=None):
        at = (k * (37 + 8 * seed) + 11 * seed + 150) % 211 - 100
        return ctx.real("%s%d" % (name, k), at + 0.1, at + 0.9)
    return value


class Run:
    def __init__(self, ctx, d, fom, env=None, signals=False, handle_exit=None):
        self.ctx, self.d, self.fom = ctx, d, fom
        self.env = env or ENV()
        self.signals = [Signal(), Signal(), Signal()] if signals else None
        self.maximize = d["algorithm_settings"].get("optimization_direction") == "maximization"
        self.error = None
        O = q("quocslib.Optimizer").Optimizer
        kw = {} if handle_exit is None else {"handle_exit_obj": handle_exit}
        self.opt = O(d, fom, comm_signals_list=self.signals, **kw)
        self.alg = self.opt.get_optimization_algorithm()

    def go(self):
        self.opt.execute()
        return self

    @property
    def calls(self):
        return self.fom.calls

    def best(self):
        b = self.alg.get_best_controls()
        return {k: [re_(v) for p in list_(b[k]) for v in cells(p)] for k in ("pulses", "parameters", "timegrids")}

    def files(self, part):
        return [(p, v) for p, v in self.env.vfs.items() if part in p]

    def final(self):
        """the result file written at the end"""
        f = self.files("optimized_parameters.json")
        return parsed(f[0][1]) if f else None

    def saved_best(self):
        f = self.files("best_controls")
        return parsed(f[-1][1]) if f else None


def parsed(ent):
    if ent.get("obj") is not None:
        return ent["obj"]
    import json
    return json.loads(ent["text"])


def flat(c):
    return [re_(v) for k in ("pulses", "parameters") for p in c[k] for v in cells(p)]


def fun_minimize(ctx, points, after=None):
    """model of scipy.optimize.minimize: evaluates the objective at the given points, in any algorithm's hands"""
    def m(fun, x0, *a, jac=None, method=None, options=None, **k):
        class R:
            pass
        r = R()
        r.x0 = list(cells(x0))
        pts = points(r.x0)
        for p in pts:
            v = fun(arr(ctx, p))
            r.fun = v
            if after:
                after(p, v)
        r.x = arr(ctx, pts[-1])
        return r
    return m


def first_min(ctx, vals):
    """index of the first smallest value (forks on the order)"""
    j = 0
    for i in range(1, len(vals)):
        if ctx.branch(ctx_b(vals[i] < vals[j])):
            j = i
    return j


def ctx_b(c):
    return sym.bexpr(c) if sym.is_sym(c) else bool(c)


class QuadFoM(FoM):
    """figure of merit that depends on the controls: sum of l*p + q*p^2 over all samples and parameters, plus a constant.
    Works with jax tracers, so that its derivative can be taken; calls made while a derivative is taken are not recorded."""

    def __init__(self, ctx, lin, quad, const=0.0, sgn=1, cap=60):
        super().__init__(ctx, cap=cap)
        self.lin, self.quad, self.const, self.sgn = lin, quad, const, sgn
        self.quiet = False

    def form(self, xs):
        s = self.const
        for l, q_, x in zip(self.lin, self.quad, xs):
            s = s + l * x + q_ * x * x
        return self.sgn * s

    def get_FoM(self, pulses=None, parameters=None, timegrids=None, **kw):
        if self.ctx.symbolic:
            xs = [re_(v) for p in list_(pulses) for v in cells(p)] + [re_(v) for v in (cells(parameters) if parameters is not None else [])]
        else:
            import jax
            import jax.numpy as jnp
            tr = any(isinstance(p, jax.core.Tracer) for p in [pulses, parameters])
            if not tr and not isinstance(pulses, jax.Array):
                xs = [re_(v) for p in list_(pulses) for v in cells(p)] + [re_(v) for v in cells(parameters)]
            else:
                ps, qs = jnp.real(jnp.ravel(pulses)), jnp.real(jnp.ravel(parameters))
                xs = [ps[i] for i in range(ps.shape[0])] + [qs[i] for i in range(qs.shape[0])]
                if not tr:
                    xs = [float(x) for x in xs]
            if tr:
                return {"FoM": self.form(xs)}
        v = self.form(xs)
        if not self.quiet:
            if len(self.calls) >= self.cap:
                raise Halt("too many evaluations")
            self.calls.append({"k": len(self.calls), "pulses": [xs], "parameters": [], "FoM": v, "time": ENV().clock, "status": 0})
        return {"FoM": v}


def grad_model(ctx, env, fom):
    """model of jax.grad: the symmetric difference quotient, exact for functions of degree two"""
    def h(f):
        def g(x, *a):
            xs = cells(x)
            r = []
            fom.quiet = True
            try:
                for i in range(len(xs)):
                    v = []
                    for s in (1, -1):
                        y = list(xs)
                        y[i] = y[i] + s * 0.5
                        v.append(f(arr(ctx, y, True), *a))
                    r.append(v[0] - v[1])
            finally:
                fom.quiet = False
            return arr(ctx, r, True)
        return g
    env.grad = h


def capture_minimize(ctx, got, points, with_jac):
    """scipy.optimize.minimize: evaluates function and derivative at the given points and records both"""
    def m(fun, x0, *a, jac=None, method=None, options=None, **k):
        class R:
            pass
        r = R()
        got.append({"x0": list(cells(x0)), "options": dict(options or {}), "method": method, "at": []})
        for p in points(got[-1]["x0"]):
            v = fun(arr(ctx, p))
            g = None
            if jac is True:
                v, g = v
            elif callable(jac) and with_jac:
                g = jac(arr(ctx, p))
            got[-1]["at"].append({"x": p, "f": v, "g": None if g is None else cells(g)})
            r.fun = v
        r.x = arr(ctx, p)
        return r
    return m
