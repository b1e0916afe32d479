"""Building blocks shared by the harnesses.  Everything here works with symbolic and with concrete inputs."""
import copy
import math

import numpy as np

from symex import loader, sarr, sym
from symex.loader import ENV, fresh, new_env, q

CHOPPED = ["Fourier", "Chebyshev", "Sinc", "Sigmoid", "SigmoidTimeDep", "SigmoidSigmas", "SigmoidAllParas"]


def arr(ctx, xs, j=False):
    if ctx.symbolic:
        return sarr.mkarr(list(xs), j)
    if j:
        import jax.numpy as jnp
        return jnp.asarray(list(xs))
    return np.array([float(x) if not isinstance(x, (complex, np.complexfloating)) else x for x in xs])


def cells(a):
    """flat list of the elements of an array / list / scalar"""
    if isinstance(a, np.ndarray):
        return [a.reshape(-1).view(np.ndarray)[i] for i in range(a.size)] if a.ndim else [a.item()]
    if isinstance(a, (list, tuple)):
        return list(a)
    if hasattr(a, "reshape") and hasattr(a, "shape") and getattr(a, "ndim", 0):
        return [x for x in np.asarray(a).reshape(-1)]
    return [a]


def reals(ctx, name, n, lo=-10.0, hi=10.0):
    return [ctx.real("%s%d" % (name, i), lo, hi) for i in range(n)]


def setup(ctx):
    env = new_env(ctx)
    return env


def basis_dict(kind, nv=1, wlo=0.5, whi=3.0, **kw):
    d = {"basis_name": kind}
    if kind in CHOPPED or kind == "Walsh":
        d["basis_vector_number"] = nv
        d["random_super_parameter_distribution"] = {"distribution_name": "Uniform", "lower_limit": wlo, "upper_limit": whi}
    d.update(kw)
    return d


def pulse_dict(name="P", kind="PiecewiseBasis", bins=3, time_name="T", lower=-1.0, upper=1.0, var=0.5, nv=1, guess=None,
               scaling=None, basis_kw=None, **kw):
    d = {"pulse_name": name, "bins_number": bins, "time_name": time_name, "lower_limit": lower, "upper_limit": upper,
         "amplitude_variation": var, "basis": basis_dict(kind, nv, **(basis_kw or {}))}
    if guess is not None:
        d["initial_guess"] = guess
    if scaling is not None:
        d["scaling_function"] = scaling
    d.update(kw)
    return d


def time_dict(name="T", value=1.0):
    return {"time_name": name, "initial_value": value}


def par_dict(name="p", value=0.3, lower=-1.0, upper=1.0, var=0.2):
    return {"parameter_name": name, "initial_value": value, "lower_limit": lower, "upper_limit": upper,
            "amplitude_variation": var}


def listf(ctx, xs):
    """{"function_type": "list_function"} entry"""
    return {"function_type": "list_function", "list_function": arr(ctx, xs) if ctx.symbolic else [float(x) for x in xs]}


def lamf(text):
    return {"function_type": "lambda_function", "lambda_function": text}


def controls(pulses, times, pars, rng=None, is_AD=False):
    C = q("quocslib.Controls").Controls
    return C(pulses, times, pars, rng=rng, is_AD=is_AD)


def fn(ctx, name, v):
    """sin, cos, erf, ... of a symbolic or concrete number"""
    if sym.is_sym(v):
        return getattr(v, name)()
    return {"sin": math.sin, "cos": math.cos, "erf": math.erf, "arccos": math.acos, "exp": math.exp,
            "sqrt": math.sqrt, "normcdf": lambda z: 0.5 * math.erfc(-z / math.sqrt(2))}[name](v)


def const_draws(env, xs):
    """random draws in the order in which they are asked for"""
    it = {"i": 0}

    def draw(gen, kind, k):
        i = it["i"]
        it["i"] += 1
        return xs[i % len(xs)]
    env.gen_draw = draw


def clip(ctx, xs, lo, hi):
    return [ctx.max(ctx.min(v, hi), lo) for v in xs]


def eq(ctx, xs, ys, label, tol=None, info=None):
    """check that two flat sequences agree element by element"""
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        ctx.check(False, label, "lengths %d and %d" % (len(xs), len(ys)))
        return
    ctx.check(ctx.allclose(xs, ys, tol), label, info)


def re_(v):
    return v.real if isinstance(v, (complex, np.complexfloating, sym.SymComplex)) else v


def im_(v):
    return v.imag if isinstance(v, (complex, np.complexfloating, sym.SymComplex)) else 0.0
