"""Arrays of symbolic scalars and the numpy / jax.numpy / scipy front ends which the loaded quocslib code sees.

SArr is an ndarray of dtype object, so that slicing, broadcasting, take, reshape, concatenate ... are numpy's own
code; only operations which would compute on or compare the elements are replaced.  Where every element is
concrete the real numpy function is called.
"""
import functools
import math
import types

import numpy as np

from . import sym
from .sym import (OutOfModel, SymBool, SymComplex, SymReal, Unsupported, is_num, is_sym, ite, mkbool, sand, smax, smin,
                  snot, sor)


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(is_sym(v) for v in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


class SArr(np.ndarray):
    __array_priority__ = 900.0

    def __new__(cls, data):
        return _obj(data).view(cls)

    # ---- numpy protocols ----
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return apply_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        return apply_function(func, args, kwargs)

    def __array_wrap__(self, a, context=None, return_scalar=False):
        return a

    # ---- indexing ----
    def _idx(self, i):
        if isinstance(i, SArr):
            if i.ndim == 0:
                return self._idx(i.item())
            els = list(i.ravel())
            if all(isinstance(v, (bool, np.bool_, SymBool)) for v in els) and els:
                return np.array([bool(v) for v in els], dtype=bool).reshape(i.shape)
            return np.array([int(v) for v in els], dtype=int).reshape(i.shape)
        if isinstance(i, (SymReal,)):
            return int(i)
        if isinstance(i, SymBool):
            return bool(i)
        if isinstance(i, tuple):
            return tuple(self._idx(k) for k in i)
        if isinstance(i, list):
            return [self._idx(k) for k in i]
        if isinstance(i, slice):
            f = lambda v: None if v is None else int(v)
            return slice(f(i.start), f(i.stop), f(i.step))
        if isinstance(i, float):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                             "boolean arrays are valid indices")
        return i

    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self, self._idx(i))
        return r

    def __setitem__(self, i, v):
        if isinstance(i, SArr) and i.shape == self.shape and has_sym(i) and np.ndim(v) == 0:
            for k in np.ndindex(self.shape):
                np.ndarray.__setitem__(self, k, ite(np.ndarray.__getitem__(i, k), v,
                                                    np.ndarray.__getitem__(self, k)))
            return
        if isinstance(v, SArr) and v.ndim == 0:
            v = v.item()
        elif isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.dtype != object):
            v = _obj(v)
        np.ndarray.__setitem__(self, self._idx(i), v)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. "
                             "Use a.any() or a.all()")
        return bool(self.ravel()[0])

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __format__(self, spec):
        return "<symarray>"

    def __repr__(self):
        return "<symarray>"

    __str__ = __repr__

    # ---- methods which C would compute on its own ----
    def mean(self, axis=None, dtype=None, out=None, **k):
        return FUNCS["mean"](self, axis, dtype, out, **k)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return FUNCS["std"](self, axis, dtype, out, ddof, **k)

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return FUNCS["var"](self, axis, dtype, out, ddof, **k)

    def sum(self, axis=None, dtype=None, out=None, **k):
        return apply_ufunc(np.add, "reduce", (self,), dict(k, axis=axis, dtype=dtype, out=out))

    def prod(self, axis=None, dtype=None, out=None, **k):
        return apply_ufunc(np.multiply, "reduce", (self,), dict(k, axis=axis, dtype=dtype, out=out))

    def max(self, axis=None, dtype=None, out=None, **k):
        return apply_ufunc(np.maximum, "reduce", (self,), dict(k, axis=axis, dtype=dtype, out=out))

    def min(self, axis=None, dtype=None, out=None, **k):
        return apply_ufunc(np.minimum, "reduce", (self,), dict(k, axis=axis, dtype=dtype, out=out))

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def all(self, axis=None, dtype=None, out=None, **k):
        return apply_ufunc(np.logical_and, "reduce", (self,), dict(k, axis=axis, dtype=dtype, out=out))

    def any(self, axis=None, dtype=None, out=None, **k):
        return apply_ufunc(np.logical_or, "reduce", (self,), dict(k, axis=axis, dtype=dtype, out=out))

    def argsort(self, axis=-1, kind=None, **k):
        return f_argsort(self, axis)

    def sort(self, axis=-1, kind=None, **k):
        self[...] = f_sort(self, axis)

    def argmin(self, axis=None, **k):
        return f_argext(self, True, axis)

    def argmax(self, axis=None, **k):
        return f_argext(self, False, axis)

    def clip(self, a_min=None, a_max=None, **k):
        return f_clip(self, a_min if a_min is not None else k.get("min"), a_max if a_max is not None else k.get("max"))

    def conj(self):
        return apply_ufunc(np.conjugate, "__call__", (self,), {})

    conjugate = conj

    def round(self, decimals=0, out=None):
        return f_round(self, decimals)

    def conjugate_transpose(self):
        return self.conj().T

    def fill(self, v):
        self[...] = v

    def repeat(self, *a, **k):
        return np.repeat(self, *a, **k)

    def cumprod(self, axis=None, **k):
        return apply_ufunc(np.multiply, "accumulate", (self.ravel() if axis is None else self,), {"axis": axis or 0})

    def nonzero(self):
        return f_where(self)

    def searchsorted(self, v, side="left", sorter=None):
        return f_searchsorted(self, v, side, sorter)

    def astype(self, dt, **k):
        return cast_array(self, dt)

    def dot(self, o):
        return f_dot(self, o)

    def cumsum(self, axis=None, **k):
        return apply_ufunc(np.add, "accumulate", (self.ravel() if axis is None else self,), {"axis": axis or 0})

    def trace(self, offset=0, axis1=0, axis2=1, **k):
        return f_trace(self, offset, axis1, axis2)

    def tolist(self):
        return np.ndarray.tolist(self)

    def __contains__(self, v):
        return bool(sor(*[x == v for x in self.ravel()])) if self.size else False

    @property
    def real(self):
        return _map(self, lambda v: v.real)

    @property
    def imag(self):
        return _map(self, lambda v: v.imag)

    @property
    def at(self):
        return _At(self)

    def block_until_ready(self):
        return self


class JArr(SArr):
    """jax arrays are immutable: augmented assignment rebinds, item assignment is an error"""

    def __setitem__(self, i, v):
        raise TypeError("JAX arrays are immutable and do not support in-place item assignment")

    def __iadd__(self, o):
        return self + o

    def __isub__(self, o):
        return self - o

    def __imul__(self, o):
        return self * o

    def __itruediv__(self, o):
        return self / o


class _At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        return _AtIdx(self.a, i)


class _AtIdx:
    def __init__(self, a, i):
        self.a, self.i = a, i

    def _new(self):
        return np.array(self.a, dtype=object).view(SArr)

    def _done(self, n):
        return n.view(JArr)

    def set(self, v, **k):
        n = self._new()
        n[self.i] = v
        return self._done(n)

    def add(self, v, **k):
        n = self._new()
        n[self.i] = n[self.i] + v
        return self._done(n)

    def multiply(self, v, **k):
        n = self._new()
        n[self.i] = n[self.i] * v
        return self._done(n)

    mul = multiply

    def get(self, **k):
        return self.a[self.i]

    def min(self, v):
        n = self._new()
        n[self.i] = apply_ufunc(np.minimum, "__call__", (n[self.i], v), {})
        return self._done(n)

    def max(self, v):
        n = self._new()
        n[self.i] = apply_ufunc(np.maximum, "__call__", (n[self.i], v), {})
        return self._done(n)


def _obj(x):
    """object ndarray of x (numbers stay numpy scalars / symbolic scalars)"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return np.asarray(x).view(np.ndarray)
        return x.astype(object)
    if isinstance(x, (list, tuple, range)):
        a = np.array([_nest(v) for v in x], dtype=object)
        return a
    o = np.empty((), dtype=object)
    o[()] = _py(x)
    return o


def _py(v):
    """numpy scalars defer to array ufuncs, python numbers to the reflected operators of the symbolic scalars"""
    return v.item() if isinstance(v, np.generic) else v


def _nest(v):
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return v.item()
        return _obj(v)
    if isinstance(v, (list, tuple, range)):
        return [_nest(w) for w in v]
    return v


def mkarr(x, j=False):
    a = _obj(x)
    if a.dtype != object:
        a = a.astype(object)
    return a.view(JArr if j else SArr)


def _map(a, f):
    a = _obj(a)
    o = np.empty(a.shape, dtype=object)
    for k in np.ndindex(a.shape):
        o[k] = f(a[k])
    return _out(o)


def _out(o, j=False):
    if o.ndim == 0:
        return o.item()
    return o.view(JArr if j else SArr)


def conc(x):
    """plain numpy value of an array / list without symbolic elements"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array(np.ndarray.tolist(x)) if x.size else np.zeros(x.shape)
    if isinstance(x, (list, tuple)) and any(isinstance(v, np.ndarray) for v in x):
        return type(x)(conc(v) for v in x)
    return x


def wrap_out(r, j=False):
    """float / complex ndarrays produced by real numpy become SArr so that they can later hold symbolic values"""
    if isinstance(r, SArr):
        return r.view(JArr) if j and not isinstance(r, JArr) else r
    if isinstance(r, np.ndarray) and r.ndim and r.dtype.kind in "fc":
        return mkarr(r, j)
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r[()]
    if isinstance(r, np.ndarray) and r.dtype == object:
        return r.view(JArr if j else SArr)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap_out(v, j) for v in r)
    if isinstance(r, list):
        return [wrap_out(v, j) for v in r]
    return r


def ndt(dt):
    """the real dtype behind the float/int stand-ins handed to the code under test"""
    return getattr(dt, "base", dt) if isinstance(dt, type) and getattr(dt, "base", None) in (float, int, complex) else dt


def cast_scalar(v, dt):
    dt = ndt(dt)
    if dt is None:
        return v
    try:
        kind = np.dtype(dt).kind
    except TypeError:
        return v
    if not is_sym(v):
        if kind == "O":
            return v
        return np.dtype(dt).type(v)
    if kind in "iu":
        return sym.trunc_(v if isinstance(v, SymReal) else v._r()) if not isinstance(v, SymComplex) else v
    if kind == "f":
        if isinstance(v, SymBool):
            return v._r()
        if isinstance(v, SymComplex):
            return v.re
        return v
    if kind == "b":
        return v if isinstance(v, SymBool) else (v != 0)
    return v


def cast_array(a, dt):
    dt = ndt(dt)
    if dt is None or (np.dtype(dt).kind == "O"):
        return mkarr(_obj(a).copy())
    if not has_sym(a):
        return wrap_out(np.asarray(conc(a)).astype(dt))
    return _map(a, lambda v: cast_scalar(v, dt))


# ------------------------------------------------------------------ ufuncs
def _e(name):
    def f(v):
        if is_sym(v):
            if isinstance(v, SymBool):
                v = v._r()
            return getattr(v, name)()
        return getattr(np, name)(v)
    return f


def _abs(v):
    return abs(v)


def _pw(a, b):
    return a**b


def _truth(v):
    return v if isinstance(v, (SymBool, bool, np.bool_)) else (v != 0)


UNARY = {n: _e(n) for n in ("sqrt", "sin", "cos", "tan", "tanh", "exp", "log", "log2", "log10", "arccos", "arcsin",
                            "arctan", "square", "floor", "ceil", "sign", "isfinite", "isnan", "isinf")}
UNARY.update({"absolute": _abs, "fabs": _abs, "negative": lambda v: -v, "positive": lambda v: v,
              "conjugate": lambda v: v.conjugate() if hasattr(v, "conjugate") else v,
              "logical_not": lambda v: snot(_truth(v)), "invert": lambda v: ~v if is_sym(v) else np.invert(v),
              "reciprocal": lambda v: 1.0 / v, "trunc": lambda v: sym.trunc_(v) if is_sym(v) else np.trunc(v),
              "deg2rad": lambda v: v * (math.pi / 180), "rad2deg": lambda v: v * (180 / math.pi),
              "radians": lambda v: v * (math.pi / 180), "degrees": lambda v: v * (180 / math.pi),
              "expm1": lambda v: _e("exp")(v) - 1, "log1p": lambda v: _e("log")(v + 1.0),
              "exp2": lambda v: 2.0**v, "cbrt": lambda v: sym.sign_(v) * abs(v)**(1 / 3) if is_sym(v) else np.cbrt(v),
              "sinh": lambda v: (_e("exp")(v) - _e("exp")(-v)) / 2, "cosh": lambda v: (_e("exp")(v) + _e("exp")(-v)) / 2,
              "rint": lambda v: _rint(v), "signbit": lambda v: v < 0})


def _nl(f):
    """numpy float semantics for concrete pairs"""
    return f


BINARY = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
    "divide": lambda a, b: _div(a, b), "true_divide": lambda a, b: _div(a, b), "power": _pw, "float_power": _pw,
    "floor_divide": lambda a, b: a // b, "remainder": lambda a, b: a % b, "mod": lambda a, b: a % b,
    "maximum": smax, "minimum": smin, "fmax": smax, "fmin": smin,
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b, "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b, "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
    "logical_and": lambda a, b: sand(_truth(a), _truth(b)), "logical_or": lambda a, b: sor(_truth(a), _truth(b)),
    "logical_xor": lambda a, b: _truth(a) != _truth(b),
    "bitwise_and": lambda a, b: sand(a, b), "bitwise_or": lambda a, b: sor(a, b), "bitwise_xor": lambda a, b: a ^ b,
    "hypot": lambda a, b: sym.ssqrt(a * a + b * b, True), "arctan2": None,
    "copysign": lambda a, b: ite(b < 0, -abs(a), abs(a)),
    "heaviside": lambda a, b: ite(a < 0, 0.0, ite(a > 0, 1.0, b)),
    "logaddexp": lambda a, b: _e("log")(_e("exp")(a) + _e("exp")(b)),
    "fmod": lambda a, b: a - sym.trunc_(a / b) * b if is_sym(a) or is_sym(b) else np.fmod(a, b),
}


def _rint(v):
    """round half to even"""
    if not is_sym(v):
        return np.rint(v)
    f = sym.floor_(v + 0.5)
    odd = sym.floor_(f / 2) * 2 != f
    return ite(sand(f == v + 0.5, odd), f - 1, f)


def f_round(a, decimals=0, out=None, **k):
    m = 10.0**int(decimals)
    return _map(a, lambda v: _rint(v * m) / m)


def _div(a, b):
    if is_sym(a) or is_sym(b):
        return a / b
    return np.true_divide(a, b)


IDENT = {"add": 0.0, "multiply": 1.0, "logical_and": True, "logical_or": False}


def apply_ufunc(ufunc, method, inputs, kwargs):
    kwargs = dict(kwargs)
    out = kwargs.pop("out", None)
    where = kwargs.pop("where", True)
    kwargs.pop("casting", None)
    kwargs.pop("order", None)
    dtype = ndt(kwargs.pop("dtype", None))
    kwargs.pop("subok", None)
    j = any(isinstance(x, JArr) for x in inputs)
    name = ufunc.__name__
    if out is not None and isinstance(out, tuple):
        out = out[0]
    if not any(has_sym(x) for x in inputs) and not has_sym(where):
        if where is not True:
            kwargs["where"] = conc(where)
        r = getattr(ufunc, method)(*[conc(x) if isinstance(x, np.ndarray) else x for x in inputs], **kwargs)
        r = wrap_out(r, j)
    elif method == "__call__" and name == "matmul":
        r = f_matmul(inputs[0], inputs[1])
    elif method == "__call__":
        f = (UNARY if len(inputs) == 1 else BINARY).get(name)
        if f is None:
            raise Unsupported("ufunc %s" % name)
        arrs = [_obj(x) for x in inputs]
        if len(arrs) == 1:
            o = np.empty(arrs[0].shape, dtype=object)
            for k in np.ndindex(o.shape):
                o[k] = f(_py(arrs[0][k]))
        else:
            a, b = np.broadcast_arrays(*arrs)
            o = np.empty(a.shape, dtype=object)
            for k in np.ndindex(o.shape):
                o[k] = f(_py(a[k]), _py(b[k]))
        if where is not True:
            w = np.broadcast_to(_obj(where), o.shape)
            base = _obj(out) if out is not None else np.zeros(o.shape, dtype=object)
            for k in np.ndindex(o.shape):
                o[k] = ite(w[k], o[k], base[k])
        r = _out(o, j)
    elif method == "reduce":
        f = BINARY.get(name)
        if f is None:
            raise Unsupported("ufunc %s.reduce" % name)
        a = _obj(inputs[0])
        axis = kwargs.get("axis", 0)
        keep = kwargs.get("keepdims", False)
        init = kwargs.get("initial", np._NoValue)
        if axis is None or (isinstance(axis, tuple) and len(axis) == a.ndim):
            vals = list(a.ravel())
            r = _red(f, name, vals, init)
            if keep:
                r = mkarr([r]).reshape((1, ) * a.ndim)
        else:
            if isinstance(axis, tuple) and len(axis) != 1:
                r = inputs[0]
                for ax in sorted([x % a.ndim for x in axis], reverse=True):
                    r = apply_ufunc(ufunc, "reduce", (r, ), dict(kwargs, axis=ax))
                return r
            if isinstance(axis, tuple):
                (axis, ) = axis
            if a.ndim == 0:
                r = a.item()
            else:
                m = np.moveaxis(a, axis, 0)
                o = np.empty(m.shape[1:], dtype=object)
                for k in np.ndindex(o.shape):
                    o[k] = _red(f, name, [m[(i, ) + k] for i in range(m.shape[0])], init)
                if keep:
                    o = np.expand_dims(o, axis)
                r = _out(o, j)
    elif method == "accumulate":
        f = BINARY[name]
        a = _obj(inputs[0])
        axis = kwargs.get("axis", 0)
        m = np.moveaxis(a, axis, 0)
        if f is None:
            raise Unsupported("ufunc %s.accumulate" % name)
        o = np.empty(m.shape, dtype=object)
        for k in np.ndindex(m.shape[1:]):
            acc = None
            for i in range(m.shape[0]):
                acc = m[(i, ) + k] if acc is None else f(acc, m[(i, ) + k])
                o[(i, ) + k] = acc
        r = _out(np.moveaxis(o, 0, axis), j)
    elif method == "outer":
        f = BINARY[name]
        a, b = _obj(inputs[0]), _obj(inputs[1])
        o = np.empty(a.shape + b.shape, dtype=object)
        for k in np.ndindex(a.shape):
            for l in np.ndindex(b.shape):
                o[k + l] = f(a[k], b[l])
        r = _out(o, j)
    else:
        raise Unsupported("ufunc method %s.%s" % (name, method))
    if dtype is not None and not isinstance(r, (bool, np.bool_, SymBool)):
        r = cast_array(r, dtype) if isinstance(r, np.ndarray) else cast_scalar(r, dtype)
    if out is not None:
        if isinstance(out, SArr):
            np.ndarray.__setitem__(out, Ellipsis, _obj(r))
            return out
        if has_sym(r):
            raise Unsupported("symbolic result written into a plain numpy array")
        out[...] = conc(r)
        return out
    return r


def _red(f, name, vals, init):
    if init is not np._NoValue and init is not None:
        vals = [init] + vals
    if not vals:
        if name in IDENT:
            return IDENT[name]
        raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
    if name in ("logical_and", "logical_or"):
        vals = [_truth(v) for v in vals]
        return sand(*vals) if name == "logical_and" else sor(*vals)
    r = vals[0]
    for v in vals[1:]:
        r = f(r, v)
    return r


# ------------------------------------------------------------------ array functions
def _axis_apply(a, axis, f):
    a = _obj(a)
    if axis is None:
        return f(list(a.ravel()))
    m = np.moveaxis(a, axis, -1)
    o = np.empty(m.shape[:-1], dtype=object)
    for k in np.ndindex(o.shape):
        o[k] = f(list(m[k]))
    return _out(o)


def _kd(f):
    """reductions: keepdims, tuples of axes, dtype and out; anything else is outside the model"""
    @functools.wraps(f)
    def g(a, axis=None, dtype=None, out=None, *r, keepdims=False, **k):
        for n in ("where", "initial"):
            if k.pop(n, np._NoValue) not in (np._NoValue, True, None):
                raise Unsupported("%s argument of %s" % (n, f.__name__))
        b = _obj(a)
        x = axis
        if isinstance(x, tuple):
            x = tuple(v % b.ndim for v in x)
            if len(x) == b.ndim:
                x = None
            else:
                rest = [i for i in range(b.ndim) if i not in x]
                b = np.transpose(b, rest + list(x)).reshape([b.shape[i] for i in rest] + [-1])
                x = -1
        o = f(b, x, *r, **k)
        if keepdims and keepdims is not np._NoValue:
            s = list(np.shape(_obj(a)))
            for i in (range(len(s)) if axis is None else axis if isinstance(axis, tuple) else (axis, )):
                s[i] = 1
            o = mkarr(_obj(o).reshape(s)) if not isinstance(o, np.ndarray) else o.reshape(s)
        if out is not None:
            out[...] = o
            return out
        return o
    return g


def _red_(name):
    def g(a, axis=None, dtype=None, out=None, **k):
        k = {n: v for n, v in k.items() if v is not np._NoValue}
        return apply_ufunc(getattr(np, name), "reduce", (mkarr(a), ), dict(k, axis=axis, dtype=dtype, out=out))
    return g


def f_mean(a, axis=None, **k):
    return _axis_apply(a, axis, lambda v: functools.reduce(lambda x, y: x + y, v) / len(v))


def f_median(a, axis=None, **k):
    def med(v):
        o = _order(v)
        n = len(v)
        return v[o[n // 2]] if n % 2 else (v[o[n // 2 - 1]] + v[o[n // 2]]) / 2
    return _axis_apply(a, axis, med)


def _quantile(v, q):
    s = [v[i] for i in _order(v)]
    h = (len(v) - 1) * float(q)
    i = min(int(math.floor(h)), len(v) - 1)
    j = min(i + 1, len(v) - 1)
    return s[i] + (s[j] - s[i]) * (h - i)


def f_quantile(a, q, axis=None, out=None, overwrite_input=False, method="linear", **k):
    if method != "linear" or np.ndim(q) or has_sym(q) or k.get("keepdims"):
        raise Unsupported("quantile")
    return _axis_apply(a, axis, lambda v: _quantile(v, q))


def _var(v, ddof):
    m = functools.reduce(lambda x, y: x + y, v) / len(v)
    d = [(x - m)**2 for x in v]
    return functools.reduce(lambda x, y: x + y, d) / (len(v) - ddof)


def f_var(a, axis=None, ddof=0, **k):
    return _axis_apply(a, axis, lambda v: _var(v, ddof))


def f_std(a, axis=None, ddof=0, **k):
    return _axis_apply(a, axis, lambda v: sym.ssqrt(_var(v, ddof), True))


def _order(vals):
    """stable insertion sort, forking on undetermined comparisons (numpy uses insertion sort below 16 elements)"""
    idx = []
    for i, v in enumerate(vals):
        p = len(idx)
        while p > 0 and bool(vals[idx[p - 1]] > v):
            p -= 1
        idx.insert(p, i)
    return idx


def f_argsort(a, axis=-1, kind=None, **k):
    a = _obj(a)
    if axis is None:
        a, axis = a.ravel(), -1
    m = np.moveaxis(a, axis, -1)
    o = np.empty(m.shape, dtype=int)
    for kk in np.ndindex(m.shape[:-1]):
        o[kk] = _order(list(m[kk]))
    return np.moveaxis(o, -1, axis)


def f_sort(a, axis=-1, kind=None, **k):
    a = _obj(a)
    if axis is None:
        a, axis = a.ravel(), -1
    m = np.moveaxis(a, axis, -1)
    o = np.empty(m.shape, dtype=object)
    for kk in np.ndindex(m.shape[:-1]):
        vals = list(m[kk])
        for p, i in enumerate(_order(vals)):
            o[kk + (p, )] = vals[i]
    return np.moveaxis(o, -1, axis).view(SArr)


def f_argext(a, smallest, axis=None, **k):
    def one(v):
        b = 0
        for i in range(1, len(v)):
            if bool(v[i] < v[b]) if smallest else bool(v[i] > v[b]):
                b = i
        return b
    r = _axis_apply(a, axis, one)
    return r if isinstance(r, int) else np.array(r.tolist(), dtype=int)


def f_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    r = a
    if a_min is not None:
        r = apply_ufunc(np.maximum, "__call__", (r, a_min), {})
    if a_max is not None:
        r = apply_ufunc(np.minimum, "__call__", (r, a_max), {})
    if out is not None:
        out[...] = r
        return out
    return r


def f_where(c, *xy, **k):
    if not xy:
        return np.nonzero(np.array([bool(v) for v in _obj(c).ravel()]).reshape(np.shape(c)))
    x, y = xy
    c, x, y = np.broadcast_arrays(_obj(c), _obj(x), _obj(y))
    o = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape):
        o[i] = ite(_truth(c[i]), x[i], y[i])
    return _out(o)


def f_dot(a, b, out=None):
    a_, b_ = _obj(a), _obj(b)
    if a_.ndim == 0 or b_.ndim == 0:
        return apply_ufunc(np.multiply, "__call__", (a, b), {})
    return f_matmul(a, b) if b_.ndim <= 2 and a_.ndim <= 2 else _raise("dot of high dimensional arrays")


def _raise(m):
    raise Unsupported(m)


def f_matmul(a, b):
    j = isinstance(a, JArr) or isinstance(b, JArr)
    a, b = _obj(a), _obj(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a2 = a.reshape(1, -1) if a.ndim == 1 else a
    b2 = b.reshape(-1, 1) if b.ndim == 1 else b
    if a2.ndim > 2 or b2.ndim > 2:
        raise Unsupported("batched matmul")
    if a2.shape[1] != b2.shape[0]:
        raise ValueError("matmul: shapes %r and %r not aligned" % (a.shape, b.shape))
    o = np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(o.shape[0]):
        for k in range(o.shape[1]):
            acc = 0.0
            for l in range(a2.shape[1]):
                acc = acc + _mul(a2[i, l], b2[l, k])
            o[i, k] = acc
    if a.ndim == 1:
        o = o[0]
    if b.ndim == 1:
        o = o[..., 0]
    if not isinstance(o, np.ndarray):
        return o
    return _out(o, j)


def _mul(a, b):
    if (is_num(a) and a == 0) or (is_num(b) and b == 0):
        return 0.0
    return a * b


def f_norm(x, ord=None, axis=None, keepdims=False):
    if ord is not None and axis is None and _obj(x).ndim > 1 and ord != "fro":
        raise Unsupported("matrix norm")
    if isinstance(axis, tuple):
        raise Unsupported("matrix norm over axes")
    if keepdims:
        return _kd(lambda a, ax: f_norm(a, ord, ax))(x, axis, keepdims=True)
    if ord not in (None, 2, "fro"):
        if ord in (np.inf, math.inf):
            return _axis_apply(x, axis, lambda v: functools.reduce(smax, [abs(w) for w in v]))
        if ord == 1:
            return _axis_apply(x, axis, lambda v: functools.reduce(lambda p, q: p + q, [abs(w) for w in v]))
        raise Unsupported("norm ord")

    def nn(v):
        acc = 0.0
        for w in v:
            acc = acc + (w.re * w.re + w.im * w.im if isinstance(w, SymComplex) else
                         (w * w.conjugate()).real if isinstance(w, (complex, np.complexfloating)) else w * w)
        return sym.ssqrt(acc, True)
    return _axis_apply(x, axis, nn)


def f_outer(a, b, out=None):
    return apply_ufunc(np.multiply, "outer", (mkarr(_obj(a).ravel()), mkarr(_obj(b).ravel())), {})


def f_kron(a, b):
    a, b = np.atleast_2d(_obj(a)), np.atleast_2d(_obj(b))
    o = np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object)
    for i in np.ndindex(a.shape):
        for k in np.ndindex(b.shape):
            o[i[0] * b.shape[0] + k[0], i[1] * b.shape[1] + k[1]] = _mul(a[i], b[k])
    return _out(o)


def f_trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    a = _obj(a)
    m = np.moveaxis(a, (axis1, axis2), (0, 1))
    o = np.empty(m.shape[2:], dtype=object)
    n = min(m.shape[0], m.shape[1])
    for k in np.ndindex(o.shape):
        acc = 0.0
        for i in range(n):
            if i + offset < m.shape[1]:
                acc = acc + m[(i, i + offset) + k]
        o[k] = acc
    return _out(o)


def f_polyfit(x, y, deg, **k):
    x = [float(v) for v in x]
    y = list(_obj(y))
    n = len(x)
    if deg == 1:
        sx, sxx = sum(x), sum(v * v for v in x)
        sy = functools.reduce(lambda p, q: p + q, y)
        sxy = functools.reduce(lambda p, q: p + q, [a * b for a, b in zip(x, y)])
        d = n * sxx - sx * sx
        m = (n * sxy - sx * sy) / d
        return mkarr([m, (sy - m * sx) / n])
    if deg == 0:
        return mkarr([functools.reduce(lambda p, q: p + q, y) / n])
    raise Unsupported("polyfit degree")


def f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    d = apply_ufunc(np.absolute, "__call__", (np.subtract(a, b),), {})
    return apply_ufunc(np.less_equal, "__call__", (d, atol + rtol * apply_ufunc(np.absolute, "__call__", (b, ), {})), {})


def f_allclose(a, b, **k):
    r = f_isclose(mkarr(a), mkarr(b), **k)
    return r.all() if isinstance(r, np.ndarray) else r


def f_array_equal(a, b, **k):
    a, b = _obj(a), _obj(b)
    if a.shape != b.shape:
        return False
    return sand(*[x == y for x, y in zip(a.ravel(), b.ravel())])


def f_cumsum(a, axis=None, **k):
    return mkarr(a).cumsum(axis)


def f_diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    if prepend is not np._NoValue or append is not np._NoValue:
        raise Unsupported("diff with prepend or append")
    a = np.moveaxis(mkarr(a), axis, -1)
    for _ in range(n):
        a = a[..., 1:] - a[..., :-1]
    return np.moveaxis(a, -1, axis)


def f_convolve(a, v, mode):
    a, v = list(_obj(a)), list(_obj(v))
    full = [functools.reduce(lambda x, y: x + y, [_mul(a[i], v[n - i]) for i in range(len(a)) if 0 <= n - i < len(v)])
            for n in range(len(a) + len(v) - 1)]
    m, k = max(len(a), len(v)), min(len(a), len(v))
    if mode == "same":
        full = full[(k - 1) // 2:(k - 1) // 2 + m]
    elif mode == "valid":
        full = full[k - 1:m]
    return mkarr(full)


def f_einsum(spec, *ops, **k):
    if not isinstance(spec, str) or "." in spec:
        raise Unsupported("einsum form")
    spec = spec.replace(" ", "")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        out = "".join(sorted(c for c in set("".join(ins)) if "".join(ins).count(c) == 1))
    ops = [_obj(o) for o in ops]
    dim = {}
    for i, o in zip(ins, ops):
        if len(i) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match the operand")
        for c, n in zip(i, o.shape):
            if dim.setdefault(c, n) != n:
                raise ValueError("operands could not be broadcast together")
    rest = [c for c in dim if c not in out]
    res = np.empty([dim[c] for c in out], dtype=object)
    for ko in np.ndindex(res.shape):
        at = dict(zip(out, ko))
        acc = 0.0
        for kr in np.ndindex(*[dim[c] for c in rest]):
            at.update(zip(rest, kr))
            acc = acc + functools.reduce(_mul, [o[tuple(at[c] for c in i)] for i, o in zip(ins, ops)])
        res[ko] = acc
    return _out(res)


def f_tensordot(a, b, axes=2):
    a, b = _obj(a), _obj(b)
    if isinstance(axes, int):
        xa, xb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        xa, xb = [[x] if isinstance(x, int) else list(x) for x in axes]
    L = "abcdefghijklmnopqrstuvwxyz"
    ia, ib = list(L[:a.ndim]), list(L[a.ndim:a.ndim + b.ndim])
    for p, r in zip(xa, xb):
        ib[r] = ia[p]
    out = [c for n, c in enumerate(ia) if n not in [x % a.ndim for x in xa]] + [
        c for n, c in enumerate(ib) if n not in [x % b.ndim for x in xb]]
    return f_einsum("%s,%s->%s" % ("".join(ia), "".join(ib), "".join(out)), a, b)


def f_searchsorted(a, v, side="left", sorter=None):
    if sorter is not None:
        raise Unsupported("searchsorted sorter")
    a = list(_obj(a))

    def one(x):
        n = 0
        while n < len(a) and bool(a[n] < x if side == "left" else a[n] <= x):
            n += 1
        return n
    v_ = _obj(v)
    if v_.ndim == 0:
        return one(v_.item())
    return np.array([one(x) for x in v_.ravel()], dtype=int).reshape(v_.shape)


def f_digitize(x, bins, right=False):
    return f_searchsorted(bins, x, "left" if right else "right")


def f_lexsort(keys):
    o = None
    for k in keys:
        k = list(_obj(k))
        o = _order(k) if o is None else [o[i] for i in _order([k[j] for j in o])]
    return np.array(o, dtype=int)


def f_trapz(y, x=None, dx=1.0, axis=-1):
    y = _obj(y)
    if y.ndim != 1:
        raise Unsupported("trapezoid of a matrix")
    d = [dx] * (len(y) - 1) if x is None else [b - a for a, b in zip(list(_obj(x))[:-1], list(_obj(x))[1:])]
    return functools.reduce(lambda p, r: p + r, [h * (a + b) / 2 for h, a, b in zip(d, y[:-1], y[1:])])


def f_along(f, axis, a, *r, **k):
    a = _obj(a)
    m = np.moveaxis(a, axis, -1)
    outs = {i: f(mkarr(m[i]), *r, **k) for i in np.ndindex(m.shape[:-1])}
    first = _obj(next(iter(outs.values())))
    o = np.empty(m.shape[:-1] + first.shape, dtype=object)
    for i, v in outs.items():
        o[i] = _obj(v) if first.shape else _obj(v).item()
    return _out(np.moveaxis(o, -1, axis) if first.shape else o)


def f_gradient(a, *r, **k):
    a = list(_obj(a))
    if k or len(r) > 1 or (r and np.ndim(r[0])) or np.ndim(_obj(a)) != 1:
        raise Unsupported("gradient form")
    h = r[0] if r else 1.0
    n = len(a)
    return mkarr([(a[1] - a[0]) / h] + [(a[i + 1] - a[i - 1]) / (2 * h) for i in range(1, n - 1)] + [(a[-1] - a[-2]) / h])


def _sinc(v):
    return ite(v == 0, 1.0, (v * math.pi).sin() / (ite(v == 0, 1.0, v) * math.pi)) if is_sym(v) else np.sinc(v)


def f_cross(a, b):
    a, b = list(_obj(a)), list(_obj(b))
    if len(a) != 3 or len(b) != 3 or np.ndim(a) != 1:
        raise Unsupported("cross")
    return mkarr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def f_fill_diagonal(a, v):
    for i in range(min(a.shape)):
        np.ndarray.__setitem__(a, (i, i), v if np.ndim(v) == 0 else v[i % len(v)])


def f_interp_sym(x, xp, fp):
    """piecewise linear interpolation with concrete or symbolic increasing abscissae"""
    xp, fp = list(_obj(xp)), list(_obj(fp))

    def one(v):
        r = fp[-1]
        for i in range(len(xp) - 2, -1, -1):
            r = ite(v < xp[i + 1], fp[i] + (fp[i + 1] - fp[i]) * ((v - xp[i]) / (xp[i + 1] - xp[i])), r)
        return ite(v < xp[0], fp[0], r)
    return _map(x, one) if isinstance(x, (np.ndarray, list, tuple)) else one(x)


def f_average(a, axis=None, weights=None, **k):
    if weights is None:
        return f_mean(a, axis)
    a, w = mkarr(a), mkarr(weights)
    return (a * w).sum(axis) / w.sum(axis)


def f_interp(x, xp, fp, left=None, right=None, period=None):
    if left is not None or right is not None or period is not None:
        raise Unsupported("interp options")
    return f_interp_sym(x, xp, fp)


def f_unary(name):
    return lambda a, *r, **k: _map(a, UNARY[name])


FUNCS = {
    "mean": _kd(f_mean), "std": _kd(f_std), "var": _kd(f_var), "nanmean": _kd(f_mean), "nanstd": _kd(f_std),
    "nanvar": _kd(f_var), "median": _kd(f_median), "nanmedian": _kd(f_median), "quantile": f_quantile, "nanquantile": f_quantile,
    "percentile": lambda a, q, *r, **k: f_quantile(a, q / 100, *r, **k), "argsort": f_argsort, "sort": f_sort,
    "argmin": lambda a, axis=None, **k: f_argext(a, True, axis), "argmax": lambda a, axis=None, **k: f_argext(a, False, axis),
    "clip": f_clip, "where": f_where, "dot": f_dot, "norm": f_norm, "outer": f_outer, "kron": f_kron,
    "trace": f_trace, "polyfit": f_polyfit, "isclose": f_isclose, "allclose": f_allclose,
    "array_equal": f_array_equal, "cumsum": f_cumsum, "diff": f_diff, "average": f_average,
    "sum": _red_("add"), "prod": _red_("multiply"), "max": _red_("maximum"), "amax": _red_("maximum"),
    "min": _red_("minimum"), "amin": _red_("minimum"), "all": _red_("logical_and"), "any": _red_("logical_or"),
    "nanmax": _red_("maximum"), "nanmin": _red_("minimum"), "nansum": _red_("add"), "nanprod": _red_("multiply"),
    "ptp": _kd(lambda a, axis=None: mkarr(a).max(axis) - mkarr(a).min(axis)),
    "real": lambda a: a.real if is_sym(a) else mkarr(a).real, "imag": lambda a: a.imag if is_sym(a) else mkarr(a).imag,
    "vdot": lambda a, b: f_dot(mkarr(a).ravel().conj(), mkarr(b).ravel()),
    "inner": lambda a, b: f_dot(a, _obj(b).T), "multi_dot": lambda ms: functools.reduce(f_matmul, ms),
    "interp": f_interp, "nan_to_num": lambda a, **k: a,
    "round": f_round, "around": f_round,
    "isreal": lambda a: True, "iscomplexobj": lambda a: any(isinstance(v, (SymComplex, complex)) for v in _obj(a).ravel()),
    "count_nonzero": lambda a, **k: sum(ite(_truth(v), 1, 0) for v in _obj(a).ravel()),
    "nonzero": lambda a: f_where(a), "flatnonzero": lambda a: f_where(a)[0], "argwhere": lambda a: np.transpose(f_where(a)),
    "linspace": None, "cov": None, "convolve": lambda a, v, mode="full": f_convolve(a, v, mode), "correlate": lambda a, v, mode="valid": f_convolve(
        a, mkarr(v).conj()[::-1], mode),
    "cumprod": lambda a, axis=None, **k: mkarr(a).cumprod(axis), "nancumsum": lambda a, axis=None, **k: mkarr(a).cumsum(axis),
    "einsum": lambda *a, **k: f_einsum(*a, **k), "tensordot": lambda a, b, axes=2: f_tensordot(a, b, axes),
    "select": lambda c, x, default=0: functools.reduce(lambda r, p: f_where(p[0], p[1], r), list(zip(c, x))[::-1], default),
    "searchsorted": lambda a, v, side="left", sorter=None: f_searchsorted(a, v, side, sorter),
    "digitize": lambda x, bins, right=False: f_digitize(x, bins, right),
    "nanargmin": lambda a, axis=None, **k: f_argext(a, True, axis), "nanargmax": lambda a, axis=None, **k: f_argext(a, False, axis),
    "partition": lambda a, kth, axis=-1, **k: f_sort(a, axis), "argpartition": lambda a, kth, axis=-1, **k: f_argsort(a, axis),
    "lexsort": lambda keys, axis=-1: f_lexsort(keys), "polyval": lambda p, x: functools.reduce(
        lambda r, c: mkarr(x) * r + c if isinstance(x, (np.ndarray, list, tuple)) else x * r + c, list(p), 0.0),
    "trapezoid": lambda y, x=None, dx=1.0, axis=-1: f_trapz(y, x, dx, axis), "trapz": lambda y, x=None, dx=1.0, axis=-1: f_trapz(
        y, x, dx, axis),
    "apply_along_axis": lambda f, axis, a, *r, **k: f_along(f, axis, a, *r, **k),
    "matrix_power": lambda a, n: functools.reduce(f_matmul, [a] * n) if n > 0 else np.eye(len(a)) if n == 0 else _raise("matrix_power"),
    "ediff1d": lambda a, **k: f_diff(mkarr(a).ravel()), "gradient": lambda a, *r, **k: f_gradient(a, *r, **k),
    "sinc": lambda a: _map(a, _sinc), "cross": lambda a, b, **k: f_cross(a, b), "angle": lambda a, deg=False: _raise("angle"),
    "fill_diagonal": lambda a, v, **k: f_fill_diagonal(a, v), "i0": None, "unwrap": None, "unique": None, "histogram": None, "array2string": lambda *a, **k: "<symarray>",
    "array_str": lambda *a, **k: "<symarray>", "array_repr": lambda *a, **k: "<symarray>",
}


def _deep_conc(x):
    if isinstance(x, np.ndarray):
        return conc(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_deep_conc(v) for v in x)
    return x


def _plain(x):
    if isinstance(x, SArr):
        return np.ndarray.view(x, np.ndarray)
    if is_sym(x):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    return type(x)(_plain(v) for v in x) if type(x) in (list, tuple) else x


def apply_function(func, args, kwargs):
    name = func.__name__
    j = any(isinstance(x, JArr) for x in args)
    if not any(has_sym(x) for x in args) and not any(has_sym(x) for x in kwargs.values()):
        r = func(*[_deep_conc(x) for x in args], **{k: _deep_conc(v) for k, v in kwargs.items()})
        return wrap_out(r, j)
    if name in FUNCS:
        f = FUNCS[name]
        if f is None:
            raise Unsupported("numpy function %s" % name)
        return wrap_out(f(*args, **kwargs), j)
    args = [mkarr(x) if is_sym(x) else x for x in args]
    args = [_plain(x) for x in args]
    kwargs = {k: _plain(v) for k, v in kwargs.items()}
    if name not in STRUCTURAL:
        raise Unsupported("numpy function %s" % name)
    return wrap_out(func(*args, **kwargs), j)


# pure data movement: numpy's own code on object arrays
STRUCTURAL = {"take", "concatenate", "append", "tile", "repeat", "reshape", "ravel", "transpose", "swapaxes", "moveaxis",
              "stack", "vstack", "hstack", "dstack", "column_stack", "diag", "diagonal", "expand_dims", "squeeze",
              "broadcast_to", "broadcast_arrays", "atleast_1d", "atleast_2d", "flip", "fliplr", "flipud", "roll",
              "split", "array_split", "insert", "delete", "copy", "copyto", "triu", "tril", "shape", "size", "ndim",
              "zeros_like", "ones_like", "full_like", "empty_like", "put", "putmask", "rot90", "resize", "pad",
              "compress", "choose", "block", "row_stack", "meshgrid", "rollaxis", "vsplit", "hsplit", "atleast_3d", "ix_", "iterable", "array_split", "trim_zeros", "diagflat", "unstack", "matrix_transpose", "permute_dims", "take_along_axis",
              "result_type", "can_cast", "min_scalar_type", "may_share_memory", "shares_memory"}


# ------------------------------------------------------------------ numpy proxy
def conv(x):
    """lists holding symbolic values -> SArr"""
    if isinstance(x, (list, tuple)) and has_sym(x):
        return mkarr(list(x))
    return x


def deep(x):
    """arguments which are collections of arrays (their shapes may differ): every array on its own"""
    if isinstance(x, (list, tuple)) and any(isinstance(v, (list, tuple, np.ndarray)) for v in x):
        return type(x)(deep(v) for v in x)
    if isinstance(x, (list, tuple)) and has_sym(x):
        return [np.array(v, dtype=object) if is_sym(v) else v for v in x]
    return x


LISTS = {"concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "row_stack", "block", "append", "select",
         "einsum", "multi_dot", "broadcast_arrays", "meshgrid", "lexsort", "insert", "ix_", "kron", "outer", "tensordot"}


class UfuncProxy:
    def __init__(self, u, j=False):
        self.u = u
        self.j = j
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        return wrap_out(self.u(*[conv(x) for x in a], **k), self.j)

    def __getattr__(self, n):
        m = getattr(self.u, n)
        if callable(m):
            return lambda *a, **k: wrap_out(m(*[conv(x) for x in a], **k), self.j)
        return m


def _np_array(x, dtype=None, copy=True, j=False, **k):
    dtype = ndt(dtype)
    if isinstance(x, types.GeneratorType):
        x = list(x)
    if not has_sym(x):
        kind = np.dtype(dtype).kind if dtype is not None else None
        if isinstance(x, np.ndarray) and x.dtype == object:
            r = conc(x)
            if not isinstance(r, np.ndarray) or r.dtype == object:
                return mkarr(x, j)
        else:
            r = _deep_conc(x)
        r = np.array(r, dtype=None if kind == "O" else dtype)
        if r.dtype.kind in "fc" or kind == "O":
            return mkarr(r, j) if r.ndim else _z(r)
        return r
    a = _obj(x).copy()
    if dtype is not None:
        kind = np.dtype(dtype).kind
        if kind in "iufb":
            for i in np.ndindex(a.shape):
                a[i] = cast_scalar(a[i], dtype)
    return a.view(JArr if j else SArr)


def _z(r):
    return r[()]


def _np_asarray(x, dtype=None, j=False, **k):
    dtype = ndt(dtype)
    if isinstance(x, SArr) and (dtype is None or np.dtype(dtype).kind in "fcO"):
        return x if (not j or isinstance(x, JArr)) else x.view(JArr)
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype.kind in "iub" and dtype is None:
        return x
    return _np_array(x, dtype, j=j)


def make_np(j=False, extra=None):
    """front end module for `numpy` (or `jax.numpy` with j=True)"""
    m = {}
    m["array"] = lambda x, dtype=None, **k: _np_array(x, dtype, j=j)
    m["asarray"] = lambda x, dtype=None, **k: _np_asarray(x, dtype, j=j)
    m["asanyarray"] = m["asarray"]
    m["ascontiguousarray"] = m["asarray"]
    m["asfarray"] = m["asarray"]
    m["copy"] = lambda x, **k: _np_array(x, j=j)

    def creator(name):
        real = getattr(np, name)

        def f(*a, **k):
            a = tuple(ndt(x) for x in a)
            if k.get("dtype") is not None:
                k["dtype"] = ndt(k["dtype"])
                if np.dtype(k["dtype"]).kind == "O":
                    k.pop("dtype")
            if has_sym(a) or has_sym(list(k.values())):
                return f_creator_sym(name, a, k, j)
            return wrap_out(real(*[_deep_conc(x) for x in a], **{kk: _deep_conc(v) for kk, v in k.items()}), j)
        return f

    for n in ("zeros", "ones", "empty", "full", "eye", "identity", "linspace", "arange", "zeros_like", "ones_like",
              "full_like", "empty_like", "logspace", "tri", "fromfunction"):
        m[n] = creator(n)
    m["fromiter"] = lambda it, dtype=None, count=-1, **k: _np_array([v for _, v in zip(range(count), it)] if count >= 0 else list(it), dtype, j=j)
    m["dot"] = lambda a, b, **k: wrap_out(f_dot(a, b) if (has_sym(a) or has_sym(b)) else np.dot(conc(a), conc(b)), j)
    m["matmul"] = lambda a, b, **k: wrap_out(f_matmul(a, b) if (has_sym(a) or has_sym(b)) else np.matmul(conc(a), conc(b)), j)
    m["where"] = lambda c, *xy: wrap_out(
        f_where(c, *xy) if has_sym(c) or has_sym(list(xy)) else np.where(_deep_conc(c), *[_deep_conc(v) for v in xy]), j)
    m["linalg"] = ModProxy("numpy.linalg", np.linalg, {
        "norm": lambda x, *a, **k: (f_norm(x, *a, **k) if has_sym(x) else np.linalg.norm(conc(x), *a, **k)),
        "eigh": lambda x, **k: linalg_hook("eigh", x), "eig": lambda x, **k: linalg_hook("eig", x),
        "inv": lambda x, **k: linalg_hook("inv", x), "eigvals": lambda x: linalg_hook("eigvals", x),
        "qr": lambda x, **k: linalg_hook("qr", x), "solve": lambda a, b: linalg_hook("solve", a, b),
        "det": lambda x: linalg_hook("det", x),
        "multi_dot": lambda ms: functools.reduce(f_matmul, ms)}, j)
    m["abs"] = UfuncProxy(np.absolute, j)
    m["max"] = m["amax"] = lambda a, axis=None, **k: wrap_out(FUNCS["max"](a, axis, **k), j)
    m["min"] = m["amin"] = lambda a, axis=None, **k: wrap_out(FUNCS["min"](a, axis, **k), j)
    m["float64"] = FloatType("float64", np.float64)
    m["float32"] = FloatType("float32", np.float32)
    m["float128"] = getattr(np, "float128", np.float64)
    m["vectorize"] = lambda f, **k: (lambda *a: _vec(f, a))
    m["iscomplexobj"] = FUNCS["iscomplexobj"]
    if j:
        m["ndarray"] = JArr
        m["complex64"] = np.complex128
        m["complex128"] = np.complex128
    m.update(extra or {})
    return ModProxy("jax.numpy" if j else "numpy", np, m, j)


class FloatType(type):
    """np.float64 stand-in: callable on symbolic values, usable as dtype"""

    def __new__(mcs, name, base):
        def new(cls, x=0.0):
            if is_sym(x):
                return cast_scalar(x, float)
            if isinstance(x, np.ndarray) and x.dtype == object and x.ndim == 0:
                return new(cls, x.item())
            if has_sym(x):
                return cast_array(x, float)
            return base(x)
        return type.__new__(mcs, name, (), {"__new__": new, "dtype": np.dtype(base)})

    def __init__(cls, *a):
        pass

    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64, SymReal))


def _vec(f, a):
    arrs = np.broadcast_arrays(*[_obj(x) for x in a])
    o = np.empty(arrs[0].shape, dtype=object)
    for k in np.ndindex(o.shape):
        o[k] = f(*[x[k] for x in arrs])
    return _out(o)


def linalg_hook(name, *a):
    if not any(has_sym(x) for x in a):
        return wrap_out(getattr(np.linalg, name)(*[conc(x) for x in a]))
    h = getattr(sym.CTX, "linalg_hooks", {}).get(name)
    if h is None:
        raise Unsupported("linalg.%s of a symbolic matrix" % name)
    return h(*a)


def f_creator_sym(name, a, k, j):
    k = dict(k)
    if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
        sh = np.shape(_obj(a[0]))
        v = {"zeros_like": 0.0, "ones_like": 1.0, "empty_like": 0.0}.get(name)
        if name == "full_like":
            v = a[1] if len(a) > 1 else k["fill_value"]
        o = np.empty(sh, dtype=object)
        o[...] = v if not isinstance(v, np.ndarray) else _obj(v)
        return o.view(JArr if j else SArr) if o.ndim else v
    if name == "full":
        sh = a[0] if a else k["shape"]
        v = a[1] if len(a) > 1 else k["fill_value"]
        o = np.empty(int(sh) if not isinstance(sh, (tuple, list)) else tuple(int(s) for s in sh), dtype=object)
        o[...] = v if not isinstance(v, np.ndarray) else _obj(v)
        return o.view(JArr if j else SArr)
    if name == "linspace":
        names = ["start", "stop", "num", "endpoint", "retstep", "dtype", "axis"]
        d = dict(zip(names, a))
        d.update(k)
        n = int(d.get("num", 50))
        ep = d.get("endpoint", True)
        s, e = d["start"], d["stop"]
        div = (n - 1) if ep else n
        if isinstance(s, np.ndarray) or isinstance(e, np.ndarray):
            s = s.item() if isinstance(s, np.ndarray) else s
            e = e.item() if isinstance(e, np.ndarray) else e
        vals = [s + (e - s) * (i / div if div else 0.0) if not (ep and i == n - 1 and n > 1) else e + 0.0 for i in range(n)]
        r = mkarr(vals, j)
        if d.get("retstep"):
            return r, (e - s) / div
        return r
    if name in ("zeros", "ones", "empty", "eye", "identity"):
        return wrap_out(getattr(np, name)(*[int(x) if is_sym(x) else tuple(int(y) for y in x) if isinstance(x, (tuple, list)) else x for x in a], **k), j)
    if name == "arange":
        aa = list(a)
        if len(aa) == 1:
            return np.arange(int(aa[0]))
        start, stop = aa[0], aa[1]
        step = aa[2] if len(aa) > 2 else 1
        out, i = [], 0
        while True:
            v = start + i * step
            if not bool(v < stop):
                break
            out.append(v)
            i += 1
            if i > 64:
                raise Unsupported("arange too long")
        return mkarr(out, j)
    raise Unsupported("numpy creation function %s with symbolic arguments" % name)


class ModProxy(types.ModuleType):
    """module front end: overrides first, everything else is the real module's, wrapped for symbolic list arguments"""

    def __init__(self, name, real, overrides, j=False, wrap=True):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_ov"] = dict(overrides)
        self.__dict__["_j"] = j
        self.__dict__["_wrap"] = wrap
        self.__dict__["_cache"] = {}
        self.__dict__["__path__"] = getattr(real, "__path__", [])

    def __getattr__(self, n):
        ov = self.__dict__["_ov"]
        if n in ov:
            return ov[n]
        c = self.__dict__["_cache"]
        if n in c:
            return c[n]
        real = self.__dict__["_real"]
        if real is None:
            raise AttributeError("module %r has no attribute %r" % (self.__name__, n))
        v = getattr(real, n)
        if self.__dict__["_wrap"]:
            jj = self.__dict__["_j"]
            if isinstance(v, np.ufunc):
                v = UfuncProxy(v, jj)
            elif callable(v) and not isinstance(v, type) and not isinstance(v, types.ModuleType):
                v = _wrapf(v, n, jj)
        c[n] = v
        return v


def _wrapf(f, n, j):
    @functools.wraps(f)
    def w(*a, **k):
        if n in LISTS and has_sym(list(a) + list(k.values())):
            a = [deep(x) for x in a]
            k = {kk: deep(v) for kk, v in k.items()}
            return wrap_out(apply_function(f, a, k), j)
        a = [conv(x) for x in a]
        k = {kk: conv(v) for kk, v in k.items()}
        if n in FUNCS and (any(is_sym(x) for x in a)):
            return wrap_out(apply_function(f, a, k), j)
        if any(isinstance(x, SArr) for x in a) and not any(has_sym(x) for x in a):
            return wrap_out(f(*[_deep_conc(x) for x in a], **{kk: _deep_conc(v) for kk, v in k.items()}), j)
        return wrap_out(f(*a, **k), j)
    return w
