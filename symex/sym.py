"""Symbolic scalars.

A SymReal / SymBool / SymComplex flows through the real quocslib code.  Arithmetic builds z3 terms over the
reals, a truth test on a SymBool asks the engine, which forks the execution when both outcomes are possible.
Every SymReal carries a *shadow*: its float value under one fixed random assignment of the inputs.  The shadow is
only a cheap filter (which pairs of transcendental arguments can be equal at all), it never decides anything.
"""
import math
import numbers
from fractions import Fraction

import numpy as np

from .z3path import z3

CTX = None  # the active engine


class OutOfModel(Exception):
    """The path leaves the modelled semantics (division by zero, sqrt of a negative number, ...)."""


class Unsupported(Exception):
    """The code under test did something with a symbolic value which the engine cannot encode."""


_rv_cache = {}


def rv(x):
    """Exact z3 rational of a python / numpy number."""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, np.generic):
        x = x.item()
    try:
        r = _rv_cache.get(x)
    except TypeError:
        r = None
    if r is not None:
        return r
    if isinstance(x, complex):
        raise Unsupported("complex value in a real context")
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
        raise OutOfModel("non finite constant %r" % x)
    f = Fraction(x)
    r = z3.RatVal(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
    _rv_cache[x] = r
    return r


def is_num(x):
    return isinstance(x, (int, float, np.number, np.bool_, Fraction)) and not isinstance(x, (complex, np.complexfloating))


def is_sym(x):
    return isinstance(x, (SymReal, SymBool, SymComplex))


def _to_real(x):
    """-> (expr, shadow) or None"""
    if isinstance(x, SymReal):
        return x.e, x.sh
    if isinstance(x, SymBool):
        return z3.If(x.e, rv(1), rv(0)), 0.5
    if is_num(x):
        return rv(x), float(x)
    return None


def lift(x):
    r = _to_real(x)
    if r is None:
        raise Unsupported("cannot lift %r" % (type(x),))
    return SymReal(*r)


def mk(e, sh):
    return SymReal(e, sh)


class SymReal:
    __slots__ = ("e", "sh")
    __array_priority__ = 1000.0

    def __init__(self, e, sh):
        self.e = e
        self.sh = sh

    # ---- numpy protocol -------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import sarr
        return sarr.apply_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import sarr
        return sarr.apply_function(func, args, kwargs)

    # ---- arithmetic -----------------------------------------------------
    def _bin(self, o, f, fs, rev=False):
        if isinstance(o, SymComplex):
            return NotImplemented
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o.item()
        if isinstance(o, (complex, np.complexfloating)):
            return NotImplemented
        r = _to_real(o)
        if r is None:
            return NotImplemented
        e, sh = r
        try:
            if rev:
                return SymReal(f(e, self.e), fs(sh, self.sh))
            return SymReal(f(self.e, e), fs(self.sh, sh))
        except (OverflowError, ZeroDivisionError):
            return SymReal(f(e, self.e) if rev else f(self.e, e), 0.123)

    def __add__(self, o):
        if is_num(o) and o == 0:
            return self
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            return to_complex(self) + o
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        if is_num(o) and o == 0:
            return self
        if isinstance(o, (complex, np.complexfloating)):
            return to_complex(self) + o
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b, True)

    def __sub__(self, o):
        if is_num(o) and o == 0:
            return self
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            return to_complex(self) - o
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return to_complex(o) - self
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b, True)

    def __mul__(self, o):
        if is_num(o):
            if o == 0:
                return 0.0
            if o == 1:
                return self
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            return to_complex(self) * o
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        if is_num(o):
            if o == 0:
                return 0.0
            if o == 1:
                return self
        if isinstance(o, (complex, np.complexfloating)):
            return to_complex(self) * o
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if is_num(o):
            if o == 0:
                raise OutOfModel("division by zero")
            if o == 1:
                return self
            inv = 1 / Fraction(o.item() if isinstance(o, np.generic) else o)
            return SymReal(self.e * z3.RatVal(inv.numerator, inv.denominator), self.sh / float(o))
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            return to_complex(self) / o
        r = _to_real(o)
        if r is None:
            return NotImplemented
        return sdiv(self, SymReal(*r))

    def __rtruediv__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return to_complex(o) / self
        r = _to_real(o)
        if r is None:
            return NotImplemented
        if is_num(o) and o == 0:
            return 0.0
        return sdiv(SymReal(*r), self)

    def __floordiv__(self, o):
        return floor_(self / o)

    def __rfloordiv__(self, o):
        return floor_(o / self)

    def __mod__(self, o):
        return self - floor_(self / o) * o

    def __rmod__(self, o):
        return o - floor_(o / self) * self

    def __pow__(self, o):
        if is_num(o):
            if float(o) == int(o):
                n = int(o)
                if n == 0:
                    return 1.0
                r = self
                for _ in range(abs(n) - 1):
                    r = r * self
                return r if n > 0 else 1.0 / r
            if float(o) == 0.5:
                return self.sqrt()
            if float(o) == -0.5:
                return 1.0 / self.sqrt()
        return CTX.uf2("pow", self, o, lambda a, b: a**b)

    def __rpow__(self, o):
        return CTX.uf2("pow", o, self, lambda a, b: a**b)

    def __neg__(self):
        return SymReal(-self.e, -self.sh)

    def __pos__(self):
        return self

    def __abs__(self):
        return _pick(self.e >= 0, self, -self, abs(self.sh))

    # ---- comparisons ----------------------------------------------------
    def _cmp(self, o, f):
        if isinstance(o, np.ndarray):
            if o.ndim:
                return NotImplemented
            o = o.item()
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            return f(0.0, o) if not math.isnan(o) else f(0.0, o)
        r = _to_real(o)
        if r is None:
            return NotImplemented
        return mkbool(f(self.e, r[0]), f(self.sh, r[1]) if self.sh == self.sh and r[1] == r[1] else None)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, dict)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, dict)):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        return hash(self.e)

    def __bool__(self):
        return CTX.branch(self.e != 0)

    # ---- conversions ----------------------------------------------------
    def __float__(self):
        raise Unsupported("float() of a symbolic value outside the shims")

    def __int__(self):
        return CTX.concretize_int(self)

    def __index__(self):
        return CTX.concretize_int(self)

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value outside the shims")

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __round__(self, n=None):
        from . import sarr
        if n is None:
            return CTX.concretize_int(sarr._rint(self))
        return sarr._rint(self * 10.0**n) / 10.0**n

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # ---- numpy scalar look-alike ---------------------------------------
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return np.dtype("float64")

    shape = ()
    ndim = 0
    size = 1

    def copy(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def astype(self, dt, **k):
        from . import sarr
        return sarr.cast_scalar(self, dt)

    def conjugate(self):
        return self

    conj = conjugate

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def reshape(self, *a):
        from . import sarr
        return sarr.mkarr([self]).reshape(*a)

    def flatten(self):
        return self.reshape(1)

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    # elementwise math (object ufunc loops look these up by name)
    def sqrt(self, nonneg=False):
        """nonneg: the argument is a sum of squares by construction, no branch on its sign is needed"""
        e = z3.simplify(self.e)
        if z3.is_rational_value(e):
            return CTX.sqrt(self)
        if not nonneg and CTX.branch(e < 0):
            raise OutOfModel("sqrt of a negative number")
        return LazySqrt(SymReal(e, self.sh))

    def sin(self):
        return CTX.uf("sin", self)

    def cos(self):
        return CTX.uf("cos", self)

    def tan(self):
        return CTX.uf("tan", self)

    def tanh(self):
        return CTX.uf("tanh", self)

    def arccos(self):
        return CTX.uf("arccos", self)

    def arcsin(self):
        return CTX.uf("arcsin", self)

    def arctan(self):
        return CTX.uf("arctan", self)

    def exp(self):
        return CTX.uf("exp", self)

    def log(self):
        return CTX.uf("log", self)

    def log2(self):
        return CTX.uf("log", self) / math.log(2)

    def log10(self):
        return CTX.uf("log", self) / math.log(10)

    def erf(self):
        return CTX.uf("erf", self)

    def normcdf(self):
        return CTX.uf("normcdf", self)

    def square(self):
        return self * self

    def floor(self):
        return floor_(self)

    def ceil(self):
        return -floor_(-self)

    def sign(self):
        return SymReal(z3.If(self.e > 0, rv(1), z3.If(self.e < 0, rv(-1), rv(0))), 1.0)

    def fabs(self):
        return abs(self)

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def isinf(self):
        return False

    def total_seconds(self):
        raise AttributeError("total_seconds")


class LazySqrt(SymReal):
    """sqrt(rad): comparisons against constants are rewritten to polynomial ones, the root is only materialised
    (fresh variable s >= 0, s*s == rad) when it is used in arithmetic."""
    __slots__ = ("rad", "_m")

    def __init__(self, rad):
        self.rad = rad
        self._m = None

    @property
    def e(self):
        if self._m is None:
            self._m = CTX.sqrt(self.rad, True)
        m = self._m
        return m.e if isinstance(m, SymReal) else rv(m)

    @property
    def sh(self):
        return math.sqrt(abs(self.rad.sh))

    def _const(self, o):
        return is_num(o) and not isinstance(o, (bool, np.bool_))

    def _sq(self, o):
        f = Fraction(o.item() if isinstance(o, np.generic) else o)
        f = f * f
        return z3.RatVal(f.numerator, f.denominator)

    def __lt__(self, o):
        if self._const(o) and math.isfinite(o):
            return False if o <= 0 else mkbool(self.rad.e < self._sq(o))
        return SymReal.__lt__(self, o)

    def __le__(self, o):
        if self._const(o) and math.isfinite(o):
            return False if o < 0 else mkbool(self.rad.e <= self._sq(o))
        return SymReal.__le__(self, o)

    def __gt__(self, o):
        if self._const(o) and math.isfinite(o):
            return True if o < 0 else mkbool(self.rad.e > self._sq(o))
        return SymReal.__gt__(self, o)

    def __ge__(self, o):
        if self._const(o) and math.isfinite(o):
            return True if o <= 0 else mkbool(self.rad.e >= self._sq(o))
        return SymReal.__ge__(self, o)

    __hash__ = SymReal.__hash__

    def __pow__(self, n):
        if is_num(n) and n == 2:
            return self.rad
        return SymReal.__pow__(self, n)

    def __abs__(self):
        return self


numbers.Real.register(SymReal)


def _fl(f, v):
    try:
        return float(f(v))
    except (ValueError, OverflowError):
        return math.nan


def floor_(x):
    if not isinstance(x, SymReal):
        return math.floor(x)
    e = x.e
    if e.is_int():
        return x
    return SymReal(z3.ToReal(z3.ToInt(e)), _fl(math.floor, x.sh))


def sign_(x):
    return x.sign() if isinstance(x, SymReal) else math.copysign(1.0, x) if x else 0.0


def trunc_(x):
    e = x.e if not x.e.is_int() else z3.ToReal(x.e)
    f = z3.ToReal(z3.ToInt(e))
    return SymReal(z3.If(e >= 0, f, -z3.ToReal(z3.ToInt(-e))), _fl(math.trunc, x.sh))


def sdiv(a, b):
    e = z3.simplify(b.e)
    if z3.is_rational_value(e):
        if e.as_fraction() == 0:
            raise OutOfModel("division by zero")
        return SymReal(a.e / e, a.sh / b.sh if b.sh else 0.0)
    if CTX.branch(b.e == 0):
        raise OutOfModel("division by zero")
    return SymReal(a.e / b.e, (a.sh / b.sh) if b.sh else 0.77)


def mkbool(e, sh=None):
    if isinstance(e, (bool, np.bool_)):
        return bool(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e, sh)


def bexpr(b):
    """python bool / SymBool -> z3 Bool"""
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, SymReal):
        return b.e != 0
    if isinstance(b, np.ndarray) and b.ndim == 0:
        return bexpr(b.item())
    return z3.BoolVal(bool(b))


class SymBool:
    __slots__ = ("e", "sh")
    __array_priority__ = 1000.0

    def __init__(self, e, sh=None):
        self.e = e
        self.sh = sh        # value under the shadow assignment, None: not known

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import sarr
        return sarr.apply_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import sarr
        return sarr.apply_function(func, args, kwargs)

    def __bool__(self):
        return CTX.branch(self.e)

    def __and__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return mkbool(z3.simplify(z3.And(self.e, bexpr(o))))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return mkbool(z3.simplify(z3.Or(self.e, bexpr(o))))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.simplify(z3.Xor(self.e, bexpr(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return mkbool(z3.Not(self.e))

    def _r(self):
        return SymReal(z3.If(self.e, rv(1), rv(0)), 0.5)

    def __add__(self, o):
        return self._r() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._r() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._r() - o

    def __rsub__(self, o):
        return o - self._r()

    def __truediv__(self, o):
        return self._r() / o

    def __neg__(self):
        return -self._r()

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if is_num(o) or isinstance(o, SymReal):
            return self._r() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __lt__(self, o):
        return self._r() < o

    def __gt__(self, o):
        return self._r() > o

    def __le__(self, o):
        return self._r() <= o

    def __ge__(self, o):
        return self._r() >= o

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def any(self, *a, **k):
        return self

    all = any


class SymComplex:
    """Complex number with symbolic (or concrete) real and imaginary parts."""
    __slots__ = ("re", "im")
    __array_priority__ = 1001.0

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import sarr
        return sarr.apply_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import sarr
        return sarr.apply_function(func, args, kwargs)

    def exp(self):
        from . import sarr
        m = sarr._e("exp")(self.re) if is_sym(self.re) or self.re != 0 else 1.0
        return SymComplex(m * sarr._e("cos")(self.im), m * sarr._e("sin")(self.im))

    def square(self):
        return self * self

    def __add__(self, o):
        o = to_complex(o)
        return NotImplemented if o is None else SymComplex(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = to_complex(o)
        return NotImplemented if o is None else SymComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = to_complex(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        o = to_complex(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = to_complex(o)
        if o is None:
            return NotImplemented
        d = o.re * o.re + o.im * o.im
        n = self * SymComplex(o.re, -o.im)
        return SymComplex(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        return to_complex(o) / self

    def __pow__(self, n):
        if is_num(n) and float(n) == int(n) and int(n) >= 1:
            r = self
            for _ in range(int(n) - 1):
                r = r * self
            return r
        raise Unsupported("complex power")

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        return ssqrt(self.re * self.re + self.im * self.im, True)

    def __eq__(self, o):
        o = to_complex(o)
        if o is None:
            return False
        return mkbool(z3.And(bexpr(self.re == o.re), bexpr(self.im == o.im)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash((hash(self.re), hash(self.im)))

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def copy(self):
        return self

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<symcomplex>"

    def __format__(self, s):
        return "<symcomplex>"

    def astype(self, dt, **k):
        from . import sarr
        return sarr.cast_scalar(self, dt)

    shape = ()
    ndim = 0


def to_complex(x):
    if isinstance(x, SymComplex):
        return x
    if isinstance(x, SymReal):
        return SymComplex(x, 0.0)
    if isinstance(x, SymBool):
        return SymComplex(x._r(), 0.0)
    if isinstance(x, (complex, np.complexfloating)):
        return SymComplex(float(x.real), float(x.imag))
    if is_num(x):
        return SymComplex(float(x), 0.0)
    return None


# ---- generic scalar helpers (python value or symbolic) ---------------------
def ssqrt(x, nonneg=False):
    if isinstance(x, LazySqrt):
        return SymReal.sqrt(x, nonneg)
    if isinstance(x, SymReal):
        return x.sqrt(nonneg)
    if isinstance(x, SymBool):
        return x._r().sqrt()
    return np.sqrt(x)


def ite(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, SymComplex) or isinstance(b, SymComplex) or isinstance(a, complex) or isinstance(b, complex):
        a, b = to_complex(a), to_complex(b)
        return SymComplex(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return mkbool(z3.simplify(z3.If(c.e, bexpr(a), bexpr(b))))
    ra, rb = _to_real(a), _to_real(b)
    if ra is None or rb is None:
        raise Unsupported("ite over %r / %r" % (type(a), type(b)))
    if ra[0].eq(rb[0]):
        return a
    r = _if(c.e, ra[0], rb[0])
    if r is ra[0]:
        return SymReal(r, ra[1])
    if r is rb[0]:
        return SymReal(r, rb[1])
    if c.sh is not None:
        return SymReal(r, ra[1] if c.sh else rb[1])
    return SymReal(r, math.nan)


def _if(c, a, b):
    if CTX is not None and CTX.fork_ite:
        return a if CTX.branch(c) else b
    return z3.If(c, a, b)


def _pick(c, a, b, sh):
    if CTX is not None and CTX.fork_ite:
        return a if CTX.branch(c) else b
    return SymReal(z3.If(c, a.e, b.e), sh)


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a >= b else b
    if isinstance(a, float) and math.isinf(a):
        return a if a > 0 else b
    if isinstance(b, float) and math.isinf(b):
        return b if b > 0 else a
    a, b = lift(a), lift(b)
    if a.e.eq(b.e):
        return a
    return _pick(a.e >= b.e, a, b, max(a.sh, b.sh))


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a <= b else b
    if isinstance(a, float) and math.isinf(a):
        return b if a > 0 else a
    if isinstance(b, float) and math.isinf(b):
        return a if b > 0 else b
    a, b = lift(a), lift(b)
    if a.e.eq(b.e):
        return a
    return _pick(a.e <= b.e, a, b, min(a.sh, b.sh))


def sand(*bs):
    es = [bexpr(b) for b in bs]
    return mkbool(z3.simplify(z3.And(*es)))


def sor(*bs):
    es = [bexpr(b) for b in bs]
    return mkbool(z3.simplify(z3.Or(*es)))


def snot(b):
    return mkbool(z3.simplify(z3.Not(bexpr(b))))


def rand(*bs):
    """conjunction kept as it is (assertions: the solver sees the whole formula)"""
    if not any(is_sym(b) for b in bs):
        return all(bool(b) for b in bs)
    return mkbool(z3.And(*[bexpr(b) for b in bs]))


def ror(*bs):
    if not any(is_sym(b) for b in bs):
        return any(bool(b) for b in bs)
    return mkbool(z3.Or(*[bexpr(b) for b in bs]))


def rnot(b):
    return mkbool(z3.Not(bexpr(b))) if is_sym(b) else not b
