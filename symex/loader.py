"""Loads the quocslib sources of /repo/src in isolation.

The source files are compiled and executed as they are on disk at that moment; what differs from a normal import is
only what they see from outside: in symbolic mode numpy/scipy/jax/math front ends which accept symbolic values, in
both modes a modelled environment (clock, random numbers, signal handler registration, logger, file system).
"""
import builtins
import functools
import importlib
import importlib.abc
import importlib.util
import io
import json as _json
import math as _math
import os as _os
import sys
import types

import numpy as _np

from . import sarr, sym
from .sarr import ModProxy, SArr, conc, has_sym, mkarr, wrap_out
from .sym import SymBool, SymComplex, SymReal, Unsupported, is_sym, smax, smin

SRC = _os.environ.get("QUOCS_SRC", "/repo/src")      # another tree only while developing the checks


# ------------------------------------------------------------------ environment
class FDelta:
    """time difference in seconds (number or symbolic)"""

    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return self.s

    @property
    def seconds(self):
        f = sym.floor_(self.s) if is_sym(self.s) else _math.floor(self.s)
        return f % 86400

    @property
    def days(self):
        return (sym.floor_(self.s / 86400) if is_sym(self.s) else _math.floor(self.s / 86400))

    @property
    def microseconds(self):
        f = sym.floor_(self.s) if is_sym(self.s) else _math.floor(self.s)
        return (self.s - f) * 1e6

    def __add__(self, o):
        if isinstance(o, FDelta):
            return FDelta(self.s + o.s)
        if isinstance(o, FDateTime):
            return FDateTime(o.s + self.s)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return FDelta(self.s - o.s)

    def __truediv__(self, o):
        return self.s / o.s if isinstance(o, FDelta) else FDelta(self.s / o)

    def __mul__(self, o):
        return FDelta(self.s * o)

    __rmul__ = __mul__

    def __lt__(self, o):
        return self.s < o.s

    def __le__(self, o):
        return self.s <= o.s

    def __gt__(self, o):
        return self.s > o.s

    def __ge__(self, o):
        return self.s >= o.s

    def __eq__(self, o):
        return isinstance(o, FDelta) and self.s == o.s

    __hash__ = None


def timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    return FDelta(seconds + 60 * minutes + 3600 * hours + 86400 * days + microseconds * 1e-6 + milliseconds * 1e-3 +
                  weeks * 604800)


class FDateTime:
    def __init__(self, s):
        self.s = s

    @classmethod
    def now(cls, tz=None):
        return FDateTime(ENV().now())

    utcnow = today = now

    def timestamp(self):
        return self.s

    def strftime(self, f):
        t = getattr(ENV(), "stamp", None) or "20240101_000000"
        return t + "_000000" if "%f" in f else t

    def isoformat(self, *a):
        return "2024-01-01T00:00:00"

    def __sub__(self, o):
        return FDelta(self.s - o.s) if isinstance(o, FDateTime) else FDateTime(self.s - o.s)

    def __add__(self, o):
        return FDateTime(self.s + o.s)

    __radd__ = __add__

    def __lt__(self, o):
        return self.s < o.s

    def __le__(self, o):
        return self.s <= o.s

    def __gt__(self, o):
        return self.s > o.s

    def __ge__(self, o):
        return self.s >= o.s

    def __eq__(self, o):
        return isinstance(o, FDateTime) and self.s == o.s

    __hash__ = None

    def __str__(self):
        return "2024-01-01 00:00:00"


class FLogger:
    level = 0
    propagate = True

    def __init__(self):
        self.handlers = []

    def addHandler(self, h):
        self.handlers.append(h)

    def removeHandler(self, h):
        self.handlers = [x for x in self.handlers if x is not h]

    def hasHandlers(self):
        return bool(self.handlers)

    def setLevel(self, lvl):
        self.level = lvl

    def getEffectiveLevel(self):
        return self.level or 30

    def isEnabledFor(self, lvl):
        return lvl >= (self.level or 30)

    def _log(self, lvl, msg, *a):
        ENV().logged.append((lvl, msg))

    def debug(self, msg, *a, **k):
        pass

    def info(self, msg, *a, **k):
        self._log(20, msg)

    def warning(self, msg, *a, **k):
        self._log(30, msg)

    warn = warning

    def error(self, msg, *a, **k):
        self._log(40, msg)

    def exception(self, msg, *a, **k):
        self._log(40, msg)

    critical = error

    def log(self, lvl, msg, *a, **k):
        self._log(lvl, msg)

    def __getattr__(self, n):
        return lambda *a, **k: None


LOGGER = FLogger()


class FakeGen:
    """stand-in for numpy's Generator; which numbers it yields is decided by the harness"""

    def __init__(self, seed=None):
        self.seed = seed
        self.count = 0

    def _draw(self, n, kind):
        r = []
        for _ in range(1 if n is None else int(_np.prod(n))):
            r.append(ENV().gen_draw(self, kind, self.count))
            self.count += 1
        if n is None:
            return r[0]
        a = mkarr(r) if MODE == "sym" else _np.array(r)
        return a.reshape(n) if isinstance(n, tuple) else a

    def random(self, size=None, **k):
        return self._draw(size, "u")

    random_sample = rand = random

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._draw(size, "u")
        return low + (high - low) * u

    def standard_normal(self, size=None, **k):
        return self._draw(size, "n")

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._draw(size, "n")

    randn = standard_normal

    def integers(self, low, high=None, size=None, **k):
        return ENV().gen_int(self, low, high)

    def choice(self, *a, **k):
        raise Unsupported("rng.choice")


class GlobalRandom:
    """stand-in for numpy.random / random module level functions"""
    Generator = FakeGen
    RandomState = FakeGen

    def __init__(self):
        self.__dict__["_g"] = None

    def _gen(self):
        return ENV().global_gen

    def rand(self, *shape):
        if not shape:
            return self._gen()._draw(None, "u")
        return self._gen()._draw(shape if len(shape) > 1 else shape[0], "u")

    def random(self, size=None):
        return self._gen()._draw(size, "u")

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._gen()._draw(size, "u")

    def randn(self, *shape):
        if not shape:
            return self._gen()._draw(None, "n")
        return self._gen()._draw(shape if len(shape) > 1 else shape[0], "n")

    def standard_normal(self, size=None):
        return self._gen()._draw(size, "n")

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._gen()._draw(size, "n")

    def randint(self, low, high=None, size=None, **k):
        return ENV().gen_int(self._gen(), low, high)

    def seed(self, s=None):
        ENV().global_gen.seed = s

    def default_rng(self, seed=None):
        if isinstance(seed, FakeGen):
            return seed
        if seed is not None and not isinstance(seed, (int, _np.integer)):
            raise TypeError("SeedSequence expects int or sequence of ints for entropy not %r" % (seed, ))
        return FakeGen(seed)


class JsonText(str):
    """the text json.dumps would return, kept as the object it stands for (numbers may be symbolic)"""

    def __new__(cls, obj):
        r = super().__new__(cls, "{json}")
        r.obj = obj
        return r


def json_walk(o, cls=None, default=None):
    if o is None or isinstance(o, (str, bool, int, float, SymReal, SymBool)):
        return o
    if isinstance(o, dict):
        for k in o:
            if not (k is None or isinstance(k, (str, bool, int, float))):
                raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)
        return {k if isinstance(k, str) else _json.loads(_json.dumps({k: 0})).popitem()[0] if not isinstance(k, str) else k:
                json_walk(v, cls, default) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [json_walk(v, cls, default) for v in o]
    if default is not None:
        return json_walk(default(o), cls, default)
    if cls is not None:
        return json_walk(cls().default(o), cls, default)
    raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)


class FFile(io.StringIO):
    def __init__(self, path, mode, text=""):
        super().__init__(text if "w" not in mode else "")
        self.path, self.mode = path, mode
        self.obj = None
        if "a" in mode:
            self.seek(0, 2)

    def write(self, text):
        if isinstance(text, JsonText):
            self.obj = text.obj
            return len(text)
        return super().write(text)

    def close(self):
        if not self.closed:
            if "r" not in self.mode or "+" in self.mode:
                ENV().vfs[self.path] = {"kind": "json", "obj": self.obj} if self.obj is not None else {
                    "kind": "text", "text": self.getvalue()}
        super().close()

    def __exit__(self, *a):
        self.close()


class Env:
    """Modelled environment of one run; harnesses override the hooks they need."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.clock = 0.0
        self.logged = []
        self.vfs = {}
        self.dirs = set()
        self.sigint = None
        self.global_gen = FakeGen("global")
        self.minimize = None
        self.grad = None
        self.sleeps = []
        self.u = {}
        self.saves = []
        self.tokens = {}        # words in text files that stand for symbolic numbers

    # hooks
    def now(self):
        return self.clock

    def sleep(self, s):
        self.sleeps.append(s)
        self.clock = self.clock + s

    def gen_draw(self, gen, kind, k):
        """k-th draw of the given generator; concrete low-discrepancy numbers unless the harness overrides"""
        v = ((k + 1) * 0.6180339887498949 + 0.31) % 1.0
        return v if kind == "u" else 4 * v - 2

    def gen_int(self, gen, low, high):
        return low if high is not None else 0

    def file_hook(self, op, path):
        """called before every modelled file operation"""

    # file system
    def exists(self, p):
        p = _os.fspath(p)
        self.file_hook("exists", p)
        if p.startswith(SRC):
            return _os.path.exists(p)
        return p in self.vfs or p in self.dirs

    def isdir(self, p):
        p = _os.fspath(p)
        return p in self.dirs

    def isfile(self, p):
        p = _os.fspath(p)
        self.file_hook("exists", p)
        return p in self.vfs

    def makedirs(self, p, *a, exist_ok=False, **k):
        p = _os.fspath(p)
        if p in self.dirs and not exist_ok:
            raise FileExistsError(p)
        self.dirs.add(p)

    def remove(self, p):
        p = _os.fspath(p)
        self.file_hook("remove", p)
        if p not in self.vfs:
            raise FileNotFoundError(p)
        del self.vfs[p]

    def rename(self, a, b):
        self.vfs[_os.fspath(b)] = self.vfs.pop(_os.fspath(a))

    def open(self, p, mode="r", *a, **k):
        p = _os.fspath(p) if not isinstance(p, int) else p
        if isinstance(p, str) and p.startswith(SRC) and "r" in mode and "+" not in mode:
            return builtins.open(p, mode, *a, **k)
        self.file_hook("open" + mode, p)
        if "r" in mode:
            if p not in self.vfs:
                raise FileNotFoundError(2, "No such file or directory", p)
            ent = self.vfs[p]
            f = FFile(p, mode, ent.get("text", ""))
            f.obj = ent.get("obj")
            if ent["kind"] == "json" and not ent.get("text"):
                f.is_obj = True
            return f
        f = FFile(p, mode, self.vfs.get(p, {}).get("text", "") if "a" in mode else "")
        self.vfs.setdefault(p, {"kind": "text", "text": ""})
        return f


_ENV = [None]


def ENV():
    e = _ENV[0]
    if e is None:
        _ENV[0] = e = Env(None)
    return e


MODE = None


def snapshot(o):
    if isinstance(o, _np.ndarray):
        return o.copy()
    if isinstance(o, dict):
        return {k: snapshot(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(snapshot(v) for v in o)
    return o


# ------------------------------------------------------------------ builtins seen by the code under test
class _SMeta(type):
    def __instancecheck__(cls, x):
        return s_isinstance(x, cls.base)

    def __eq__(cls, o):
        return o is cls or o is cls.base

    def __hash__(cls):
        return hash(cls.base)


def _item(x):
    if isinstance(x, _np.ndarray) and x.size == 1:
        return x.reshape(-1)[0] if x.dtype != object else x.view(_np.ndarray).reshape(-1)[0]
    return x


class sfloat(float, metaclass=_SMeta):
    base = float

    def __new__(cls, x=0.0):
        x = _item(x)
        if isinstance(x, SymBool):
            return x._r()
        if isinstance(x, SymReal):
            return x
        if isinstance(x, str) and x.strip() in ENV().tokens:
            return ENV().tokens[x.strip()]
        return float(x)


class sint(int, metaclass=_SMeta):
    base = int

    def __new__(cls, x=0, *a):
        x = _item(x)
        if isinstance(x, SymBool):
            return x._r()
        if isinstance(x, SymReal):
            return sym.trunc_(x)
        return int(x, *a)


class scomplex(complex, metaclass=_SMeta):
    base = complex

    def __new__(cls, *a):
        if len(a) == 1 and is_sym(a[0]):
            return sym.to_complex(a[0])
        if len(a) == 2 and any(is_sym(x) for x in a):
            return SymComplex(a[0], a[1])
        return complex(*a)


_UNS = {sfloat: float, sint: int, scomplex: complex}


def s_isinstance(x, t):
    if isinstance(t, tuple):
        return any(s_isinstance(x, k) for k in t)
    t = _UNS.get(t, t) if isinstance(t, type) else t
    if isinstance(x, (SymReal, SymBool, SymComplex)) and isinstance(t, type):
        if isinstance(x, SymReal) and t in (float, _np.float64, _np.floating, _np.number, _np.generic, _np.inexact):
            return True
        if isinstance(x, SymBool) and t in (bool, _np.bool_):
            return True
        if isinstance(x, SymComplex) and t in (complex, _np.complexfloating, _np.number, _np.complex128):
            return True
    if t is _np.ndarray and isinstance(x, sarr.JArr):
        return False        # arrays of jax are not numpy arrays
    if isinstance(t, sarr.FloatType):
        return isinstance(x, (_np.float64, SymReal))
    return isinstance(x, t)


def _mm(f, red):
    def g(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if k or not any(is_sym(x) for x in xs) or any(isinstance(x, (_np.ndarray, list, tuple)) for x in xs):
            return f(*a, **k) if not (len(a) == 1) else f(xs, **k)
        return functools.reduce(red, xs)
    return g


def s_abs(x):
    return abs(x)


# ------------------------------------------------------------------ module front ends
def _math_proxy():
    def un(name, real):
        def f(x):
            x = _item(x)
            if isinstance(x, SymBool):
                x = x._r()
            return getattr(x, name)() if is_sym(x) else real(x)
        return f
    ov = {n: un(n, getattr(_math, n)) for n in ("sqrt", "sin", "cos", "tan", "exp", "log", "erf", "floor", "ceil", "tanh",
                                               "log2", "log10", "isnan", "isinf", "isfinite", "fabs")}
    ov["acos"] = un("arccos", _math.acos)
    ov["asin"] = un("arcsin", _math.asin)
    ov["atan"] = un("arctan", _math.atan)
    ov["pow"] = lambda a, b: a**b
    ov["copysign"] = lambda a, b: sarr.BINARY["copysign"](a, b) if is_sym(a) or is_sym(b) else _math.copysign(a, b)
    ov["expm1"] = lambda x: sarr.UNARY["expm1"](x) if is_sym(x) else _math.expm1(x)
    ov["log1p"] = lambda x: sarr.UNARY["log1p"](x) if is_sym(x) else _math.log1p(x)
    ov["fmod"] = lambda a, b: sarr.BINARY["fmod"](a, b) if is_sym(a) or is_sym(b) else _math.fmod(a, b)
    ov["trunc"] = lambda x: int(sym.trunc_(x)) if is_sym(x) else _math.trunc(x)
    ov["radians"] = lambda x: x * (_math.pi / 180)
    ov["fsum"] = lambda xs: functools.reduce(lambda a, b: a + b, xs, 0.0)
    ov["hypot"] = lambda *a: sym.ssqrt(functools.reduce(lambda p, q: p + q, [v * v for v in a]), True)
    ov["isclose"] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= smax(rel_tol * smax(abs(a), abs(b)), abs_tol)
    return ModProxy("math", _math, ov, wrap=False)


def _elem(name, real):
    def f(x, *a, **k):
        if is_sym(x):
            return getattr(x, name)()
        if isinstance(x, (_np.ndarray, list, tuple)) and has_sym(x):
            return sarr._map(x, lambda v: getattr(v, name)() if is_sym(v) else real(v))
        return wrap_out(real(conc(x) if isinstance(x, _np.ndarray) else x))
    return f


class _Norm:
    """scipy.stats.norm"""

    def cdf(self, x, loc=0.0, scale=1.0):
        z = (x - loc) / scale
        return _elem("normcdf", lambda v: 0.5 * (1 + _math.erf(v / _math.sqrt(2))))(z)

    def sf(self, x, loc=0.0, scale=1.0):
        return 1 - self.cdf(x, loc, scale)

    def __getattr__(self, n):
        raise Unsupported("scipy.stats.norm.%s" % n)


def matrix_uf(name, M, real, tag=None):
    """matrix function as an uninterpreted function: equal arguments (decided by z3) give equal results"""
    if not has_sym(M):
        return wrap_out(real(_np.asarray(conc(M))))
    ctx = sym.CTX
    M = sarr._obj(M)
    lst = ctx.ufs.setdefault("matrix:" + name, [])
    for (A, R) in lst:
        if A.shape == M.shape and all(_cclose(ctx, a, b) for a, b in zip(A.ravel(), M.ravel())):
            return R.copy()
    ctx.nuf += 1
    o = _np.empty(M.shape, dtype=object)
    from .z3path import z3
    for k in _np.ndindex(M.shape):
        v = []
        for part in ("re", "im"):
            t = z3.Real("uf!%s!%d_%s_%s" % (name, ctx.nuf, "_".join(map(str, k)), part))
            v.append(SymReal(t, ctx._rng.uniform(-1, 1)))
        o[k] = SymComplex(*v)
    R = o.view(SArr)
    lst.append((M.copy(), R))
    return R.copy()


def _cclose(ctx, a, b):
    a, b = sym.to_complex(a), sym.to_complex(b)
    for x, y in ((a.re, b.re), (a.im, b.im)):
        if not is_sym(x) and not is_sym(y):
            if abs(x - y) > 1e-9:
                return False
            continue
        x, y = sym.lift(x), sym.lift(y)
        if abs(x.sh - y.sh) > 1e-7 * (1 + abs(x.sh)):  # nan: unknown
            return False
    for x, y in ((a.re, b.re), (a.im, b.im)):
        if is_sym(x) or is_sym(y):
            if not ctx.always_close(sym.lift(x).e, sym.lift(y).e):
                return False
    return True


class _JitCfg:
    def update(self, *a, **k):
        pass

    def __getattr__(self, n):
        return lambda *a, **k: None


def _jit(f=None, **k):
    if f is None:
        return lambda g: g
    return f


def _fori(lo, hi, body, val):
    for i in range(int(lo), int(hi)):
        val = body(i, val)
    return val


def _scan(f, init, xs, length=None, **k):
    ys = []
    n = length if xs is None else len(xs)
    c = init
    for i in range(n):
        c, y = f(c, None if xs is None else xs[i])
        ys.append(y)
    return c, (None if not ys or ys[0] is None else mkarr(ys, True))


def _cond(p, a, b, *ops):
    return a(*ops) if p else b(*ops)


def _grad(f, argnums=0, has_aux=False, **k):
    if argnums != 0:
        raise Unsupported("jax.grad argnums")
    g = (lambda *a, **kw: f(*a, **kw)[0]) if has_aux else f

    def run(*a, **kw):
        h = ENV().grad
        if h is None:
            raise Unsupported("jax.grad without a model")
        r = h(g)(*a, **kw)
        return (r, f(*a, **kw)[1]) if has_aux else r
    return run


class World:
    """module front ends + import hook, one per process"""

    def __init__(self, mode):
        global MODE
        MODE = mode
        self.mode = mode
        self.random = GlobalRandom()
        rnd = ModProxy("numpy.random", None, {n: getattr(self.random, n) for n in dir(self.random)
                                              if not n.startswith("_")}, wrap=False)
        save = {"random": rnd, "savez": self._savez, "savez_compressed": self._savez, "save": self._save,
                "savetxt": self._savetxt, "loadtxt": self._loadtxt, "genfromtxt": self._loadtxt}
        P = {}
        if mode == "sym":
            P["numpy"] = sarr.make_np(extra=save)
            jrnd = ModProxy("jax.random", None, {}, wrap=False)
            jnp = sarr.make_np(j=True, extra={"random": jrnd})
            jsl = ModProxy("jax.scipy.linalg", None, {"expm": lambda m, *a, **k: self._j(matrix_uf("expm", m, _expm)),
                                                      "sqrtm": lambda m, *a: self._j(matrix_uf("sqrtm", m, _sqrtm))})
            jopt = ModProxy("jax.scipy.optimize", None, {"minimize": self._minimize})
            jspec = ModProxy("jax.scipy.special", None, {"erf": _elem("erf", _math.erf)})
            jsp = ModProxy("jax.scipy", None, {"linalg": jsl, "optimize": jopt, "special": jspec}, wrap=False)
            lax = ModProxy("jax.lax", None, {"fori_loop": _fori, "scan": _scan, "cond": _cond}, wrap=False)
            P["jax"] = ModProxy("jax", None, {
                "numpy": jnp, "scipy": jsp, "lax": lax, "jit": _jit, "grad": _grad, "config": _JitCfg(),
                "value_and_grad": lambda f, **k: (lambda *a: (f(*a), _grad(f)(*a))), "debug": _JitCfg(),
                "Array": sarr.JArr, "vmap": lambda f, **k: (lambda xs: mkarr([f(x) for x in xs], True)),
                "random": jrnd, "block_until_ready": lambda x: x}, wrap=False)
            from scipy.special import erf as _erf
            special = ModProxy("scipy.special", None, {"erf": _elem("erf", _erf), "ndtr": _elem("normcdf", lambda v: 0.5 * (
                1 + _math.erf(v / _math.sqrt(2))))}, wrap=False)
            stats = ModProxy("scipy.stats", None, {"norm": _Norm()}, wrap=False)
            slin = ModProxy("scipy.linalg", None, {
                "expm": lambda m, *a, **k: matrix_uf("expm", m, _expm),
                "eigh": lambda m, **k: sarr.linalg_hook("eigh", m), "eig": lambda m, **k: sarr.linalg_hook("eig", m),
                "norm": lambda x, *a, **k: (sarr.f_norm(x, *a, **k) if has_sym(x) else _np.linalg.norm(conc(x), *a, **k)),
                "inv": lambda x, **k: sarr.linalg_hook("inv", x),
                "sqrtm": lambda m, *a, **k: matrix_uf("sqrtm", m, _sqrtm)}, wrap=False)
            sopt = ModProxy("scipy.optimize", None, {"minimize": self._minimize, "rosen": _rosen}, wrap=False)
            import scipy as _scipy
            P["scipy"] = ModProxy("scipy", _scipy, {"special": special, "stats": stats, "linalg": slin, "optimize": sopt},
                                  wrap=False)
            P["math"] = _math_proxy()
            P["json"] = ModProxy("json", _json, {"dump": self._json_dump, "load": self._json_load, "dumps": self._json_dumps,
                                                 "loads": lambda t, **k: snapshot(t.obj) if isinstance(t, JsonText) else
                                                 _json.loads(t, **k)}, wrap=False)
        else:
            P["numpy"] = ModProxy("numpy", _np, save, wrap=False)
            import scipy as _scipy
            import scipy.optimize as _sopt
            import scipy.linalg, scipy.special, scipy.stats  # noqa: E401,F401
            P["scipy"] = ModProxy("scipy", _scipy, {"optimize": ModProxy("scipy.optimize", _sopt,
                                                                         {"minimize": self._minimize}, wrap=False)}, wrap=False)
            P["json"] = ModProxy("json", _json, {"load": self._json_load}, wrap=False)
        import datetime as _dt
        import time as _time
        import logging as _logging
        import signal as _signal
        P["datetime"] = ModProxy("datetime", _dt, {"datetime": FDateTime, "timedelta": timedelta}, wrap=False)
        P["time"] = ModProxy("time", _time, {"time": lambda: ENV().now(), "sleep": lambda s: ENV().sleep(s),
                                             "monotonic": lambda: ENV().now(), "perf_counter": lambda: ENV().now()},
                             wrap=False)
        P["random"] = ModProxy("random", None, {"random": lambda: self.random.rand(),
                                                "uniform": self.random.uniform, "seed": self.random.seed}, wrap=False)
        P["logging"] = ModProxy("logging", _logging, {
            "getLogger": lambda n=None: LOGGER, "FileHandler": lambda *a, **k: FLogger(),
            "StreamHandler": lambda *a, **k: FLogger(), "basicConfig": lambda *a, **k: None}, wrap=False)
        P["signal"] = ModProxy("signal", _signal, {"signal": self._signal}, wrap=False)
        ospath = ModProxy("os.path", _os.path, {
            "exists": lambda p: ENV().exists(p), "isdir": lambda p: ENV().isdir(p), "isfile": lambda p: ENV().isfile(p),
            "abspath": lambda p: _os.path.normpath(_os.path.join("/vfs", p)), "getmtime": lambda p: ENV().now()}, wrap=False)
        P["os"] = ModProxy("os", _os, {
            "path": ospath, "getcwd": lambda: "/vfs", "makedirs": lambda p, *a, **k: ENV().makedirs(p, *a, **k),
            "mkdir": lambda p, *a, **k: ENV().makedirs(p), "remove": lambda p: ENV().remove(p),
            "unlink": lambda p: ENV().remove(p), "rename": lambda a, b: ENV().rename(a, b),
            "replace": lambda a, b: ENV().rename(a, b), "listdir": lambda p=".": sorted(
                _os.path.basename(k) for k in ENV().vfs if _os.path.dirname(k) == p),
            "system": _forbidden, "kill": _forbidden, "rmdir": _forbidden, "removedirs": _forbidden}, wrap=False)
        P["shutil"] = ModProxy("shutil", None, {"rmtree": _forbidden, "move": lambda a, b: ENV().rename(a, b)}, wrap=False)
        P["subprocess"] = ModProxy("subprocess", None, {}, wrap=False)
        self.P = P
        self.builtins = dict(vars(builtins))
        self.builtins["__import__"] = self._import
        self.builtins["open"] = lambda *a, **k: ENV().open(*a, **k)
        self.builtins["print"] = lambda *a, **k: None
        self.builtins["input"] = _forbidden
        if mode == "sym":
            self.builtins.update({"float": sfloat, "int": sint, "complex": scomplex, "isinstance": s_isinstance,
                                  "min": _mm(min, smin), "max": _mm(max, smax)})
        self.sources = {}

    @staticmethod
    def _j(x):
        return x.view(sarr.JArr) if isinstance(x, SArr) else x

    # ---- environment calls
    def _signal(self, s, h):
        ENV().sigint = h

    def _minimize(self, *a, **k):
        h = ENV().minimize
        if h is None:
            if self.mode == "sym":
                raise Unsupported("scipy.optimize.minimize without a model")
            import scipy.optimize
            return scipy.optimize.minimize(*a, **k)
        return h(*a, **k)

    def _savez(self, file, *a, allow_pickle=True, **kw):
        p = str(file)
        p = p if p.endswith(".npz") else p + ".npz"
        ENV().vfs[p] = {"kind": "npz", "obj": snapshot(kw), "args": snapshot(list(a))}
        ENV().saves.append((p, ENV().vfs[p]["obj"]))

    def _save(self, file, arr, **kw):
        ENV().vfs[str(file)] = {"kind": "npy", "obj": snapshot(arr)}

    def _savetxt(self, file, arr, fmt="%.18e", **kw):
        a = arr if isinstance(arr, _np.ndarray) else list(arr)
        rows = [[x for x in r] if isinstance(r, (list, tuple)) or isinstance(r, _np.ndarray) and r.ndim else [r] for r in a]
        if isinstance(file, FFile):
            file.obj = (file.obj or []) + [{"fmt": fmt, "row": r} for r in rows]
            return
        ENV().vfs[str(file)] = {"kind": "txt", "obj": [{"fmt": fmt, "row": r} for r in rows]}

    def _loadtxt(self, file, *a, **kw):
        t = file.read() if hasattr(file, "read") else ENV().open(file).read()
        v = [sfloat(x) if self.mode == "sym" else float(x) for line in t.splitlines() for x in line.split("#")[0].split()]
        if not v:
            raise ValueError("no data")
        r = mkarr(v) if self.mode == "sym" else _np.array(v)
        return r if len(v) > 1 else r.reshape(())

    def _json_dump(self, obj, fp, cls=None, default=None, **k):
        fp.obj = json_walk(obj, cls, default)

    def _json_dumps(self, obj, cls=None, default=None, **k):
        return JsonText(json_walk(obj, cls, default))

    def _json_load(self, fp, **k):
        if isinstance(fp, FFile) and fp.obj is not None:
            if isinstance(fp.obj, Exception):
                raise fp.obj
            return snapshot(fp.obj)
        return _json.load(fp, **k)

    # ---- import machinery
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            top = name.split(".")[0]
            if top in self.P:
                m = self.P[top]
                if not fromlist:
                    return m
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
                if isinstance(m, types.ModuleType):
                    for f in fromlist:
                        if f != "*" and not hasattr(m, f):
                            try:
                                importlib.import_module(name + "." + f)
                            except ImportError:
                                pass
                return m
        return builtins.__import__(name, globals, locals, fromlist, level)

    def install(self):
        fresh()
        sys.meta_path.insert(0, Finder(self))
        return self


def _expm(m):
    from scipy.linalg import expm
    return expm(m)


def _rosen(x):
    """scipy.optimize.rosen"""
    v = list(x)
    r = 0.0
    for a, b in zip(v, v[1:]):
        r = r + 100.0 * (b - a * a) * (b - a * a) + (1 - a) * (1 - a)
    return r


def _sqrtm(m):
    from scipy.linalg import sqrtm
    return sqrtm(m)


def _forbidden(*a, **k):
    raise Unsupported("destructive call in the code under test: %r" % (a, ))


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, world):
        self.world = world
        self.code = {}

    def find_spec(self, name, path=None, target=None):
        if name != "quocslib" and not name.startswith("quocslib."):
            return None
        rel = _os.path.join(SRC, *name.split("."))
        if _os.path.isdir(rel):
            f = _os.path.join(rel, "__init__.py")
            spec = importlib.util.spec_from_loader(name, self, origin=f, is_package=True)
            spec.submodule_search_locations = [rel]
        else:
            f = rel + ".py"
            if not _os.path.isfile(f):
                return None
            spec = importlib.util.spec_from_loader(name, self, origin=f)
        spec.has_location = True
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        if f not in self.code:
            src = ""
            if _os.path.isfile(f):
                with builtins.open(f, encoding="utf-8") as fh:
                    src = fh.read()
            self.code[f] = compile(src, f, "exec")
        self.world.sources[module.__name__] = f
        module.__dict__["__builtins__"] = self.world.builtins
        module.__dict__["__file__"] = f
        exec(self.code[f], module.__dict__)


_world = [None]


def world(mode):
    if _world[0] is None:
        _world[0] = World(mode).install()
    if _world[0].mode != mode:
        raise RuntimeError("one mode per process")
    return _world[0]


def fresh():
    """forget the loaded quocslib modules: the next q() starts from modules as a new process has them"""
    for k in [k for k in sys.modules if k == "quocslib" or k.startswith("quocslib.")]:
        del sys.modules[k]


def q(name):
    """the quocslib module `name`, loaded from /repo/src"""
    return importlib.import_module(name)


def new_env(ctx):
    _ENV[0] = Env(ctx)
    LOGGER.handlers, LOGGER.level = [], 0
    return _ENV[0]


# ------------------------------------------------------------------ which functions of the code under test ran
class Coverage:
    def __init__(self):
        self.seen = set()
        self.on = False

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None or self.on:
            return
        try:
            mon.use_tool_id(3, "symex")
        except ValueError:
            return
        self.on = True

        def start(code, off):
            fn = code.co_filename
            if fn.startswith(SRC):
                self.seen.add("%s:%s" % (fn[len(SRC) + 1:], code.co_qualname))
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)


COV = Coverage()
