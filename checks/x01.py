"""X01 self test of the symbolic numpy (development only, not registered): the model of each function gives what numpy gives"""
import numpy as _np
from .common import *
from symex import loader

BOUNDS = "functions listed"
OUTSIDE = "the rest of numpy"
EXPECT = ["same"]
BUDGET = {"quick": 200, "thorough": 200}
E = """np.vstack([a, b])
np.vstack([[z], A])
np.hstack([a, b, [1.0]])
np.stack([a, b], axis=1)
np.column_stack([a, b])
np.concatenate([[1.0], a])
np.concatenate((A, [b]), axis=0)
np.append(a, b)
np.append([[0.0, 0.0, 0.0]], A, axis=0)
np.block([[A, A], [A, A]])
np.r_[a, 1.0, b]
np.c_[a, b]
np.einsum('ij,j->i', A, a)
np.einsum('ij,jk->ik', A, A)
np.einsum('ii', A)
np.einsum('i,i', a, b)
np.einsum('i,j->ij', a, b)
np.tensordot(A, A, axes=1)
np.tensordot(A, a, axes=([1], [0]))
np.cumsum(a)
np.cumprod(a)
np.hypot(a, b)
np.square(a)
np.sign(a)
np.fmin(a, b)
np.fmax(a, 0.5)
np.select([a > 0.4, a > 0.2], [a, b], default=0.0)
np.piecewise(a, [a < 0.4, a >= 0.4], [0.0, 1.0])
np.heaviside(a, 0.5)
np.searchsorted(np.array([0.0, 0.3, 0.8]), a)
np.nansum(a)
np.nanmean(a)
np.nanargmin(a)
np.nanmin(a)
np.partition(a, 1)[0]
np.argpartition(a, 0)[0]
np.lexsort((a, ))
np.median(a)
np.polyval([1.0, 2.0, 3.0], a)
np.polyval(a, 2.0)
np.trapezoid(a, dx=0.5) if hasattr(np, 'trapezoid') else np.trapz(a, dx=0.5)
np.apply_along_axis(lambda r: r.sum(), 1, A)
np.linalg.norm(a)
np.linalg.norm(A)
np.linalg.norm(A, axis=1)
np.linalg.norm(a, np.inf)
np.linalg.norm(a, 1)
np.linalg.matrix_power(A, 2)
np.array([f(x) for f, x in zip([np.sin, np.cos, np.exp], a)])
np.array([a[0], 2.0, a[1]]).max()
np.clip(a, 0.2, b)
a.clip(0.2, 0.4)
np.where(a > 0.4, a, b)
np.maximum.reduce(a)
np.minimum.reduce([a, b])
np.add.reduce(A, 0)
np.multiply.reduce(a)
np.add.accumulate(a)
np.add.outer(a, b)
np.multiply.outer(a, b)
np.subtract.outer(a, b)
np.outer(a, b)
np.inner(a, b)
np.vdot(a, b)
a @ b
A @ a
a @ A
A.dot(A)
A.T @ A
np.kron(A[:2, :2], A[:2, :2])
np.diag(a)
np.diag(A)
np.diagonal(A)
np.trace(A)
np.triu(A, 1)
np.tril(A)
np.ptp(a)
np.average(a, weights=[1.0, 2.0, 1.0])
np.average(a)
np.mean(A, axis=0)
np.std(a)
np.std(a, ddof=1)
np.var(A, axis=1)
np.sum(A, axis=1, keepdims=True)
A.sum(axis=-1)
np.max(A, axis=0)
np.sort(a)[::-1]
np.argsort(-a)
sorted(a)
min(a), max(a), sum(a)
np.argmin(a), np.argmax(a)
np.any(a > 0.4), np.all(a > 0.0)
np.count_nonzero(a > 0.4)
np.diff(a)
np.ediff1d(a)
np.gradient(a)
np.flip(a)
np.roll(a, 1)
np.repeat(a, 2)
np.tile(a, (2, 1))
np.reshape(A, -1)
A.flatten('F')
A.reshape(-1, order='F')
np.swapaxes(A, 0, 1)
np.full(3, a[0])
np.full((2, 2), a[0]) + np.ones((2, 2)) * b[1]
np.full_like(a, 2.0)
np.linspace(0, a[1], 4)
np.linspace(a[0], b[0], 3)
np.arange(3) * a[0]
np.abs(a - b)
np.fabs(a - b)
np.sqrt(a)
np.power(a, 2)
np.power(a, 0.5)
a**2
a**-1
2.0**a[0]
np.exp(-a)
np.log(a)
np.log1p(a)
np.expm1(a)
np.log2(a)
np.log10(a)
np.sinc(a)
np.arctan2(a, b)
np.tanh(a)
np.tan(a)
np.arccos(a)
np.arcsin(a)
np.deg2rad(a)
np.floor(3 * a)
np.ceil(3 * a)
np.rint(3 * a)
np.trunc(3 * a)
np.round(3 * a)
np.mod(3 * a, 1.0)
np.remainder(3 * a, 1.0)
3 * a % 1.0
3 * a // 1.0
np.floor_divide(3 * a, 1.0)
divmod(3 * a[0], 1.0)
np.reciprocal(a)
np.negative(a)
np.positive(a)
np.clip(a, None, 0.4)
np.minimum(np.maximum(a, 0.2), 0.5)
np.isclose(a, a)
np.allclose(a, b)
np.isfinite(a)
np.isnan(a)
np.nan_to_num(a)
np.array_equal(a, a)
np.real(a + 1j * b)
np.imag(a + 1j * b)
np.conj(a + 1j * b)
np.abs(a + 1j * b)
np.abs(a + 1j * b)**2
np.angle(a + 1j * b)
np.exp(1j * a)
(a + 1j * b).conj() @ (a - 1j * b)
np.iterable(a)
len(a), a.size, a.shape[0], a.ndim
a.copy() + b
a.astype(float) * 2
a.astype(complex) * 2
list(map(float, a))
[float(x) for x in a]
np.float64(a[0]) + 1
float(a[0]) * 2
np.asarray(list(a)) + 1
np.asarray([x for x in a], dtype=float)
np.fromiter((x for x in a), dtype=float)
np.array(a, copy=True, dtype=float)
np.copy(a)
np.zeros_like(a) + a
np.empty_like(a) * 0 + a
a[a > 0.4]
a[[2, 0]]
A[:, [0, 2]]
A[np.ix_([0, 1], [1, 2])]
a[np.argsort(a)]
A[np.argsort(a), :]
np.take(A, np.argsort(a), axis=0)
np.take_along_axis(a, np.argsort(a), 0)
np.delete(a, 1)
np.insert(a, 1, 5.0)
np.squeeze(A[None])
np.expand_dims(a, 0)
a[:, None] * b[None, :]
a[:, np.newaxis] + 0
np.broadcast_to(a, (2, 3))
np.dot(a, A).dot(b)
np.cross(a, b)
np.prod(a)
np.prod(A, axis=0)
np.logical_and(a > 0.2, b > 0.2)
np.logical_not(a > 0.2)
np.logical_or.reduce(a > 0.4)
(a > 0.2) & (b > 0.2)
~(a > 0.2)
np.nonzero(a > 0.4)[0]
np.flatnonzero(a > 0.4)
np.argwhere(a > 0.4)
np.unique(np.array([3, 1, 3]))
np.interp(0.4, [0.0, 1.0], a[:2])
np.interp(a, [0.0, 1.0], [1.0, 3.0])
np.polyfit([0.0, 1.0, 2.0], a, 1)
np.multiply(a, b, out=np.zeros(3))
np.array([sum(x * y for x, y in zip(r, a)) for r in A])
np.array(sorted(a, key=lambda v: -v))
np.vectorize(lambda v: v * 2)(a)
np.atleast_2d(a).T
np.squeeze(np.atleast_2d(a))
np.concatenate([A, A], axis=1)
np.pad(a, 1)
np.split(a, 3)[1]
np.array([a, b]).T
np.asarray([a, b]).mean(axis=0)
np.asarray((a, b)).min(axis=0)
math.sqrt(a[0]) + math.sin(a[1]) + math.exp(a[2])
math.hypot(a[0], b[0])
math.fsum([a[0], b[0]])
math.prod([a[0], b[0]])
math.isclose(a[0], a[0])
math.floor(3 * a[0]), math.ceil(3 * a[0])
math.pow(a[0], 2)
math.fabs(a[0] - b[0])
math.copysign(1.0, a[0])
abs(a[0] - b[0]), round(a[0] * 10), int(a[0] * 10), max(a[0], b[0]), min(a[0], 0.0), pow(a[0], 2)
np.ones(3) @ a
np.eye(3) @ a
np.ones((3, 3)) * a
np.dot(np.eye(3), A)
np.triu(A) + np.triu(A, 1).T
a.reshape(3, 1).T
np.ravel(A)
A.ravel()[::2]
A.T.copy()
a.tolist()
a.item(1) if hasattr(a, 'item') else 0
a.mean(), a.std(), a.var(), a.min(), a.max(), a.sum(), a.prod(), a.argmin(), a.argmax()
a.dot(b)
a.cumsum()
a.round(1)
a.argsort()
a.any(), a.all()
a.fill(2.0) or a
a.sort() or a
np.put(a, [0], [9.0]) or a
np.copyto(a, b) or a
np.fill_diagonal(A, 0.0) or A
np.add(a, b, out=a)
a.__iadd__(b)
a.__imul__(2.0)
np.ndarray.sum(a)
isinstance(a[0], float), isinstance(a, np.ndarray), np.isscalar(a[0]), np.ndim(a), np.shape(A), np.size(a)
np.errstate(all='ignore').__enter__() and a
np.sum([x for x in a])
np.sum(x for x in [1.0, 2.0])
np.mean([a[0], b[0]])
np.array([a[0]])[0] < 0.5
np.less(a, b), np.greater_equal(a, 0.4), np.equal(a, a), np.not_equal(a, b)
np.logaddexp(a, b)
np.cbrt(a)
np.exp2(a)
np.float_power(a, 2)
np.nanmax(a), np.nanstd(a), np.nancumsum(a)
np.quantile(a, 0.5)
np.histogram([1.0, 2.0], 2)[0]
np.convolve(a, [1.0, 2.0])
np.correlate(a, b)
np.cov(a)
np.meshgrid(a, b)[0]
np.rollaxis(A, 1)
np.moveaxis(A, 0, 1)
np.linalg.multi_dot([A, A, A])
np.matmul(A, a)
np.subtract(a, b)
np.divide(a, b)
np.true_divide(a, b)
np.result_type(float)
np.bincount([0, 1, 1])
np.digitize(a, [0.2, 0.5])
np.max(A, axis=1, keepdims=True)
A.max(axis=0, keepdims=True) - A
np.mean(A, axis=1, keepdims=True)
A.mean(axis=(0, 1))
np.sum(np.array([A, A]), axis=(0, 2))
np.diff(A)
np.diff(A, axis=0)
np.linalg.norm(A, axis=0, keepdims=True)
np.argmax(A, axis=1)
np.sort(A, axis=0)
np.percentile(a, 30)
np.round(a, 1)
np.sum(a, initial=2.0)
np.max(a, initial=5.0)
np.sum(a, where=np.array([True, False, True]))
np.hstack((a[:1], b[0]))
np.append(a, 1.0)
np.append(1.0, a)
np.append([a], [b], 0)
np.insert(a, 0, b[0])
np.concatenate((a[:1], b[1:]))
np.array([*a, *b])
np.stack((a, b)).sum(0)
np.block([a, b])
np.block([[a], [b]])
np.array([a, b]).ravel()
np.zeros((0, 3)).sum(0)
np.vstack((np.zeros((0, 3)), a))
np.array_split(A, 2)[1]
np.einsum('ij,kj->ik', A, A).T
np.dot(a, b) / np.sqrt(np.dot(a, a))
np.subtract.reduce(a)
np.interp(a, [0.0, 0.2, 0.5], b)
np.searchsorted(np.sort(a), 0.4)
np.tensordot(a, b, axes=0)
np.average(A, axis=0, weights=[1.0, 2.0, 1.0])
np.average(A, axis=1)
np.cumsum(A, axis=1)
np.cumsum(A)
np.var(A, axis=0, ddof=1)
np.matmul(A, A)[0]
(A @ A)[1]
np.outer(a, b).trace()
a.reshape(-1, 1) @ b.reshape(1, -1)
np.allclose(a, a + 1e-12)
np.isclose(a, b).any()
np.array_equal(a, b)
np.unique(a)
np.min([a, b], axis=0)
np.max([a[0], b[0]])
np.sum([a, b], axis=0)
np.mean([a, b], axis=0)
np.std([a[0], b[0]])
np.maximum(a, [0.5, 0.1, 0.2])
np.where([True, False, True], a, b)
np.exp([0.0, 1.0])
np.pi * a
np.ones_like(a) * 2 - a
np.full(2, 1.5) * a[:2]
np.arange(0, 3) @ a
np.add(a, 1, where=np.array([True, True, True]))
np.array_split(a, 2)[0]
np.array([[a[0], 0], [0, a[1]]]) @ np.array([1.0, 2.0])""".split("\n")


def configs(tier):
    return [{"name": "e%d" % i, "h": "one", "e": e, "max_paths": 60} for i, e in enumerate(E)]


def one(ctx, cfg):
    setup(ctx)
    va, vb, vm = [0.31, 0.72, 0.11], [0.53, 0.24, 0.65], [[0.2, 0.5, 0.1], [0.9, 0.4, 0.3], [0.6, 0.8, 0.7]]

    def world(sym_):
        mk = (lambda n, v: ctx.real(n, v, v)) if sym_ else (lambda n, v: v)
        a = [mk("a%d" % i, v) for i, v in enumerate(va)]
        b = [mk("b%d" % i, v) for i, v in enumerate(vb)]
        A = [[mk("m%d%d" % (i, j), v) for j, v in enumerate(r)] for i, r in enumerate(vm)]
        if sym_ and ctx.symbolic:
            P = loader.world("sym").P
            M = P["numpy"]
            mt = P.get("math")
            return {"np": M, "math": mt, "a": arr(ctx, a), "b": arr(ctx, b), "A": M.array(A), "z": M.zeros(3)}
        return {"np": _np, "math": math, "a": _np.array(a), "b": _np.array(b), "A": _np.array(A), "z": _np.zeros(3)}
    real = eval(cfg["e"], world(False))
    if ctx.symbolic:
        g = world(True)
        g["__builtins__"] = loader.world("sym").builtins
        got = eval(cfg["e"], g)
    else:
        got = real
    f, h = flat_(real), flat_(got)
    ctx.check(len(f) == len(h), "same", "%d %d" % (len(f), len(h)))
    for x, y in zip(f, h):
        if isinstance(x, complex):
            ctx.check(ctx.And(ctx.close(x.real, re_(y), 1e-6), ctx.close(x.imag, im_(y), 1e-6)), "same")
        else:
            ctx.check(ctx.close(float(x), re_(y) if not isinstance(y, (bool, _np.bool_)) and not type(y).__name__ == "SymBool" else
                                (1.0 if y else 0.0), 1e-6), "same")


def flat_(v):
    if isinstance(v, (list, tuple)):
        return [x for w in v for x in flat_(w)]
    return list(cells(v))


HARNESS = {"one": one}
