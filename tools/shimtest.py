"""Differential test of the NumPy front end: every snippet is evaluated by real
NumPy on concrete values and by symx.narr on symbols pinned to those values.

    /opt/venv/bin/python -B tools/shimtest.py
"""
import os, sys, math, warnings
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
warnings.simplefilter("ignore")
import numpy as rnp
import z3
from symx import core, narr

SNIPPETS = """
np.where(b, x, y)
np.where(b)[0]
np.where(x > 0.5, 1, 0).sum()
np.select([x > 0.5, x > 0.25], [x, y], 0.0)
np.add.reduce(x)
(np.where(b, 200, 100).astype(np.uint8) + np.where(x > 0.5, 100, 3).astype(np.uint8)).astype(int)
(np.where(b, 200, 100).astype(np.uint8) * np.uint8(2)).astype(int)
(np.where(b, 200, 100).astype(np.int8)).astype(int)
(-np.where(b, 40000, 100).astype(np.uint16)).astype(int)
(np.where(b, 100, 50).astype(np.uint8) * 3).astype(int)
np.where(b, 100, 50).sum(dtype=np.uint8, keepdims=True).astype(int)
np.where(b, 100, 50).astype(np.uint8).sum(keepdims=True).astype(int)
np.add.reduce(np.where(b, 100, 50), dtype=np.int8, keepdims=True).astype(int)
np.sum(np.where(b, 100, 50), dtype=np.float32)
np.add(np.where(b, 100, 50), np.where(b, 90, 200), dtype=np.uint8, casting="unsafe").astype(int)
np.add(np.where(b, 100, 50).astype(np.uint8), np.where(b, 90, 250), dtype=np.int64)
(np.where(b, 1, 2).astype(np.uint8) - np.where(b, 2, 1).astype(np.uint8)).astype(np.int64)
np.where(b, 100, 50).astype(np.uint8) / 7
np.where(b, 100, 50).astype(np.int32) + np.where(b, 100, 50).astype(np.uint8)
np.add.reduceat(x, [0, 2])
np.add.at(z, i, 1) or z
np.add.at(z, (i,), x) or z
np.maximum.at(z, i, x) or z
np.subtract.at(z, i, x) or z
np.bincount(i, minlength=5)
np.bincount(i, weights=x, minlength=5)
np.bincount(i[b], minlength=5)
np.unique(i)
np.unique(i, return_counts=True)[1]
np.unique(i, return_inverse=True)[1]
np.unique(i, return_index=True)[1]
np.unique(np.stack([i, j], axis=1), axis=0)
np.unique(np.stack([i, j], axis=1), axis=0, return_counts=True)[1]
np.lexsort((x, i))
np.argsort(-x)
np.argsort(x, kind="stable")[::-1]
np.sort(x)
np.argmax(x)
np.argmin(x)
np.argmax(M, axis=1)
np.max(M, axis=1)
np.max(M, axis=1, keepdims=True)
M.max(axis=0, initial=0)
np.cumsum(x)
np.cumsum(b)
np.cumsum(M, axis=1)
np.cumprod(x)
np.diff(x)
np.diff(np.concatenate([[0.0], x, [1.0]]))
np.trapezoid(x, y)
np.dot(x, y)
x @ y
M @ M
np.matmul(M, x[:3])
np.einsum("i,i->", x, y)
np.einsum("ij,jk->ik", M, M)
np.einsum("ij->j", M)
np.outer(x, y)
np.inner(x, y)
np.tensordot(M, M, axes=1)
np.clip(x, 0.25, 0.5)
x.clip(min=0.5)
np.divide(x, y, out=np.zeros_like(x), where=y > 0.2)
np.divide(x, y, where=y > 0.2, out=np.ones(4))
np.true_divide(x, 2)
np.floor(x * 4)
np.ceil(x * 4)
np.rint(x * 4)
np.floor_divide(i, 2)
i // 2
i % 3
np.mod(i, 3)
np.power(x, 2)
x ** 2
np.square(x)
np.abs(x - y)
np.sign(x - y)
np.negative(x)
np.minimum(x, y)
np.fmax(x, y)
np.maximum.accumulate(x)
np.minimum.accumulate(x)
np.maximum.reduce(x)
np.logical_and(b, c)
np.logical_or(b, c)
np.logical_xor(b, c)
np.logical_not(b)
np.logical_and.reduce([b, c, ~b])
np.bitwise_and(b, c)
np.bitwise_or(i, 4)
i & 1
i | 4
i ^ j
b ^ c
~b
~i
i << 1
i >> 1
np.invert(b)
b.astype(int) + c
b * x
b.sum()
b.mean()
x[b].mean()
np.any(b)
np.all(b)
np.any(B, axis=0)
np.all(B, axis=1)
B.any(axis=1)
np.count_nonzero(b)
np.count_nonzero(B, axis=0)
np.count_nonzero(x > y)
np.nonzero(B)
np.flatnonzero(b)
np.argwhere(B)
np.isclose(x, y)
np.allclose(x, x)
np.array_equal(i, j)
np.isin(i, j)
np.isin(i, [1, 3])
np.in1d(i, [1, 3]) if hasattr(np, "in1d") else 0
np.isin(i, [1, 3], invert=True)
np.searchsorted(np.array([0.1, 0.5, 0.9]), x)
np.searchsorted(np.sort(x), 0.5, side="right")
np.digitize(x, np.array([0.1, 0.5, 0.9]))
np.histogram(x, bins=[0.0, 0.5, 1.0])[0]
np.concatenate([x, y])
np.hstack([x, y])
np.vstack([x, y])
np.stack([x, y], axis=1)
np.column_stack([i, x, b])
np.append(x, 1.0)
np.insert(x, 0, 0.0)
np.delete(x, [0])
np.r_[0.0, x, 1.0]
np.c_[x, y]
np.flip(x)
x[::-1]
np.fliplr(M)
np.roll(x, 1)
np.tile(x, 2)
np.repeat(x, 2)
np.repeat(x, [1, 0, 2, 1])
np.reshape(x, (2, 2))
x.reshape(-1, 1) >= y.reshape(1, -1)
x[:, None] >= y[None, :]
np.expand_dims(x, 0)
np.squeeze(x[None, :])
np.ravel(M)
M.flatten()
M.T
np.transpose(M)
np.moveaxis(M, 0, 1)
np.swapaxes(M, 0, 1)
np.broadcast_to(x, (2, 4))
np.meshgrid(x, y)[0]
np.ix_([0, 1], [0, 2]) and M[np.ix_([0, 1], [0, 2])]
np.take(x, [0, 2])
np.take(x, i)
np.take_along_axis(M, np.argsort(M, axis=1), axis=1)
np.put_along_axis(M, np.array([[0], [1], [2]]), 9.0, axis=1) or M
np.choose(b.astype(int), [x, y])
np.compress(b, x)
np.extract(b, x)
np.place(z, b, 1.0) or z
np.putmask(z, b, x) or z
np.copyto(z, x, where=b) or z
np.diag(M)
np.trace(M)
np.triu(M)
np.tril(M, -1)
np.eye(3) * M
np.full(4, x[0])
np.full_like(x, 2.0)
np.zeros_like(b)
np.ones((2,), dtype=bool)
np.array([x[0], 1, y[1]])
np.array([[x[0], y[0]], [1.0, 2.0]])
np.asarray([b[0], True])
np.fromiter((v for v in x), dtype=float)
np.mean(x)
np.mean(M, axis=0)
np.average(x, weights=y)
np.median(x)
np.var(x)
np.sum(x, where=b)
np.sum(M, axis=(0, 1))
np.sum(B)
np.prod(x)
np.nansum(x)
np.nanmean(x)
np.nanmax(x)
np.nan_to_num(x / np.where(y > 0.2, y, 1.0))
np.isnan(x)
np.isfinite(x)
np.union1d(i, j)
np.intersect1d(i, j)
np.setdiff1d(i, j)
np.setxor1d(i, j)
np.ptp(x)
np.percentile(x, 50)
np.quantile(x, 0.5)
np.interp(x, [0.0, 1.0], [0.0, 2.0])
np.partition(x, 1)[1]
np.argpartition(x, 1)[1]
np.array_split(x, 2)[0]
np.split(x, 2)[1]
np.apply_along_axis(lambda v: v.sum(), 1, M)
np.vectorize(lambda v: v * 2)(x)
np.ravel_multi_index((i, j), (5, 5))
np.unravel_index(i, (2, 3))
np.convolve(x, [1.0, 1.0])
np.round(x, 1)
np.heaviside(x - y, 1.0)
np.hypot(x, y) ** 2
np.sqrt(np.square(x))
np.gradient(x)
np.ediff1d(x)
np.packbits(b)
np.max(x, initial=0.0, where=b)
np.logical_or.accumulate(b)
np.add.accumulate(x)
np.add.outer(x, y)
np.greater_equal.outer(x, y)
np.multiply.outer(i, j)
np.greater_equal(x, y)
np.equal(i, j)
np.not_equal(i, j)
x[i % 4]
x[np.argmax(x)]
M[np.arange(3), np.argmax(M, axis=1)]
M[B].sum()
(x >= 0.5) & (y < 0.7)
(x >= 0.5).nonzero()[0]
float(x[0]) + float(y.sum())
int(i[0]) + int(b.sum())
[float(v) for v in x]
x.tolist()
i.tolist()
sorted(x.tolist())
max(x)
min(x.tolist())
sum(x)
len(x[b])
{int(k): 1 for k in i}
list(zip(i.tolist(), x.tolist()))
i.astype(np.float64) / 2
np.abs(x.astype(np.float32) - x) < 1e-6
(x * 10).astype(np.int64)
i.astype(np.uint64)
i.astype(bool)
x.copy()
x.argsort()
x.item(0)
x.ndim + x.size + x.shape[0]
np.ndim(x)
np.shape(M)
np.size(M)
np.atleast_2d(x)
np.linalg.norm(x) ** 2
np.array(sorted(zip(x.tolist(), i.tolist())))
np.unique(i[b])
np.unique(x)
np.unique(x, return_inverse=True)[1]
np.lexsort((j, -x, i))
np.core if False else 1
np.frompyfunc(lambda a: a + 1, 1, 1)(x)
np.logspace(0, 1, 3)
np.nanargmax(x)
np.cross(x[:3], y[:3])
np.block([[M, M]])
np.pad(x, 1)
np.piecewise(x, [x < 0.5, x >= 0.5], [0.0, 1.0])
np.trim_zeros(np.array([0.0, 1.0, 0.0]))
np.lib.stride_tricks.sliding_window_view(x, 2).sum(axis=1)
np.ma.masked_array(x, b).sum() if False else 1
np.iinfo(np.int64).max
np.float64(x[0])
np.int64(i[0])
np.bool_(b[0])
np.intersect1d(i, j, return_indices=True)[1]
np.isin(i, j, assume_unique=False)
np.array([x, y]).max(axis=0)
np.array([x, y]).shape
np.ascontiguousarray(M[:, ::-1])
np.require(x)
np.array(x, copy=True)
np.array(x, dtype=np.float64)
z.fill(1.0) or z
np.dstack([x, y])
np.row_stack([x, y]) if hasattr(np, "row_stack") else 1
np.sum([x, y], axis=0)
np.max([1.0, 2.0, x[0]])
np.minimum(x, 0.5)
np.maximum(i, 1)
np.maximum(i, 1, dtype=np.float64)
np.add(x, y, out=z)
np.multiply(b, 2)
np.subtract(i, j, dtype=np.int64)
np.divmod(i, 2)[1]
np.fmod(i, 2)
np.remainder(i, 2)
np.bitwise_xor(i, j)
np.left_shift(i, 1)
np.logaddexp(0.0, 0.0)
np.reciprocal(x + 1)
np.cbrt(np.float64(8.0))
np.unique_counts(i).counts if hasattr(np, "unique_counts") else 1
np.cumulative_sum(x) if hasattr(np, "cumulative_sum") else 1
np.astype(i, np.float64) if hasattr(np, "astype") else 1
np.permute_dims(M, (1, 0)) if hasattr(np, "permute_dims") else 1
np.concat([x, y]) if hasattr(np, "concat") else 1
np.vecdot(x, y) if hasattr(np, "vecdot") else 1
""".strip().splitlines()

DATA = [
    dict(x=[0.5, 0.25, 0.75, 0.5], y=[0.5, 0.125, 0.875, 0.625], i=[0, 3, 1, 3], j=[3, 2, 1, 0], b=[True, False, True, True], c=[False, False, True, False]),
    dict(x=[0.0, 1.0, 0.0, 0.25], y=[1.0, 0.25, 0.25, 0.0], i=[2, 2, 2, 0], j=[2, 1, 2, 4], b=[False, False, False, True], c=[True, True, True, True]),
]
MM = [[0.5, 0.25, 0.75], [0.125, 0.125, 0.0], [1.0, 0.5, 1.0]]
BB = [[True, False, False], [False, False, False], [True, True, True]]


def real_env(d):
    e = {k: rnp.array(v) for k, v in d.items()}
    e.update(np=rnp, M=rnp.array(MM), B=rnp.array(BB), z=rnp.zeros(4))
    return e


def flat(v):
    if isinstance(v, (list, tuple)):
        return [w for x in v for w in flat(x)] + [len(v)]
    if isinstance(v, dict):
        return flat(list(v.items()))
    if isinstance(v, rnp.ndarray):
        p = rnp.asarray(v.view(rnp.ndarray))
        return list(p.shape) + [w for x in p.reshape(-1).tolist() for w in flat(x)]
    return [v]


def main():
    e = core.Engine(seed=1)
    np = narr.make_module()
    bad = unsup = exc = ok = 0
    for sn in SNIPPETS:
        for d in DATA:
            try:
                want = eval(sn, real_env(d))
            except Exception as ex:
                want = type(ex)
            e.begin(())
            try:
                env = {}
                for k, v in d.items():
                    out = []
                    for n, w in enumerate(v):
                        s = e.bool(f"{k}{n}") if isinstance(w, bool) else e.int(f"{k}{n}", -9, 9) if isinstance(w, int) else e.real(f"{k}{n}", -9, 9)
                        e.assume(s == w if not isinstance(w, bool) else (s if w else ~s))
                        out.append(s)
                    env[k] = np.array(out, dtype={"x": "f8", "y": "f8", "i": "i8", "j": "i8", "b": "?", "c": "?"}[k])
                mk = lambda nm, src, f: [[pin(e, f"{nm}{r}{q}", w) for q, w in enumerate(row)] for r, row in enumerate(src)]
                env["M"] = np.array(mk("M", MM, 0), dtype="f8")
                env["B"] = np.array(mk("B", BB, 0), dtype="?")
                env["z"] = np.zeros(4)
                env["np"] = np
                for k, v in (("sum", sum), ("float", __import__("symx.load").load.SFloat), ("int", __import__("symx.load").load.SInt), ("max", __import__("symx.load").load.s_max), ("min", __import__("symx.load").load.s_min)):
                    env[k] = v
                try:
                    got = eval(sn, env)
                except Exception as ex:
                    if isinstance(want, type) and issubclass(want, Exception):
                        ok += 1
                        continue
                    exc += 1
                    print("EXC   ", sn, "->", type(ex).__name__, str(ex)[:150])
                    continue
                if e.unsupported:
                    unsup += 1
                    print("UNSUP ", sn, "->", e.unsupported[:2])
                    continue
                if isinstance(want, type) and issubclass(want, Exception):
                    bad += 1
                    print("NOEXC ", sn, "->", got)
                    continue
                g, w = flat(got), flat(want)
                same = len(g) == len(w)
                if same:
                    for p, q in zip(g, w):
                        if isinstance(p, core.SymBase):
                            t = core.btrue(p == q) if not isinstance(q, (bool, rnp.bool_)) else core.btrue(p if q else ~p if isinstance(p, core.SymBool) else p == q)
                            if e.valid(core.SymBool(t) if not isinstance(t, core.SymBase) else t) is not None:
                                # allow rounding
                                lo, hi = p > float(q) - 1e-9, p < float(q) + 1e-9
                                if e.valid(lo) is not None or e.valid(hi) is not None:
                                    same = False
                        else:
                            try:
                                if not (p == q or abs(float(p) - float(q)) < 1e-9 or (math.isnan(p) and math.isnan(q))):
                                    same = False
                            except Exception:
                                same = False
                dg, dw = getattr(got, "dtype", None), getattr(want, "dtype", None)
                if same and dg is not None and dw is not None and rnp.dtype(dw) != dg:
                    print("DTYPE ", sn, dg, dw)
                if same:
                    ok += 1
                else:
                    bad += 1
                    print("DIFF  ", sn, "\n   got ", got, "\n   want", want)
            except (core.PathInfeasible, core.SolverUnknown, core.PathBudget) as ex:
                exc += 1
                print("ENGINE", sn, type(ex).__name__, ex)
            finally:
                e.end()
    print(f"{ok} agree, {bad} differ, {unsup} fall back to concrete values, {exc} not available")
    return 1 if bad else 0


def pin(e, n, w):
    if isinstance(w, bool):
        s = e.bool(n)
        e.assume(s if w else ~s)
        return s
    s = e.real(n, -9, 9)
    e.assume(s == w)
    return s


if __name__ == "__main__":
    sys.exit(main())
