"""NumPy under symbolic values.

``Arr`` is an ndarray subclass.  Integer and boolean arrays keep their real
dtype and real NumPy semantics; float arrays are kept as object arrays of
``np.float64`` and/or ``Sym`` (kind 'f'); boolean/integer arrays that hold
symbolic elements are object arrays of kind 'b'/'i'.  An operation none of
whose operands holds a symbolic element is executed by the real NumPy on real
dtypes.  Operations on symbolic elements are executed element-wise here;
whatever is not implemented pins the symbolic elements to model values and
records that (``engine().unsupported``).
"""
from __future__ import annotations

import builtins
import functools
import math
import operator
import types as _types

import numpy as rnp

from . import core
from .core import Sym, SymBase, SymBool, and_, engine, ite, not_, or_

F64 = rnp.dtype("float64")
OBJ = rnp.dtype("object")
I64 = rnp.dtype("int64")
BOOL = rnp.dtype("bool")


def norm_dtype(dt):
    """dtype argument -> real numpy dtype or None."""
    if dt is None:
        return None
    if isinstance(dt, type):
        base = getattr(dt, "__symx_real__", None)
        if base is not None:
            dt = base
    return rnp.dtype(dt)


def _kind_of_dtype(dt):
    return {"f": "f", "i": "i", "u": "i", "b": "b"}.get(dt.kind)


def has_sym(o):
    if isinstance(o, SymBase):
        return True
    if isinstance(o, rnp.ndarray):
        if o.dtype.hasobject if not isinstance(o, Arr) else o._k:
            b = o.view(rnp.ndarray)
            for x in b.flat:
                if isinstance(x, SymBase):
                    return True
        return False
    if isinstance(o, (list, tuple)):
        return any(has_sym(x) for x in o)
    return False


class Arr(rnp.ndarray):
    _k = None
    _dt = None

    def __array_finalize__(self, obj):
        if obj is None:
            return
        if rnp.ndarray.dtype.__get__(self) == OBJ:
            self._k = getattr(obj, "_k", None)
            self._dt = getattr(obj, "_dt", None)
        else:
            self._k = None
            self._dt = None

    # -- dtype facade
    @property
    def dtype(self):
        real = rnp.ndarray.dtype.__get__(self)
        if real == OBJ and self._k:
            if self._k == "f":
                return self._dt or F64
            if self._k == "b":
                return BOOL
            return self._dt or I64
        return real

    # -- dispatch
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, kwargs)

    # -- indexing
    def __getitem__(self, idx):
        idx = norm_index(idx)
        r = self.view(rnp.ndarray)[idx]
        if isinstance(r, rnp.ndarray):
            return rewrap(r, self._k, self._dt)
        return r

    def __setitem__(self, idx, val):
        base = self.view(rnp.ndarray)
        if self._k and isinstance(idx, Arr) and idx._k == "b" and has_sym(idx):
            # masked assignment into an array that can hold symbolic values:
            # merge with ite instead of forking when shapes line up
            if idx.shape == self.shape and not isinstance(val, (rnp.ndarray, list)):
                v = narrow(coerce_elem(val, self._k), self._dt)
                for pos in rnp.ndindex(*self.shape):
                    base[pos] = ite(idx.view(rnp.ndarray)[pos], v, base[pos])
                return
        idx = norm_index(idx)
        if self._k:
            v = asarr(val)
            if v.ndim == 0:
                base[idx] = narrow(coerce_elem(v.view(rnp.ndarray).item() if v._k else v.view(rnp.ndarray)[()], self._k), self._dt)
            else:
                v = to_kind(v, self._k)
                if self._dt is not None:
                    v = narrow_all(v.copy(), self._dt)
                base[idx] = v.view(rnp.ndarray)
            return
        if has_sym(val):
            val = concretize(val)
        if isinstance(val, Arr) and val._k:
            val = to_real(val)
        base[idx] = val

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(dispatch_function(rnp.any, (self == x,), {}))

    def __bool__(self):
        if self.size == 1 and self._k:
            return bool(self.view(rnp.ndarray).reshape(-1)[0])
        return bool(to_real(self).view(rnp.ndarray)) if not self._k else bool(to_real(concretize(self)))

    def __index__(self):
        if self.size == 1 and self._k == "i":
            return operator.index(self.view(rnp.ndarray).reshape(-1)[0])
        return operator.index(self.view(rnp.ndarray))

    def __float__(self):
        if self.size == 1 and self._k:
            return float(self.view(rnp.ndarray).reshape(-1)[0])
        return float(self.view(rnp.ndarray))

    def __int__(self):
        if self.size == 1 and self._k:
            return int(self.view(rnp.ndarray).reshape(-1)[0])
        return int(self.view(rnp.ndarray))

    def __reduce__(self):
        return to_real(self).view(rnp.ndarray).__reduce__()

    def __repr__(self):
        return f"Arr({self.view(rnp.ndarray)!r}, k={self._k})"

    __str__ = __repr__

    # -- methods whose C implementation would look at the object dtype
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = norm_dtype(dtype)
        return cast(self, dt)

    def tolist(self):
        if not self._k:
            return self.view(rnp.ndarray).tolist()

        def conv(x):
            if isinstance(x, list):
                return [conv(y) for y in x]
            if isinstance(x, rnp.generic):
                return x.item()
            return x

        return conv(self.view(rnp.ndarray).tolist())

    def item(self, *args):
        if not self._k:
            return self.view(rnp.ndarray).item(*args)
        r = self.view(rnp.ndarray).item(*args)
        return r.item() if isinstance(r, rnp.generic) else r

    def copy(self, order="C"):
        return rewrap(self.view(rnp.ndarray).copy(), self._k, self._dt)

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return proxy_call(rnp.sum, self, axis=axis, dtype=dtype, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return proxy_call(rnp.prod, self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return proxy_call(rnp.mean, self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, **kw):
        return proxy_call(rnp.std, self, axis=axis)

    def var(self, axis=None, **kw):
        return proxy_call(rnp.var, self, axis=axis)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return proxy_call(rnp.any, self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return proxy_call(rnp.all, self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return proxy_call(rnp.max, self, axis=axis, keepdims=keepdims, **kw)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return proxy_call(rnp.min, self, axis=axis, keepdims=keepdims, **kw)

    def argmax(self, axis=None, out=None, **kw):
        return proxy_call(rnp.argmax, self, axis=axis)

    def argmin(self, axis=None, out=None, **kw):
        return proxy_call(rnp.argmin, self, axis=axis)

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        return proxy_call(rnp.argsort, self, axis=axis, kind=kind)

    def sort(self, axis=-1, kind=None, order=None, **kw):
        r = proxy_call(rnp.sort, self, axis=axis, kind=kind)
        self[...] = r

    def cumsum(self, axis=None, dtype=None, out=None):
        return proxy_call(rnp.cumsum, self, axis=axis, dtype=dtype)

    def cumprod(self, axis=None, dtype=None, out=None):
        return proxy_call(rnp.cumprod, self, axis=axis)

    def nonzero(self):
        return proxy_call(rnp.nonzero, self)

    def round(self, decimals=0, out=None):
        return proxy_call(rnp.round, self, decimals)

    def clip(self, min=None, max=None, out=None, **kw):
        return proxy_call(rnp.clip, self, min, max)

    def dot(self, b, out=None):
        return proxy_call(rnp.dot, self, b)

    def take(self, indices, axis=None, out=None, mode="raise"):
        return proxy_call(rnp.take, self, norm_index(indices), axis=axis)

    def repeat(self, repeats, axis=None):
        return proxy_call(rnp.repeat, self, repeats, axis=axis)

    def searchsorted(self, v, side="left", sorter=None):
        return proxy_call(rnp.searchsorted, self, v, side=side, sorter=sorter)

    def tobytes(self, order="C"):
        return to_real(concretize(self)).view(rnp.ndarray).tobytes()


# ------------------------------------------------------------------ conversion


def rewrap(a, k=None, dt=None):
    """plain ndarray -> Arr keeping the float-as-object convention."""
    if not isinstance(a, rnp.ndarray):
        return a
    if isinstance(a, Arr):
        return a
    real = a.dtype
    if real == OBJ:
        r = a.view(Arr)
        r._k = k
        r._dt = dt
        return r
    if real.kind == "f":
        o = rnp.empty(a.shape, dtype=object)
        of = o.reshape(-1)
        src = a.reshape(-1)
        for i in range(src.shape[0]):
            of[i] = src[i]
        r = o.view(Arr)
        r._k = "f"
        r._dt = real if real != F64 else None
        return r
    return a.view(Arr)


def asarr(x):
    """anything array-like -> Arr."""
    if isinstance(x, Arr):
        return x
    if isinstance(x, rnp.ndarray):
        if x.dtype == OBJ and has_sym(x):
            return from_objs(x)
        return rewrap(x)
    if isinstance(x, SymBase):
        o = rnp.empty((), dtype=object)
        o[()] = x
        r = o.view(Arr)
        r._k = "b" if isinstance(x, SymBool) else ("f" if x.k == "r" else "i")
        return r
    if isinstance(x, (list, tuple)) and deep_special(x):
        return build(x)
    return rewrap(rnp.asarray(x))


def deep_special(x):
    if isinstance(x, SymBase) or isinstance(x, Arr):
        return True
    if isinstance(x, (list, tuple)):
        return any(deep_special(y) for y in x)
    return False


def build(x):
    """nested lists with Sym/Arr leaves -> Arr."""

    def shape(v):
        if isinstance(v, (list, tuple)):
            if not v:
                return (0,)
            ss = {shape(y) for y in v}
            if len(ss) != 1:
                raise ValueError("inhomogeneous shape")
            return (len(v),) + next(iter(ss))
        if isinstance(v, rnp.ndarray):
            return v.shape
        return ()

    sh = shape(x)
    o = rnp.empty(sh, dtype=object)
    kinds = set()

    def fill(v, pos):
        if isinstance(v, (list, tuple)):
            for i, y in enumerate(v):
                fill(y, pos + (i,))
            return
        if isinstance(v, rnp.ndarray):
            a = asarr(v)
            kinds.add(a._k or _kind_of_dtype(a.dtype) or "o")
            b = a.view(rnp.ndarray)
            for p in rnp.ndindex(*b.shape):
                o[pos + p] = b[p]
            return
        kinds.add(elem_kind(v))
        o[pos] = v

    fill(x, ())
    k = "f" if "f" in kinds else ("i" if "i" in kinds else ("b" if "b" in kinds else "o"))
    if "o" in kinds:
        k = None
    r = o.view(Arr)
    r._k = k
    if k is None:
        return r
    return settle(canon(r, k))


def elem_kind(v):
    if isinstance(v, SymBool):
        return "b"
    if isinstance(v, Sym):
        return "f" if v.k == "r" else "i"
    if isinstance(v, (bool, rnp.bool_)):
        return "b"
    if isinstance(v, (int, rnp.integer)):
        return "i"
    if isinstance(v, (float, rnp.floating)):
        return "f"
    return "o"


def from_objs(o):
    kinds = {elem_kind(v) for v in o.flat}
    r = o.view(Arr) if not isinstance(o, Arr) else o
    if "o" in kinds or not kinds:
        r._k = None
        return r
    r._k = "f" if "f" in kinds else ("i" if "i" in kinds else "b")
    return canon(r, r._k)


def coerce_elem(v, k):
    if isinstance(v, Sym):
        if k == "f" and v.k == "i":
            return core.mk(core._to_real(v.t), "r")
        if k == "i" and v.k == "r":
            return core.sym_trunc(v)
        if k == "b":
            return v != 0
        return v
    if isinstance(v, SymBool):
        if k == "b":
            return v
        n = v._asint()
        return coerce_elem(n, "f") if k == "f" else n
    if k == "f":
        return rnp.float64(v)
    if k == "i":
        return int(v)
    return bool(v)


def narrow(v, dt):
    """v as an element of an array of type dt."""
    if dt is None or dt.itemsize >= 8 or dt.kind not in "fiu":
        return v
    if dt.kind != "f":
        lo, bits = (0 if dt.kind == "u" else -(2 ** (8 * dt.itemsize - 1))), 8 * dt.itemsize
        if isinstance(v, Sym):
            return core.wrapped(v, lo, bits)
        return v if isinstance(v, SymBool) else (int(v) - lo) % 2**bits + lo
    if isinstance(v, Sym):
        return core.rounded(v, dt.name)
    if isinstance(v, SymBool):
        return v
    return rnp.float64(dt.type(v))


def narrow_all(a, dt):
    if dt is not None and dt.kind in "fiu" and dt.itemsize < 8:
        b = a.view(rnp.ndarray)
        for p in rnp.ndindex(*b.shape):
            b[p] = narrow(b[p], dt)
    return a


def canon(a, k):
    b = a.view(rnp.ndarray)
    for p in rnp.ndindex(*b.shape):
        b[p] = coerce_elem(b[p], k)
    return a


def settle(a):
    """object 'b'/'i' arrays with no symbolic element become real arrays."""
    if isinstance(a, Arr) and a._k in ("b", "i") and not has_sym(a):
        return to_real(a)
    return a


def to_kind(a, k):
    a = asarr(a)
    if a._k == k:
        return a
    o = rnp.empty(a.shape, dtype=object)
    b = a.view(rnp.ndarray)
    for p in rnp.ndindex(*b.shape):
        o[p] = coerce_elem(b[p], k)
    r = o.view(Arr)
    r._k = k
    return r


def to_real(a):
    """Arr without symbolic elements -> plain-dtype Arr (real numpy data)."""
    if not isinstance(a, rnp.ndarray):
        return a
    if not isinstance(a, Arr) or not a._k:
        return a
    b = a.view(rnp.ndarray)
    dt = {"f": a._dt or F64, "i": a._dt or I64, "b": BOOL}[a._k]
    r = rnp.empty(b.shape, dtype=dt)
    rf = r.reshape(-1)
    i = 0
    for x in b.flat:
        rf[i] = x
        i += 1
    if r.ndim == 0:
        r[()] = b[()]
    return r.view(Arr)


def concretize(x, why="index"):
    """decide every symbolic element (forking); returns plain values."""
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, Sym):
        if x.k == "r":
            engine().unsupported.append(f"real:{why}")
        return engine().concretize(x)
    if isinstance(x, Arr) and x._k:
        b = x.view(rnp.ndarray)
        o = rnp.empty(b.shape, dtype=object)
        for p in rnp.ndindex(*b.shape):
            v = b[p]
            o[p] = concretize(v, why) if isinstance(v, SymBase) else v
        r = o.view(Arr)
        r._k, r._dt = x._k, x._dt
        return to_real(r)
    if isinstance(x, rnp.ndarray) and x.dtype == OBJ:
        o = x.copy()
        for p in rnp.ndindex(*o.shape):
            if isinstance(o[p], SymBase):
                o[p] = concretize(o[p], why)
        return o
    if isinstance(x, list):
        return [concretize(y, why) for y in x]
    if isinstance(x, tuple):
        return tuple(concretize(y, why) for y in x)
    return x


def norm_index(idx):
    if isinstance(idx, tuple):
        return tuple(norm_index(i) for i in idx)
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, Sym):
        return operator.index(idx)
    if isinstance(idx, Arr):
        if idx._k:
            return to_real(concretize(idx)).view(rnp.ndarray)
        return idx.view(rnp.ndarray)
    if isinstance(idx, list):
        return [norm_index(i) for i in idx]
    if isinstance(idx, slice):
        f = lambda v: None if v is None else (operator.index(v) if isinstance(v, SymBase) else v)
        return slice(f(idx.start), f(idx.stop), f(idx.step))
    return idx


def cast_scalar(s, dt):
    dt = norm_dtype(dt)
    k = _kind_of_dtype(dt)
    return narrow(coerce_elem(s, k), dt)


def cast(a, dt):
    if dt == OBJ:
        return a.copy()
    k = _kind_of_dtype(dt)
    if k is None:
        return rewrap(to_real(concretize(a)).view(rnp.ndarray).astype(dt))
    if not has_sym(a):
        return rewrap(to_real(a).view(rnp.ndarray).astype(dt))
    r = to_kind(a.copy(), k)
    r = r.copy() if r is a else r
    if k == "i":
        r._dt = dt if dt.itemsize < 8 else None
        return settle(narrow_all(r, dt))
    if k == "b":
        return settle(r)
    r._dt = dt if dt != F64 else None
    return narrow_all(r, dt)


def short_ints(name, inputs):
    """the narrow integer type numpy computes this operation in, if any."""
    if name not in ("add", "subtract", "multiply", "negative", "absolute", "power", "square", "floor_divide", "remainder", "maximum", "minimum"):
        return None
    dts = [x.dtype for x in inputs if isinstance(x, (rnp.ndarray, rnp.generic)) and x.dtype.kind in "iub"]
    if not dts or any(isinstance(x, (float, rnp.floating)) for x in inputs):
        return None
    dt = rnp.result_type(*dts)
    return dt if dt.kind in "iu" and dt.itemsize < 8 else None


# ------------------------------------------------------------------ ufuncs


def _maximum(a, b):
    return a if bool(a >= b) else b


def _minimum(a, b):
    return a if bool(a <= b) else b


def _lor(a, b):
    return or_(_tb(a), _tb(b))


def _land(a, b):
    return and_(_tb(a), _tb(b))


def _tb(a):
    if isinstance(a, (SymBool, bool)):
        return a
    if isinstance(a, rnp.bool_):
        return bool(a)
    if isinstance(a, Sym):
        return a != 0
    return bool(a)


def _xor(a, b):
    a, b = _tb(a), _tb(b)
    if isinstance(a, SymBool):
        return a ^ b
    if isinstance(b, SymBool):
        return b ^ a
    return a != b


def _bit(opname):
    def f(a, b):
        if isinstance(a, (SymBool, bool, rnp.bool_)) and isinstance(
            b, (SymBool, bool, rnp.bool_)
        ):
            return {"and": _land, "or": _lor, "xor": _xor}[opname](a, b)
        a, b = concretize(a, "bitop"), concretize(b, "bitop")
        return {"and": operator.and_, "or": operator.or_, "xor": operator.xor}[opname](int(a), int(b))

    return f


def _invert(a):
    if isinstance(a, (SymBool, bool, rnp.bool_)):
        return not_(a if isinstance(a, SymBool) else bool(a))
    return ~int(concretize(a, "invert"))


def _div(a, b):
    if not isinstance(b, SymBase) and float(b) == 0.0:
        # numpy semantics: inf/nan, no exception
        if isinstance(a, SymBase):
            if bool(a == 0):
                return rnp.float64("nan")
            return rnp.float64("inf") if bool(a > 0) else rnp.float64("-inf")
    try:
        return core.arith("div", a, b)
    except ZeroDivisionError:
        av = a
        if isinstance(av, SymBase):
            if bool(av == 0):
                return rnp.float64("nan")
            return rnp.float64("inf") if bool(av > 0) else rnp.float64("-inf")
        return rnp.float64(av) / rnp.float64(0.0)


def _floor(a):
    return core.sym_floor(a, keep="r") if isinstance(a, SymBase) else rnp.floor(a)


def _ceil(a):
    return -core.sym_floor(-a, keep="r") if isinstance(a, SymBase) else rnp.ceil(a)


def _trunc(a):
    if not isinstance(a, SymBase):
        return rnp.trunc(a)
    return _floor(a) if bool(a >= 0) else _ceil(a)


def _sign(a):
    if not isinstance(a, SymBase):
        return rnp.sign(a)
    one = 1.0 if a.k == "r" else 1
    if bool(a > 0):
        return one
    return -one if bool(a < 0) else one * 0


def _pow(a, b):
    r = a.__pow__(b) if isinstance(a, Sym) and not isinstance(b, SymBase) else NotImplemented
    if r is NotImplemented:
        return rnp.power(concretize(a, "power"), concretize(b, "power"))
    return r


def _c(op):
    def f(a, b):
        return core.cmp(op, a, b)

    return f


def _a(op):
    def f(a, b):
        return core.arith(op, a, b)

    return f


def _neg(a):
    return -a


def _abs(a):
    return abs(a)


# name -> (python element function, result kind or None for "join of inputs")
UF = {
    "add": (_a("add"), None),
    "subtract": (_a("sub"), None),
    "multiply": (_a("mul"), None),
    "divide": (_div, "f"),
    "true_divide": (_div, "f"),
    "negative": (_neg, None),
    "positive": (lambda a: a, None),
    "absolute": (_abs, None),
    "fabs": (_abs, "f"),
    "less": (_c("lt"), "b"),
    "less_equal": (_c("le"), "b"),
    "greater": (_c("gt"), "b"),
    "greater_equal": (_c("ge"), "b"),
    "equal": (_c("eq"), "b"),
    "not_equal": (_c("ne"), "b"),
    "logical_and": (_land, "b"),
    "logical_or": (_lor, "b"),
    "logical_xor": (_xor, "b"),
    "logical_not": (lambda a: not_(_tb(a)), "b"),
    "bitwise_and": (_bit("and"), None),
    "bitwise_or": (_bit("or"), None),
    "bitwise_xor": (_bit("xor"), None),
    "invert": (_invert, None),
    "maximum": (_maximum, None),
    "minimum": (_minimum, None),
    "fmax": (_maximum, None),
    "fmin": (_minimum, None),
    "floor": (_floor, "f"),
    "ceil": (_ceil, "f"),
    "trunc": (_trunc, "f"),
    "isnan": (lambda a: False if isinstance(a, SymBase) else bool(rnp.isnan(a)), "b"),
    "isinf": (lambda a: False if isinstance(a, SymBase) else bool(rnp.isinf(a)), "b"),
    "isfinite": (lambda a: True if isinstance(a, SymBase) else bool(rnp.isfinite(a)), "b"),
    "sign": (_sign, None),
    "square": (lambda a: core.arith("mul", a, a), None),
    "power": (_pow, None),
    "float_power": (_pow, "f"),
    "floor_divide": (lambda a, b: a // b if isinstance(a, SymBase) else b.__rfloordiv__(a), None),
    "remainder": (lambda a, b: a % b, None),
    "mod": (lambda a, b: a % b, None),
    "conjugate": (lambda a: a, None),
    "reciprocal": (lambda a: _div(1.0, a), "f"),
    "rint": (lambda a: core.sym_round(a, 0) if isinstance(a, Sym) else a, "f"),
    "left_shift": (lambda a, b: a * (2 ** int(b)), None),
    "right_shift": (lambda a, b: a // (2 ** int(b)), None),
    "heaviside": (lambda a, b: core.ite(a > 0, 1.0, core.ite(a < 0, 0.0, b)), "f"),
    "fmod": (lambda a, b: core.ite(a >= 0, a % b, -((-a) % b)), None),
}

IDENT = {
    "add": 0,
    "multiply": 1,
    "logical_and": True,
    "logical_or": False,
    "bitwise_or": 0,
    "maximum": None,
    "minimum": None,
    "fmax": None,
    "fmin": None,
    "logical_xor": False,
    "subtract": None,
    "bitwise_and": None,
}

_OPN = {
    "add": "add",
    "sub": "subtract",
    "mul": "multiply",
    "div": "divide",
    "lt": "less",
    "le": "less_equal",
    "gt": "greater",
    "ge": "greater_equal",
    "eq": "equal",
    "ne": "not_equal",
    "and": "bitwise_and",
    "or": "bitwise_or",
    "xor": "bitwise_xor",
}


def binop(op, a, b, refl):
    uf = getattr(rnp, _OPN[op])
    if refl:
        a, b = b, a
    return dispatch_ufunc(uf, "__call__", (a, b), {})


def join_kind(arrs):
    ks = []
    for a in arrs:
        ks.append(a._k or _kind_of_dtype(a.dtype) or "o")
    if "o" in ks:
        return None
    return "f" if "f" in ks else ("i" if "i" in ks else "b")


def plain(x):
    """strip Arr/Sym-free containers to real numpy values."""
    if isinstance(x, Arr):
        return to_real(x).view(rnp.ndarray)
    if isinstance(x, (list, tuple)):
        return type(x)(plain(y) for y in x) if type(x) in (list, tuple) else x
    if isinstance(x, type):
        b = getattr(x, "__symx_real__", None)
        return b if b is not None else x
    return x


def wrapout(r):
    if isinstance(r, Arr):
        return r
    if isinstance(r, rnp.ndarray):
        return rewrap(r)
    if type(r) is tuple:
        return tuple(wrapout(x) for x in r)
    if type(r) is list:
        return [wrapout(x) for x in r]
    if isinstance(r, tuple) and hasattr(r, "_fields"):
        return type(r)(*[wrapout(x) for x in r])
    return r


def scalarize(a):
    if isinstance(a, Arr) and a.ndim == 0:
        v = a.view(rnp.ndarray)[()]
        return v
    return a


def dispatch_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    if out is not None and not isinstance(out, tuple):
        out = (out,)
    where = kw.get("where", True)
    sym = any(has_sym(x) for x in inputs) or has_sym(where)
    if not sym and out is not None:
        # `where` keeps old values of out, which may be symbolic
        sym = where is not True and any(has_sym(o) for o in out if o is not None)
    if not sym:
        pin = [plain(x) for x in inputs]
        pkw = {k: plain(v) for k, v in kw.items()}
        if "dtype" in pkw and pkw["dtype"] is not None:
            pkw["dtype"] = norm_dtype(pkw["dtype"])
        if method == "at":
            tgt = inputs[0]
            if isinstance(tgt, Arr) and tgt._k:
                tmp = to_real(tgt).view(rnp.ndarray).copy()
                getattr(ufunc, "at")(tmp, *pin[1:])
                tgt[...] = rewrap(tmp)
                return None
            getattr(ufunc, "at")(tgt.view(rnp.ndarray), *pin[1:])
            return None
        if out is not None:
            tmps = []
            for o in out:
                if isinstance(o, Arr) and o._k:
                    tmps.append(to_real(o).view(rnp.ndarray).copy())
                elif isinstance(o, rnp.ndarray):
                    tmps.append(o.view(rnp.ndarray))
                else:
                    tmps.append(o)
            getattr(ufunc, method)(*pin, out=tuple(tmps) if len(tmps) > 1 else tmps[0], **pkw)
            for o, t in zip(out, tmps):
                if isinstance(o, Arr) and o._k:
                    o[...] = rewrap(t)
            return out[0] if len(out) == 1 else out
        r = getattr(ufunc, method)(*pin, **pkw)
        return wrapout(r)

    name = ufunc.__name__
    if method == "__call__" and name in ("matmul", "vecdot") and all(asarr(x).ndim <= 2 for x in inputs):
        r = _matmul(*inputs) if name == "matmul" else _sum(asarr(inputs[0]) * asarr(inputs[1]), axis=-1)
        if out is not None and out[0] is not None:
            out[0][...] = r
            return out[0]
        return r
    ent = UF.get(name)
    if ent is None:
        pin = [concretize(x, f"ufunc:{name}") for x in inputs]
        kw2 = {k: concretize(v, f"ufunc:{name}") for k, v in kw.items()}
        if out is not None:
            kw2["out"] = out
        return dispatch_ufunc(ufunc, method, pin, kw2)
    fn, rk = ent
    if method == "__call__":
        arrs = [asarr(x) for x in inputs]
        k = rk or join_kind(arrs)
        if name in ("add", "subtract", "multiply", "negative", "absolute", "sign", "square", "power", "floor_divide", "remainder") and k == "b":
            k = "i"
        if k is None:
            k = "f"
        sh = rnp.broadcast_shapes(*[a.shape for a in arrs])
        w = None
        if where is not True:
            w = asarr(where)
            sh = rnp.broadcast_shapes(sh, w.shape)
        if out is not None:
            sh = rnp.broadcast_shapes(sh, out[0].shape)
        bs = [rnp.broadcast_to(a.view(rnp.ndarray), sh) for a in arrs]
        wb = rnp.broadcast_to(w.view(rnp.ndarray), sh) if w is not None else None
        res = rnp.empty(sh, dtype=object)
        ob = out[0] if out is not None else None
        obv = ob.view(rnp.ndarray) if ob is not None else None
        for p in rnp.ndindex(*sh):
            if wb is not None and not bool(wb[p]):
                res[p] = obv[p] if obv is not None else coerce_elem(0, k)
                continue
            xs = [b[p] for b in bs]
            if not any(isinstance(x, SymBase) for x in xs):
                v = ufunc(*xs)
            else:
                v = fn(*xs)
            res[p] = coerce_elem(v, k)
        r = res.view(Arr)
        r._k = k
        if k == "i":
            dt = short_ints(name, inputs)
            if kw.get("dtype") is not None and norm_dtype(kw["dtype"]).kind in "iu":
                dt = norm_dtype(kw["dtype"]) if norm_dtype(kw["dtype"]).itemsize < 8 else None
            if dt is not None:
                r._dt = dt
                narrow_all(r, dt)
        if ob is not None:
            if isinstance(ob, Arr) and ob._k:
                for p in rnp.ndindex(*sh):
                    obv[p] = coerce_elem(res[p], ob._k)
            else:
                obv[...] = to_real(concretize(r)).view(rnp.ndarray)
            return ob
        if r.ndim == 0:
            return scalarize(r)
        return settle(r)
    if method == "reduce":
        a = asarr(inputs[0])
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        init = kw.get("initial", rnp._NoValue)
        r = reduce_axis(name, fn, rk, a, axis, keep, init, where)
        if kw.get("dtype") is not None:
            r = cast(r, norm_dtype(kw["dtype"])) if isinstance(r, rnp.ndarray) else cast_scalar(r, kw["dtype"])
        if out is not None:
            out[0][...] = r
            return out[0]
        return r
    if method == "accumulate":
        a = asarr(inputs[0])
        axis = kw.get("axis", 0)
        return accumulate_axis(name, fn, rk, a, axis)
    if method == "outer":
        a, b = asarr(inputs[0]), asarr(inputs[1])
        x = a.reshape(a.shape + (1,) * b.ndim)
        return dispatch_ufunc(ufunc, "__call__", (x, b), kw)
    if method == "at":
        tgt, idx = inputs[0], norm_index(inputs[1])
        vals = asarr(inputs[2]) if len(inputs) > 2 else None
        lin = rnp.arange(tgt.size).reshape(tgt.shape)[idx].reshape(-1)
        vv = (
            rnp.broadcast_to(vals.view(rnp.ndarray), rnp.arange(tgt.size).reshape(tgt.shape)[idx].shape).reshape(-1)
            if vals is not None
            else None
        )
        for n, l in enumerate(lin):
            pos = rnp.unravel_index(int(l), tgt.shape)
            cur = tgt[pos]
            tgt[pos] = fn(cur, vv[n]) if vv is not None else fn(cur)
        return None
    if method == "reduceat" and kw.get("axis", 0) in (0, None):
        a, idx = asarr(inputs[0]), [int(q) for q in asarr(inputs[1]).view(rnp.ndarray)]
        ends = idx[1:] + [a.shape[0]]
        return build([reduce_axis(name, fn, rk, asarr(a[b:e] if e > b else a[b : b + 1]), 0, False, rnp._NoValue) for b, e in zip(idx, ends)])
    pin = [concretize(x, f"ufunc:{name}.{method}") for x in inputs]
    return dispatch_ufunc(ufunc, method, pin, kw)


def reduce_axis(name, fn, rk, a, axis, keep, init, where=True):
    k = rk or (a._k or _kind_of_dtype(a.dtype))
    if name in ("add", "multiply") and k == "b":
        k = "i"
    b = a.view(rnp.ndarray)
    wb = None
    if where is not True and where is not rnp._NoValue:
        wb = rnp.broadcast_to(asarr(where).view(rnp.ndarray), b.shape)
    if axis is None:
        axes = tuple(range(b.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % b.ndim for x in axis)
    else:
        axes = (axis % b.ndim if b.ndim else 0,) if b.ndim else ()
    rest = tuple(i for i in range(b.ndim) if i not in axes)
    osh = tuple(b.shape[i] for i in rest)
    moved = rnp.transpose(b, rest + axes).reshape(osh + (-1,)) if b.ndim else b.reshape((1,))
    wm = rnp.transpose(wb, rest + axes).reshape(osh + (-1,)) if wb is not None else None
    res = rnp.empty(osh, dtype=object)
    for p in rnp.ndindex(*osh):
        row = list(moved[p])
        if wm is not None:
            row = [x for x, w in zip(row, wm[p]) if bool(w)]
        if init is not rnp._NoValue and init is not None:
            row = [init] + row
        if not row:
            ident = IDENT.get(name)
            if ident is None:
                raise ValueError("zero-size array to reduction operation with no identity")
            res[p] = coerce_elem(ident, k)
            continue
        if name == "add" and k == "i" and all(isinstance(x, (SymBool, bool, rnp.bool_)) for x in row):
            res[p] = core.isum(row)
            continue
        if name == "logical_or":
            res[p] = or_(*[_tb(x) for x in row])
            continue
        if name == "logical_and":
            res[p] = and_(*[_tb(x) for x in row])
            continue
        acc = row[0]
        if name in ("add", "multiply") and isinstance(acc, (SymBool, bool, rnp.bool_)):
            acc = coerce_elem(acc, "i")
        uf = getattr(rnp, name)
        for x in row[1:]:
            if not isinstance(acc, SymBase) and not isinstance(x, SymBase):
                acc = uf(acc, x)
            else:
                acc = fn(acc, x)
        res[p] = coerce_elem(acc, k)
    r = res.view(Arr)
    r._k = k
    if keep:
        sh = tuple(1 if i in axes else b.shape[i] for i in range(b.ndim))
        r = r.reshape(sh)
    if r.ndim == 0:
        return scalarize(r)
    return settle(r)


def accumulate_axis(name, fn, rk, a, axis):
    k = rk or (a._k or _kind_of_dtype(a.dtype))
    if name in ("add", "multiply") and k == "b":
        k = "i"
    b = rnp.moveaxis(a.view(rnp.ndarray), axis, -1)
    res = rnp.empty(b.shape, dtype=object)
    uf = getattr(rnp, name)
    for p in rnp.ndindex(*b.shape[:-1]):
        acc = None
        for i, x in enumerate(b[p]):
            if i == 0:
                acc = x
            elif not isinstance(acc, SymBase) and not isinstance(x, SymBase):
                acc = uf(acc, x)
            else:
                acc = fn(acc, x)
            res[p + (i,)] = coerce_elem(acc, k)
    r = rnp.moveaxis(res, -1, axis).copy().view(Arr)
    r._k = k
    return settle(r)


# ------------------------------------------------------------------ functions

FUNCS = {}
builtins_range = range


def impl(*fs):
    def deco(g):
        for f in fs:
            if isinstance(f, str):
                f = getattr(rnp, f, None)
            if f is not None:
                FUNCS[f] = g
        return g

    return deco


def any_sym(args, kwargs):
    def w(x):
        if isinstance(x, SymBase):
            return True
        if isinstance(x, rnp.ndarray):
            return has_sym(x)
        if isinstance(x, (list, tuple)):
            return any(w(y) for y in x)
        if isinstance(x, dict):
            return any(w(y) for y in x.values())
        return False

    return any(w(x) for x in args) or any(w(x) for x in kwargs.values())


def dispatch_function(func, args, kwargs):
    out = kwargs.get("out")
    if not any_sym(args, {k: v for k, v in kwargs.items() if k != "out"}):
        pa = [plain(x) for x in args]
        pk = {k: plain(v) for k, v in kwargs.items() if k != "out"}
        if pk.get("dtype") is not None:
            pk["dtype"] = norm_dtype(pk["dtype"])
        r = func(*pa, **pk)
        if out is not None:
            out[...] = wrapout(r)
            return out
        return wrapout(r)
    g = FUNCS.get(func)
    if g is not None:
        try:
            return g(*args, **kwargs)
        except NotImplementedError:
            g = None
    if g is None:
        name = getattr(func, "__name__", str(func))
        if name in OBJ_OK and func not in FUNCS:
            return _objcall(func, args, kwargs)
        engine().unsupported.append(f"np.{name}")
        pa = [concretize(x, f"np.{name}") for x in args]
        pk = {k: concretize(v, f"np.{name}") for k, v in kwargs.items()}
        return dispatch_function(func, tuple(pa), pk)


# shape-only functions: run the real function on the object arrays
OBJ_OK = {
    "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack",
    "reshape", "ravel", "transpose", "moveaxis", "swapaxes", "expand_dims",
    "squeeze", "broadcast_to", "broadcast_arrays", "tile", "repeat", "flip",
    "flipud", "fliplr", "roll", "atleast_1d", "atleast_2d", "atleast_3d",
    "take", "delete", "insert", "append", "split", "array_split", "hsplit",
    "vsplit", "copy", "diag", "diagonal", "rot90", "compress", "row_stack",
    "resize", "take_along_axis", "meshgrid", "block", "pad", "tril", "triu",
    "shape", "ndim", "size", "unstack",
}


def _objcall(func, args, kwargs):
    arrs = []

    def conv(x):
        if isinstance(x, SymBase):
            x = asarr(x)
        if isinstance(x, Arr):
            arrs.append(x)
            if x._k:
                return x.view(rnp.ndarray)
            # lift real arrays so that the joint result is an object array
            if x.dtype.kind in "biuf" and x.dtype != OBJ:
                return x.view(rnp.ndarray).astype(object)
            return x.view(rnp.ndarray)
        if isinstance(x, (list, tuple)):
            if deep_special(x) and not any(isinstance(y, rnp.ndarray) for y in x):
                return conv(build(x))
            return type(x)(conv(y) for y in x)
        if isinstance(x, rnp.ndarray):
            return conv(asarr(x))
        return x

    a0 = [conv(x) if i == 0 or func.__name__ in ("append", "insert", "copyto") else _idxish(x) for i, x in enumerate(args)]
    k0 = {k: (_idxish(v) if k in ("axis", "indices", "shape", "repeats", "k") else conv(v)) for k, v in kwargs.items() if k not in ("dtype", "casting", "out")}
    r = func(*a0, **k0)
    k = join_kind([a for a in arrs]) if arrs else None

    def back(y):
        if isinstance(y, rnp.ndarray):
            if y.dtype == OBJ:
                z = y.copy().view(Arr)
                z._k = k
                if k:
                    canon(z, k)
                    return settle(z)
                return z
            return rewrap(y)
        if isinstance(y, (list, tuple)):
            return type(y)(back(q) for q in y)
        return y

    return back(r)


def _idxish(x):
    return plain(norm_index(x)) if isinstance(x, (Arr, SymBase, list, tuple)) and has_sym(x) else plain(x)


def proxy_call(func, *args, **kwargs):
    args, kwargs = prep(args, kwargs)
    kwargs = {k: v for k, v in kwargs.items() if not (v is None and k in ("out", "kind", "sorter", "dtype"))}
    if kwargs.get("keepdims") is False:
        kwargs.pop("keepdims")
    return dispatch_function(func, args, kwargs)


def prep(args, kwargs):
    return tuple(prep1(a) for a in args), {k: prep1(v) for k, v in kwargs.items()}


def prep1(a):
    if isinstance(a, (list, tuple)) and deep_special(a):
        if isinstance(a, list) and all(isinstance(x, (SymBase, int, float, rnp.generic)) for x in a):
            return build(a)
        if all(isinstance(x, (list, tuple)) for x in a) and not any(isinstance(y, rnp.ndarray) for x in a for y in x):
            try:
                return build(a)
            except ValueError:
                return a
        return type(a)(a) if type(a) in (list, tuple) else a
    if isinstance(a, type):
        b = getattr(a, "__symx_real__", None)
        return b if b is not None else a
    return a


@impl("sum", "nansum")
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=rnp._NoValue, where=rnp._NoValue):
    r = reduce_axis("add", *UF["add"], asarr(a), axis, keepdims if keepdims is not rnp._NoValue else False, initial, where)
    if dtype is not None:
        r = cast(r, norm_dtype(dtype)) if isinstance(r, rnp.ndarray) else cast_scalar(r, dtype)
    if out is not None:
        out[...] = r
        return out
    return r


@impl("prod")
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return reduce_axis("multiply", *UF["multiply"], asarr(a), axis, keepdims if keepdims is not rnp._NoValue else False, rnp._NoValue)


@impl("any")
def _any(a, axis=None, out=None, keepdims=False, where=rnp._NoValue):
    return reduce_axis("logical_or", *UF["logical_or"], asarr(a), axis, keepdims if keepdims is not rnp._NoValue else False, rnp._NoValue, where)


@impl("all")
def _all(a, axis=None, out=None, keepdims=False, where=rnp._NoValue):
    return reduce_axis("logical_and", *UF["logical_and"], asarr(a), axis, keepdims if keepdims is not rnp._NoValue else False, rnp._NoValue, where)


@impl("max", "amax", "nanmax")
def _max(a, axis=None, out=None, keepdims=False, initial=rnp._NoValue, where=rnp._NoValue):
    return reduce_axis("maximum", *UF["maximum"], asarr(a), axis, keepdims if keepdims is not rnp._NoValue else False, initial, where)


@impl("min", "amin", "nanmin")
def _min(a, axis=None, out=None, keepdims=False, initial=rnp._NoValue, where=rnp._NoValue):
    return reduce_axis("minimum", *UF["minimum"], asarr(a), axis, keepdims if keepdims is not rnp._NoValue else False, initial, where)


@impl("mean", "nanmean")
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=rnp._NoValue):
    a = asarr(a)
    s = _sum(a, axis=axis, keepdims=keepdims, where=where)
    if axis is None:
        n = a.size
    elif isinstance(axis, tuple):
        n = math.prod(a.shape[i] for i in axis)
    else:
        n = a.shape[axis]
    return dispatch_ufunc(rnp.divide, "__call__", (s, n), {})


@impl("average")
def _average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return _mean(a, axis=axis)
    a, w = asarr(a), asarr(weights)
    return proxy_call(rnp.sum, a * w, axis=axis) / proxy_call(rnp.sum, w, axis=axis)


@impl("count_nonzero")
def _count_nonzero(a, axis=None, keepdims=False):
    a = asarr(a)
    if a._k == "b":
        return _sum(a, axis=axis)
    return proxy_call(rnp.sum, a != 0, axis=axis)


@impl("cumsum")
def _cumsum(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return accumulate_axis("add", *UF["add"], a, axis)


@impl("cumprod")
def _cumprod(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return accumulate_axis("multiply", *UF["multiply"], a, axis)


@impl("where")
def _where(c, *xy):
    c = asarr(c)
    if not xy:
        return _nonzero(c)
    x, y = asarr(xy[0]), asarr(xy[1])
    k = join_kind([x, y])
    sh = rnp.broadcast_shapes(c.shape, x.shape, y.shape)
    cb, xb, yb = (rnp.broadcast_to(v.view(rnp.ndarray), sh) for v in (c, x, y))
    res = rnp.empty(sh, dtype=object)
    for p in rnp.ndindex(*sh):
        cc = cb[p]
        if k is None:
            res[p] = xb[p] if bool(cc) else yb[p]
        else:
            res[p] = coerce_elem(ite(_tb(cc), coerce_elem(xb[p], k), coerce_elem(yb[p], k)), k)
    r = res.view(Arr)
    r._k = k
    return settle(r) if r.ndim else scalarize(r)


@impl("nonzero", "flatnonzero", "argwhere")
def _nonzero(a):
    a = asarr(a)
    m = concretize(a if a._k == "b" else (a != 0))
    return wrapout(rnp.nonzero(plain(m)))


FUNCS[rnp.flatnonzero] = lambda a: _nonzero(asarr(a).reshape(-1))[0]
FUNCS[rnp.argwhere] = lambda a: proxy_call(rnp.transpose, rnp.array([plain(x) for x in _nonzero(a)]))


@impl("isclose")
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = asarr(a), asarr(b)
    sh = rnp.broadcast_shapes(a.shape, b.shape)
    ab, bb = rnp.broadcast_to(a.view(rnp.ndarray), sh), rnp.broadcast_to(b.view(rnp.ndarray), sh)
    res = rnp.empty(sh, dtype=object)
    for p in rnp.ndindex(*sh):
        x, y = ab[p], bb[p]
        if not isinstance(x, SymBase) and not isinstance(y, SymBase):
            res[p] = bool(rnp.isclose(x, y, rtol=rtol, atol=atol))
            continue
        x, y = coerce_elem(x, "f"), coerce_elem(y, "f")
        d = core.arith("sub", x, y)
        # |y| without forking
        ay = ite(core.cmp("ge", y, 0.0), y, -y) if isinstance(y, SymBase) else abs(float(y))
        tol = core.arith("add", float(atol), core.arith("mul", float(rtol), ay))
        res[p] = and_(core.cmp("le", d, tol), core.cmp("le", -d if isinstance(d, SymBase) else -float(d), tol))
    r = res.view(Arr)
    r._k = "b"
    return settle(r) if r.ndim else scalarize(r)


@impl("allclose")
def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(_all(_isclose(a, b, rtol=rtol, atol=atol)))


@impl("array_equal")
def _array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return bool(_all(asarr(a == b)))


def _lt(x, y):
    return bool(x < y)


def _merge_order(keyrows):
    """stable argsort of a list of comparable tuples (forks on comparisons)."""

    def c(i, j):
        for x, y in zip(keyrows[i], keyrows[j]):
            if x is y:
                continue
            if bool(x < y):
                return -1
            if bool(y < x):
                return 1
        return 0

    return sorted(range(len(keyrows)), key=functools.cmp_to_key(c))


@impl("argsort")
def _argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = rnp.moveaxis(a.view(rnp.ndarray), axis, -1)
    res = rnp.empty(b.shape, dtype=rnp.intp)
    for p in rnp.ndindex(*b.shape[:-1]):
        res[p] = _merge_order([(x,) for x in b[p]])
    return rewrap(rnp.moveaxis(res, -1, axis))


@impl("sort")
def _sort(a, axis=-1, kind=None, order=None, stable=None):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = rnp.moveaxis(a.view(rnp.ndarray), axis, -1)
    res = rnp.empty(b.shape, dtype=object)
    for p in rnp.ndindex(*b.shape[:-1]):
        o = _merge_order([(x,) for x in b[p]])
        for i, j in enumerate(o):
            res[p + (i,)] = b[p][j]
    return rewrap(rnp.moveaxis(res, -1, axis).copy(), a._k, a._dt)


@impl("lexsort")
def _lexsort(keys, axis=-1):
    ks = [asarr(k).view(rnp.ndarray) for k in (keys if isinstance(keys, (list, tuple)) else list(asarr(keys)))]
    n = ks[0].shape[0]
    rows = [tuple(k[i] for k in reversed(ks)) for i in range(n)]
    return rewrap(rnp.array(_merge_order(rows), dtype=rnp.intp))


@impl("argmax", "nanargmax")
def _argmax(a, axis=None, out=None, keepdims=False):
    return _argext(a, axis, lambda x, y: x > y)


@impl("argmin", "nanargmin")
def _argmin(a, axis=None, out=None, keepdims=False):
    return _argext(a, axis, lambda x, y: x < y)


def _argext(a, axis, better):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = rnp.moveaxis(a.view(rnp.ndarray), axis, -1)
    if b.shape[-1] == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    res = rnp.empty(b.shape[:-1], dtype=rnp.intp)
    for p in rnp.ndindex(*b.shape[:-1]):
        row = b[p]
        best = 0
        for i in range(1, len(row)):
            if bool(better(row[i], row[best])):
                best = i
        res[p] = best
    return rnp.intp(res[()]) if res.ndim == 0 else rewrap(res)


def _eqv(x, y):
    if x is y:
        return True
    return bool(x == y)


@impl("unique")
def _unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, *, equal_nan=True, sorted=True):
    a = asarr(ar)
    b = a.view(rnp.ndarray)
    if axis is None:
        b = b.reshape(-1)
        rows = [(x,) for x in b]
        inv_shape = a.shape
    else:
        b = rnp.moveaxis(b, axis, 0)
        rows = [tuple(b[i].reshape(-1)) for i in range(b.shape[0])]
        inv_shape = (b.shape[0],)
    order = _merge_order(rows)
    groups = []
    for i in order:
        if groups and all(_eqv(x, y) for x, y in zip(rows[groups[-1][0]], rows[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    first = [min(g) for g in groups]
    vals = b[first] if first else b[:0]
    if axis is not None:
        vals = rnp.moveaxis(vals, 0, axis)
    out = [rewrap(vals.copy(), a._k, a._dt) if a._k else rewrap(vals.copy())]
    if return_index:
        out.append(rewrap(rnp.array(first, dtype=rnp.intp)))
    if return_inverse:
        inv = rnp.empty(len(rows), dtype=rnp.intp)
        for gi, g in enumerate(groups):
            inv[g] = gi
        out.append(rewrap(inv.reshape(inv_shape)))
    if return_counts:
        out.append(rewrap(rnp.array([len(g) for g in groups], dtype=rnp.intp)))
    return out[0] if len(out) == 1 else tuple(out)


@impl("isin", "in1d")
def _isin(element, test_elements, assume_unique=False, invert=False, kind=None):
    e, t = asarr(element), asarr(test_elements).reshape(-1)
    res = rnp.empty(e.shape, dtype=object)
    eb, tb = e.view(rnp.ndarray), t.view(rnp.ndarray)
    for p in rnp.ndindex(*e.shape):
        v = or_(*[core.cmp("eq", eb[p], y) if (isinstance(eb[p], SymBase) or isinstance(y, SymBase)) else bool(eb[p] == y) for y in tb])
        res[p] = not_(v) if invert else v
    r = res.view(Arr)
    r._k = "b"
    return settle(r)


@impl("bincount")
def _bincount(x, weights=None, minlength=0):
    xi = plain(to_real(concretize(asarr(x))))
    if weights is None or not has_sym(weights):
        w = None if weights is None else plain(asarr(weights))
        return wrapout(rnp.bincount(xi, weights=w, minlength=int(minlength)))
    w = asarr(weights)
    n = max(int(xi.max()) + 1 if xi.size else 0, int(minlength))
    o = rnp.empty(n, dtype=object)
    for i in range(n):
        o[i] = rnp.float64(0.0)
    for i, v in zip(xi, w.view(rnp.ndarray)):
        o[i] = core.arith("add", o[i], coerce_elem(v, "f")) if isinstance(v, SymBase) or isinstance(o[i], SymBase) else rnp.float64(o[i] + float(v))
    r = o.view(Arr)
    r._k = "f"
    return r


@impl("diff")
def _diff(a, n=1, axis=-1, prepend=rnp._NoValue, append=rnp._NoValue):
    a = asarr(a)
    parts = []
    if prepend is not rnp._NoValue:
        parts.append(asarr(prepend).reshape(-1))
    parts.append(a)
    if append is not rnp._NoValue:
        parts.append(asarr(append).reshape(-1))
    if len(parts) > 1:
        a = proxy_call(rnp.concatenate, parts)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = asarr(a[tuple(s1)] - a[tuple(s2)])
    return a


@impl("ediff1d")
def _ediff1d(a, to_end=None, to_begin=None):
    return _diff(a)


@impl("trapezoid", "trapz")
def _trapz(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    s1 = [slice(None)] * y.ndim
    s2 = [slice(None)] * y.ndim
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    d = _diff(x, axis=axis) if x is not None else dx
    return proxy_call(rnp.sum, d * (y[tuple(s1)] + y[tuple(s2)]) / 2.0, axis=axis)


@impl("clip")
def _clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get("min", a_min)
    a_max = kw.get("max", a_max)
    r = asarr(a)
    if a_min is not None:
        r = dispatch_ufunc(rnp.maximum, "__call__", (r, a_min), {})
    if a_max is not None:
        r = dispatch_ufunc(rnp.minimum, "__call__", (r, a_max), {})
    return r


@impl("searchsorted")
def _searchsorted(a, v, side="left", sorter=None):
    a, v = asarr(a), asarr(v)
    ab, vb = a.view(rnp.ndarray), v.view(rnp.ndarray)
    res = rnp.empty(v.shape, dtype=rnp.intp)
    for p in rnp.ndindex(*v.shape):
        n = 0
        for x in ab:
            if bool(x < vb[p]) or (side == "right" and bool(x == vb[p])):
                n += 1
            else:
                break
        res[p] = n
    return rnp.intp(res[()]) if res.ndim == 0 else rewrap(res)


@impl("digitize")
def _digitize(x, bins, right=False):
    return _searchsorted(bins, x, side="left" if right else "right")


@impl("dot", "matmul", "inner")
def _dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return _sum(a * b)
    if a.ndim == 2 and b.ndim == 1:
        return proxy_call(rnp.array, [_sum(a[i] * b) for i in range(a.shape[0])])
    if a.ndim == 2 and b.ndim == 2:
        return build([[_sum(asarr(a[i] * b[:, j])) for j in range(b.shape[1])] for i in range(a.shape[0])])
    raise NotImplementedError


@impl("zeros_like", "ones_like", "empty_like", "full_like")
def _unused(*a, **k):
    raise NotImplementedError


def _like(fillv):
    def f(a, dtype=None, order="K", subok=True, shape=None, **kw):
        a = asarr(a)
        dt = norm_dtype(dtype) or a.dtype
        sh = a.shape if shape is None else shape
        return rewrap(rnp.full(sh, fillv, dtype=dt))

    return f


FUNCS[rnp.zeros_like] = _like(0)
FUNCS[rnp.ones_like] = _like(1)
FUNCS[rnp.empty_like] = _like(0)


def _full_like(a, fill_value, dtype=None, **kw):
    a = asarr(a)
    r = _like(0)(a, dtype=dtype)
    if has_sym(fill_value) and not r._k:
        r = to_kind(r, _kind_of_dtype(r.dtype))
    r[...] = fill_value
    return r


FUNCS[rnp.full_like] = _full_like


@impl("ix_")
def _ix(*args):
    return wrapout(rnp.ix_(*[plain(concretize(asarr(a))) for a in args]))


@impl("round", "around")
def _round(a, decimals=0, out=None):
    a = asarr(a)
    b = a.view(rnp.ndarray)
    res = rnp.empty(a.shape, dtype=object)
    for p in rnp.ndindex(*a.shape):
        res[p] = core.sym_round(b[p], decimals) if isinstance(b[p], Sym) else rnp.round(b[p], decimals)
    return _fin(res, a._k or _kind_of_dtype(a.dtype))


@impl("array_repr", "array_str", "array2string")
def _repr(a, *x, **k):
    return repr(a)


@impl("nan_to_num")
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = asarr(x)
    o = a.copy()
    b = o.view(rnp.ndarray)
    for p in rnp.ndindex(*b.shape):
        if not isinstance(b[p], SymBase):
            b[p] = rnp.nan_to_num(b[p], nan=nan, posinf=posinf, neginf=neginf)
    return o if o.ndim else scalarize(o)


@impl("select")
def _select(condlist, choicelist, default=0):
    r = asarr(default)
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = _where(c, v, r)
    return r


@impl("median", "nanmedian")
def _median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        s = _sort(a)
        n = s.shape[0]
        if n % 2:
            return s[n // 2]
        return (s[n // 2 - 1] + s[n // 2]) / 2
    engine().unsupported.append("np.median")
    return wrapout(rnp.median(plain(concretize(a)), axis=axis))


@impl("var")
def _var(a, axis=None, **kw):
    a = asarr(a)
    m = _mean(a, axis=axis, keepdims=axis is not None)
    d = a - m
    return _mean(asarr(d * d), axis=axis)


@impl("put_along_axis", "copyto")
def _copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        s = asarr(src)
        dst[where] = s[where] if s.ndim else s.view(rnp.ndarray)[()]


@impl("union1d")
def _union1d(a, b):
    return _unique(proxy_call(rnp.concatenate, [asarr(a).reshape(-1), asarr(b).reshape(-1)]))


@impl("intersect1d")
def _intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        raise NotImplementedError("intersect1d")
    u = asarr(_unique(a))
    return u[_isin(u, b)]


@impl("setdiff1d")
def _setdiff1d(a, b, assume_unique=False):
    u = asarr(_unique(a))
    return u[_isin(u, b, invert=True)]


# ------------------------------------------------------------------ module proxy


def _fin(res, k):
    r = res.view(Arr)
    r._k = k
    canon(r, k)
    return scalarize(r) if r.ndim == 0 else settle(r)


def _matmul(a, b):
    return _einsum({(1, 1): "i,i->", (2, 1): "ij,j->i", (1, 2): "i,ij->j", (2, 2): "ij,jk->ik"}[asarr(a).ndim, asarr(b).ndim], a, b)


@impl("einsum")
def _einsum(spec, *ops, **kw):
    import itertools

    ops = [asarr(o) for o in ops]
    spec = spec.replace(" ", "")
    if "." in spec or not isinstance(spec, str):
        raise NotImplementedError("einsum " + spec)
    left, arrow, right = spec.partition("->")
    terms = left.split(",")
    if not arrow:
        right = "".join(sorted(c for c in set(left) - {","} if left.count(c) == 1))
    size = {}
    for t, o in zip(terms, ops):
        if len(t) != o.ndim:
            raise ValueError("einstein sum subscripts do not match the operands")
        for c, n in zip(t, o.shape):
            size[c] = n
    rest = [c for c in size if c not in right]
    k = join_kind(ops)
    res = rnp.empty(tuple(size[c] for c in right), dtype=object)
    vs = [o.view(rnp.ndarray) for o in ops]
    for p in rnp.ndindex(*res.shape):
        at = dict(zip(right, p))
        acc = 0.0 if k == "f" else 0
        for q in itertools.product(*[range(size[c]) for c in rest]):
            at.update(zip(rest, q))
            v = None
            for t, o in zip(terms, vs):
                x = o[tuple(at[c] for c in t)]
                v = x if v is None else (rnp.multiply(v, x) if not isinstance(v, SymBase) and not isinstance(x, SymBase) else core.arith("mul", coerce_elem(v, k), coerce_elem(x, k)))
            acc = core.arith("add", acc, coerce_elem(v, k)) if isinstance(acc, SymBase) or isinstance(v, SymBase) else acc + v
        res[p] = coerce_elem(acc, k)
    return _fin(res, k)


@impl("outer")
def _outer(a, b, out=None):
    a, b = asarr(a).reshape(-1), asarr(b).reshape(-1)
    return a.reshape(-1, 1) * b.reshape(1, -1)


@impl("inner")
def _inner(a, b):
    a, b = asarr(a), asarr(b)
    return _sum(a * b) if a.ndim == 1 and b.ndim == 1 else _matmul(a, b.T)


@impl("tensordot")
def _tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if axes == 1 and a.ndim <= 2 and b.ndim <= 2:
        return _matmul(a, b)
    raise NotImplementedError("tensordot")


@impl("trace")
def _trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    return _sum(proxy_call(rnp.diagonal, a, offset, axis1, axis2), axis=-1)


@impl("ptp")
def _ptp(a, axis=None, **kw):
    return _max(asarr(a), axis=axis) - _min(asarr(a), axis=axis)


@impl("extract")
def _extract(condition, arr):
    return asarr(arr).reshape(-1)[asarr(condition).reshape(-1)]


@impl("compress")
def _compress(condition, a, axis=None, out=None):
    a, c = asarr(a), asarr(condition)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return proxy_call(rnp.take, a, _nonzero(c)[0], axis)


@impl("place")
def _place(arr, mask, vals):
    v = asarr(vals).reshape(-1).view(rnp.ndarray)
    n = 0
    for p in rnp.ndindex(*arr.shape):
        if bool(asarr(mask).view(rnp.ndarray)[p]):
            arr[p] = v[n % len(v)]
            n += 1


@impl("putmask")
def _putmask(a, mask, values):
    m, v = asarr(mask).view(rnp.ndarray), asarr(values).view(rnp.ndarray)
    for n, p in enumerate(rnp.ndindex(*a.shape)):
        x = v.reshape(-1)[n % v.size]
        a[p] = core.ite(m[p], x, a[p]) if isinstance(m[p], SymBase) else (x if m[p] else a[p])


@impl("choose")
def _choose(a, choices, out=None, mode="raise"):
    a = asarr(a)
    r = asarr(choices[-1])
    for n in range(len(choices) - 2, -1, -1):
        r = _where(a == n, asarr(choices[n]), r)
    return r


@impl("put_along_axis")
def _put_along(arr, indices, values, axis):
    ind = asarr(indices)
    vals = rnp.broadcast_to(asarr(values).view(rnp.ndarray), ind.shape)
    axis = axis % arr.ndim
    for p in rnp.ndindex(*ind.shape):
        arr[p[:axis] + (int(ind.view(rnp.ndarray)[p]),) + p[axis + 1 :]] = vals[p]


@impl("meshgrid")
def _meshgrid(*xi, copy=True, sparse=False, indexing="xy"):
    xs = [asarr(x).reshape(-1) for x in xi]
    n = len(xs)
    sh = [x.shape[0] for x in xs]
    out = []
    for k, x in enumerate(xs):
        full = x.reshape([-1 if q == k else 1 for q in range(n)])
        if not sparse:
            full = proxy_call(rnp.broadcast_to, full, tuple(sh))
        if indexing == "xy" and n > 1:
            full = proxy_call(rnp.swapaxes, full, 0, 1)
        out.append(full)
    return tuple(out)


@impl("ravel_multi_index")
def _ravel_multi(multi_index, dims, mode="raise", order="C"):
    r = None
    for x, d in zip(multi_index, dims):
        x = asarr(x)
        r = x if r is None else r * int(d) + x
    return r


@impl("unravel_index")
def _unravel(indices, shape, order="C"):
    x, out = asarr(indices), []
    for d in reversed(tuple(shape)):
        out.append(x % int(d))
        x = x // int(d)
    return tuple(reversed(out))


@impl("setxor1d")
def _setxor(a, b, assume_unique=False):
    return _union1d(_setdiff1d(a, b), _setdiff1d(b, a))


@impl("partition")
def _partition(a, kth, axis=-1, **kw):
    return _sort(asarr(a), axis=axis)


@impl("argpartition")
def _argpartition(a, kth, axis=-1, **kw):
    return _argsort(asarr(a), axis=axis)


@impl("histogram")
def _histogram(a, bins=10, range=None, density=None, weights=None):
    if density or range is not None or not isinstance(bins, (list, tuple, rnp.ndarray)):
        raise NotImplementedError("histogram")
    a, e = asarr(a).reshape(-1), asarr(bins)
    n = e.shape[0] - 1
    out = []
    for k in builtins_range(n):
        inb = (a >= e[k]) & ((a <= e[k + 1]) if k == n - 1 else (a < e[k + 1]))
        out.append(_sum(inb) if weights is None else _sum(_where(inb, asarr(weights), 0)))
    return build(out), e


@impl("cross")
def _cross(a, b, **kw):
    a, b = asarr(a), asarr(b)
    if a.shape != (3,) or b.shape != (3,):
        raise NotImplementedError("cross")
    return build([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


@impl("convolve")
def _convolve(a, v, mode="full"):
    a, v = asarr(a), asarr(v)
    if mode != "full":
        raise NotImplementedError("convolve")
    n, m = a.shape[0], v.shape[0]
    return build([_sum(build([a[i] * v[t - i] for i in builtins_range(n) if 0 <= t - i < m])) for t in builtins_range(n + m - 1)])


@impl("require")
def _require(a, *x, **k):
    return asarr(a)


@impl("block")
def _block(arrays):
    def go(x, depth):
        if isinstance(x, list):
            return proxy_call(rnp.concatenate, [asarr(go(y, depth + 1)) for y in x], -1 if depth == deepest(arrays) - 1 else -2)
        return x

    def deepest(x):
        return 1 + max(deepest(y) for y in x) if isinstance(x, list) else 0

    if deepest(arrays) > 2:
        raise NotImplementedError("block")
    return go(arrays, 0)


@impl("cumulative_sum")
def _cumsum2(x, axis=None, dtype=None, out=None, include_initial=False):
    if include_initial:
        raise NotImplementedError("cumulative_sum")
    return _cumsum(asarr(x), axis=axis)


@impl("astype")
def _astype2(x, dtype, copy=True):
    return asarr(x).astype(dtype)


class _Counts:
    def __init__(self, values, counts):
        self.values, self.counts = values, counts

    def __iter__(self):
        return iter((self.values, self.counts))

    def __getitem__(self, i):
        return (self.values, self.counts)[i]


@impl("unique_counts")
def _uc(x):
    return _Counts(*_unique(x, return_counts=True))


class UfuncProxy:
    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *args, **kw):
        args, kw = prep(args, kw)
        args = tuple(build(a) if isinstance(a, (list, tuple)) and deep_special(a) else a for a in args)
        if "dtype" in kw:
            kw["dtype"] = norm_dtype(kw["dtype"])
        n = self._uf.nin
        if len(args) > n:
            kw["out"] = args[n]
            args = args[:n]
        r = dispatch_ufunc(self._uf, "__call__", args, kw)
        if kw.get("dtype") is not None and isinstance(r, Arr) and r._k:
            r = r.astype(kw["dtype"])
        return r

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **kw):
        (a,), kw = prep((a,), kw)
        if dtype is not None:
            kw["dtype"] = norm_dtype(dtype)
        return dispatch_ufunc(self._uf, "reduce", (asarr(a),), dict(axis=axis, keepdims=keepdims, **kw))

    def accumulate(self, a, axis=0, dtype=None, out=None):
        (a,), _ = prep((a,), {})
        return dispatch_ufunc(self._uf, "accumulate", (asarr(a),), dict(axis=axis))

    def outer(self, a, b, **kw):
        return dispatch_ufunc(self._uf, "outer", (asarr(a), asarr(b)), kw)

    def at(self, a, idx, b=None):
        return dispatch_ufunc(self._uf, "at", (a, norm_index(idx)) + (() if b is None else (b,)), {})

    def reduceat(self, a, idx, axis=0, **kw):
        return dispatch_ufunc(self._uf, "reduceat", (asarr(a), norm_index(idx)), dict(axis=axis, **kw))

    def __getattr__(self, n):
        return getattr(self._uf, n)


def np_scalar(t, *a, **k):
    """np.float64(x) and the like, kept symbolic."""
    if len(a) == 1 and not k and isinstance(t, type) and issubclass(t, rnp.generic):
        x = a[0]
        if isinstance(x, Arr) and x.ndim == 0:
            x = scalarize(x)
        if isinstance(x, SymBase):
            kind = _kind_of_dtype(rnp.dtype(t))
            if kind in ("f", "i", "b"):
                return narrow(coerce_elem(x, kind), rnp.dtype(t))
        elif has_sym(x):
            return asarr(x).astype(t)
    return t(*a, **k)


class RClass:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if not any(isinstance(k, (Arr, SymBase)) or deep_special(k) for k in key):
            return wrapout(rnp.r_[key])
        parts = []
        for k in key:
            if isinstance(k, slice):
                parts.append(rewrap(rnp.r_[k]))
            elif isinstance(k, str):
                raise NotImplementedError("np.r_ directive")
            else:
                a = asarr(k)
                parts.append(a.reshape(1) if a.ndim == 0 else a)
        return proxy_call(rnp.concatenate, parts)


class CClass:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        return proxy_call(rnp.column_stack, [asarr(k) for k in key])


def p_array(obj, dtype=None, copy=True, order="K", subok=False, ndmin=0, **kw):
    dt = norm_dtype(dtype)
    if isinstance(obj, Arr):
        r = obj.copy() if copy else obj
    elif isinstance(obj, (SymBase,)) or (isinstance(obj, (list, tuple)) and deep_special(obj)):
        if isinstance(obj, (list, tuple)) and obj and all(isinstance(x, Arr) for x in obj) and not has_sym(obj):
            r = rewrap(rnp.array([plain(x) for x in obj]))
        elif not has_sym(obj) and isinstance(obj, (list, tuple)):
            r = rewrap(rnp.array(_plain_deep(obj)))
        else:
            r = asarr(obj)
    else:
        return rewrap(rnp.array(obj, dtype=dt, ndmin=ndmin))
    if dt is not None and r.dtype != dt:
        r = r.astype(dt)
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _plain_deep(x):
    if isinstance(x, (list, tuple)):
        return [_plain_deep(y) for y in x]
    return plain(x)


def p_asarray(obj, dtype=None, **kw):
    if isinstance(obj, Arr) and (dtype is None or obj.dtype == norm_dtype(dtype)):
        return obj
    return p_array(obj, dtype=dtype)


def p_full(shape, fill_value, dtype=None, order="C", **kw):
    dt = norm_dtype(dtype)
    if has_sym(fill_value):
        o = rnp.empty(norm_index(shape), dtype=object)
        v = fill_value if not isinstance(fill_value, rnp.ndarray) else fill_value.item()
        for p in rnp.ndindex(*o.shape):
            o[p] = v
        return from_objs(o)
    return rewrap(rnp.full(norm_index(shape), plain(fill_value), dtype=dt))


def _creator(f):
    def g(*args, **kw):
        if "dtype" in kw:
            kw["dtype"] = norm_dtype(kw["dtype"])
        args = tuple(plain(concretize(a)) if has_sym(a) else plain(a) for a in args)
        kw = {k: (plain(concretize(v)) if has_sym(v) else plain(v)) for k, v in kw.items()}
        return wrapout(f(*args, **kw))

    g.__name__ = f.__name__
    return g


def p_empty(*args, **kw):
    """np.empty: contents are unspecified; modelled as zeros."""
    return _creator(rnp.zeros)(*args, **kw)


def p_fromiter(it, dtype, count=-1, **kw):
    return p_array(list(it), dtype=dtype)


def p_vectorize(f, *a, **k):
    def g(*args):
        arrs = [asarr(x) for x in args]
        sh = rnp.broadcast_shapes(*[x.shape for x in arrs])
        bs = [rnp.broadcast_to(x.view(rnp.ndarray), sh) for x in arrs]
        o = rnp.empty(sh, dtype=object)
        for p in rnp.ndindex(*sh):
            o[p] = f(*[b[p] for b in bs])
        return settle(from_objs(o))

    return g


def p_apply_along_axis(f, axis, arr, *args, **kw):
    a = asarr(arr)
    m = proxy_call(rnp.moveaxis, a, axis, -1)
    sh = m.shape[:-1]
    vals = [f(m[p], *args, **kw) for p in rnp.ndindex(*sh)]
    if vals and isinstance(vals[0], rnp.ndarray):
        r = proxy_call(rnp.stack, vals).reshape(sh + vals[0].shape)
        return proxy_call(rnp.moveaxis, r, -1, axis)
    return p_array(vals).reshape(sh)


def _fwrap(f):
    @functools.wraps(f)
    def g(*args, **kw):
        args, kw = prep(args, kw)
        if kw.get("dtype") is not None:
            kw["dtype"] = norm_dtype(kw["dtype"])
        return dispatch_function(f, args, kw)

    return g


class ErrState:
    def __init__(self, *a, **k):
        self._e = rnp.errstate(*a, **k)

    def __enter__(self):
        return self._e.__enter__()

    def __exit__(self, *a):
        return self._e.__exit__(*a)

    def __call__(self, f):
        return f


def make_module():
    m = _types.ModuleType("numpy")
    m.__symx__ = True
    overrides = {
        "array": p_array,
        "asarray": p_asarray,
        "asanyarray": p_asarray,
        "ascontiguousarray": p_asarray,
        "full": p_full,
        "zeros": _creator(rnp.zeros),
        "ones": _creator(rnp.ones),
        "empty": p_empty,
        "arange": _creator(rnp.arange),
        "linspace": _creator(rnp.linspace),
        "eye": _creator(rnp.eye),
        "identity": _creator(rnp.identity),
        "indices": _creator(rnp.indices),
        "fromiter": p_fromiter,
        "r_": RClass(),
        "c_": CClass(),
        "vectorize": p_vectorize,
        "apply_along_axis": p_apply_along_axis,
        "errstate": ErrState,
    }
    for name in dir(rnp):
        if name.startswith("__") and name not in ("__version__",):
            continue
        try:
            v = getattr(rnp, name)
        except Exception:
            continue
        if name in overrides:
            v = overrides[name]
        elif isinstance(v, rnp.ufunc):
            v = UfuncProxy(v)
        elif isinstance(v, type) or isinstance(v, _types.ModuleType):
            pass
        elif callable(v) and name not in ("s_", "index_exp", "dtype", "iinfo", "finfo", "ndindex", "ndenumerate", "seterr", "geterr", "result_type", "can_cast", "promote_types", "issubdtype", "broadcast_shapes", "isscalar", "may_share_memory", "shares_memory"):
            v = _fwrap(v)
        setattr(m, name, v)
    m.__path__ = rnp.__path__
    m.__file__ = rnp.__file__
    m.__spec__ = rnp.__spec__
    m.ndindex = rnp.ndindex
    return m
