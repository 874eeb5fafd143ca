"""Real pyarrow under symbolic values.

Symbolic numbers are stored in real pyarrow columns as *handles*: reserved
numeric values (>= 2**60) that index the engine's table of symbolic terms.
Everything that only moves rows around (record batches, tables, parquet files,
datasets, schemas, concatenation, slicing, take) is done by the real pyarrow on
handles.  Everything that looks at values (to_numpy, as_py, sort_by, filter,
compute functions) goes through the wrappers below.
"""
from __future__ import annotations

import functools
import types as _types

import numpy as rnp
import pyarrow as rpa
import pyarrow.compute as rpc
import pyarrow.dataset as rds
import pyarrow.parquet as rpq

from . import core, narr
from .core import Sym, SymBase, SymBool, and_, engine, not_, or_

FBASE = float(2**60)
FSTEP = float(2**37)  # exact in float32 too
FTOP = float(2**61)
IBASE = 2**60


def enc(v, want=None):
    """symbolic scalar -> handle number."""
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, Sym):
        if want in NARROW:
            v = core.rounded(narr.coerce_elem(v, "f"), NARROW[want])
            if not isinstance(v, Sym):
                return float(v)
        if want == "f" and v.k == "i":
            v = narr.coerce_elem(v, "f")
            if not isinstance(v, Sym):
                return float(v)
        if want == "i" and v.k == "r":
            v = core.sym_trunc(v)
            if not isinstance(v, Sym):
                return int(v)
        if want == "b":
            return bool(v != 0)
        h = engine().handle(v)
        if v.k == "r":
            return FBASE + FSTEP * h
        return IBASE + h
    return v


def dec_f(x):
    if FBASE <= x < FTOP:
        return engine().handles[int((x - FBASE) / FSTEP)]
    return x


def dec_i(x):
    if IBASE <= x < 2 * IBASE:
        return engine().handles[int(x) - IBASE]
    return x


NARROW = {"f4": "float32", "f2": "float16"}


def want_of(t):
    """how values are encoded for a column of type t."""
    if t == rpa.float32():
        return "f4"
    if t == rpa.float16():
        return "f2"
    return type_kind(t)


def type_kind(t):
    if rpa.types.is_floating(t):
        return "f"
    if rpa.types.is_integer(t):
        return "i"
    if rpa.types.is_boolean(t):
        return "b"
    return None


def col_has_handles(c):
    """c: real Array/ChunkedArray."""
    if not core.active() or not engine().handles:
        return False
    k = type_kind(c.type)
    if k not in ("f", "i") or len(c) == 0:
        return False
    m = rpc.max(c).as_py()
    return m is not None and m == m and m >= FBASE


def dec_list(c):
    """real Array/ChunkedArray -> list with Sym values."""
    out = c.to_pylist()
    if col_has_handles(c):
        d = dec_f if type_kind(c.type) == "f" else dec_i
        out = [x if x is None else d(x) for x in out]
    return out


# ------------------------------------------------------------------ wrappers


class W:
    __slots__ = ("_r",)

    def __init__(self, r):
        object.__setattr__(self, "_r", r)

    def __getattr__(self, name):
        v = getattr(self._r, name)
        if callable(v) and not isinstance(v, type):
            @functools.wraps(v)
            def call(*a, **k):
                return wrap(v(*unwrap(a), **unwrap(k)))

            return call
        return wrap(v)

    def __len__(self):
        return len(self._r)

    def __repr__(self):
        return f"W({self._r!r})"

    def __eq__(self, o):
        return self._r == unwrap(o)

    def __ne__(self, o):
        return not self._r == unwrap(o)

    __hash__ = None

    def __reduce__(self):
        raise TypeError("wrapped pyarrow object")


def unwrap(x):
    if isinstance(x, W):
        return x._r
    if isinstance(x, WExpr):
        return x.real()
    if isinstance(x, rnp.ndarray):
        return enc_array(x)
    if isinstance(x, SymBase):
        return enc(x)
    if isinstance(x, list):
        return [unwrap(y) for y in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(unwrap(y) for y in x)
    if isinstance(x, dict):
        return {k: unwrap(v) for k, v in x.items()}
    if isinstance(x, type):
        b = getattr(x, "__symx_real__", None)
        return b if b is not None else x
    return x


def enc_array(a, want=None):
    """ndarray/Arr -> plain ndarray of a real dtype (handles for symbols)."""
    if not isinstance(a, narr.Arr):
        if a.dtype == object and narr.has_sym(a):
            a = narr.from_objs(a.copy())
        else:
            return a
    if not a._k:
        return a.view(rnp.ndarray)
    b = a.view(rnp.ndarray)
    if a._k == "b":
        return narr.to_real(narr.concretize(a)).view(rnp.ndarray)
    o = rnp.empty(b.shape, dtype=rnp.float64 if a._k == "f" else rnp.int64)
    for p in rnp.ndindex(*b.shape):
        v = b[p]
        o[p] = enc(v, a._k) if isinstance(v, SymBase) else v
    return o


def wrap(x):
    if isinstance(x, rpa.Table):
        return WTable(x)
    if isinstance(x, rpa.RecordBatch):
        return WBatch(x)
    if isinstance(x, rpa.ChunkedArray):
        return WChunked(x)
    if isinstance(x, rpa.Array):
        return WArray(x)
    if isinstance(x, rpa.Scalar):
        return WScalar(x)
    if isinstance(x, rpa.Schema):
        return WSchema(x)
    if isinstance(x, rds.Fragment):
        return WFragment(x)
    if isinstance(x, rds.Dataset):
        return WDataset(x)
    if isinstance(x, rpc.Expression):
        return WExpr("real", (x,))
    if isinstance(x, rnp.ndarray) and not isinstance(x, narr.Arr):
        return narr.rewrap(x)
    if isinstance(x, list):
        return [wrap(y) for y in x]
    if type(x) is tuple:
        return tuple(wrap(y) for y in x)
    if isinstance(x, _types.GeneratorType) or type(x).__name__ in ("RecordBatchReader",):
        return (wrap(y) for y in x)
    return x


class WSchema(W):
    __slots__ = ()

    def empty_table(self):
        return WTable(self._r.empty_table())

    def __iter__(self):
        return iter(self._r)

    def __getitem__(self, i):
        return self._r[i]

    def __contains__(self, x):
        return x in self._r.names


class WScalar(W):
    __slots__ = ()

    def as_py(self, **kw):
        v = self._r.as_py()
        if isinstance(v, bool) or v is None:
            return v
        if isinstance(v, int):
            return dec_i(v) if core.active() else v
        if isinstance(v, float):
            return dec_f(v) if core.active() else v
        return v

    def __eq__(self, o):
        a, b = self.as_py(), (o.as_py() if isinstance(o, WScalar) else o)
        if has_symv(a) or has_symv(b):
            return a == b
        return self._r == unwrap(o)

    def __hash__(self):
        return hash(self._r)

    def _cmp(self, o, op):
        import operator

        b = o.as_py() if isinstance(o, WScalar) else o
        return getattr(operator, op)(self.as_py(), b)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __bool__(self):
        return bool(self._r)


def has_symv(x):
    return isinstance(x, SymBase)


class _Col(W):
    __slots__ = ()

    def to_numpy(self, *a, **k):
        c = self._r
        if col_has_handles(c):
            kind = type_kind(c.type)
            vals = dec_list(c)
            o = rnp.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                o[i] = rnp.float64("nan") if v is None else (v if isinstance(v, SymBase) else (rnp.float64(v) if kind == "f" else int(v)))
            return narr.rewrap(o, kind)
        if isinstance(c, rpa.Array):
            k.setdefault("zero_copy_only", False)
        return narr.rewrap(c.to_numpy(*a, **k).copy())

    def __array__(self, dtype=None, copy=None):
        return self.to_numpy()

    def to_pylist(self, **kw):
        return dec_list(self._r)

    tolist = to_pylist

    def __getitem__(self, i):
        if isinstance(i, slice):
            return wrap(self._r[narr.norm_index(i)])
        return WScalar(self._r[int(narr.norm_index(i))])

    def __iter__(self):
        for x in self._r:
            yield WScalar(x)

    def take(self, indices, **kw):
        return wrap(self._r.take(_indices(indices)))

    def filter(self, mask, **kw):
        return wrap(self._r.filter(unwrap(mask)))

    def unique(self):
        return f_unique(self)

    def sort(self, order="ascending", **kw):
        c = self._r
        if not col_has_handles(c):
            return wrap(c.sort(order, **kw))
        idx = sort_order([(dec_list(c), order)], len(c))
        return wrap(c.take(rpa.array(idx, type=rpa.int64())))

    def cast(self, *a, **k):
        if col_has_handles(self._r):
            tgt = unwrap(a[0] if a else k.get("target_type"))
            if isinstance(tgt, str):
                tgt = rpa.type_for_alias(tgt)
            vals = dec_list(self._r)
            want = want_of(tgt)
            return wrap(rpa.array([enc(v, want) if isinstance(v, SymBase) else v for v in vals], type=tgt))
        return wrap(self._r.cast(*unwrap(a), **unwrap(k)))

    def value_counts(self):
        if col_has_handles(self._r):
            raise NotImplementedError("value_counts on symbolic column")
        return wrap(self._r.value_counts())


def _indices(ix):
    if isinstance(ix, W):
        return ix._r
    if isinstance(ix, (list, tuple)):
        ix = narr.norm_index(list(ix))
        return rpa.array([int(i) for i in ix], type=rpa.int64())
    ix = narr.norm_index(ix) if isinstance(ix, narr.Arr) else ix
    return rpa.array(rnp.asarray(ix).astype(rnp.int64))


class WChunked(_Col):
    __slots__ = ()

    def combine_chunks(self, **kw):
        return wrap(self._r.combine_chunks())

    @property
    def chunks(self):
        return [wrap(c) for c in self._r.chunks]


class WArray(_Col):
    __slots__ = ()


def sort_order(keys, n):
    """keys: list of (values, 'ascending'|'descending'); stable, nulls last."""

    def c(i, j):
        for vals, d in keys:
            x, y = vals[i], vals[j]
            if x is y:
                continue
            if x is None or y is None:
                if x is None and y is None:
                    continue
                return 1 if x is None else -1
            if bool(x < y):
                return -1 if d == "ascending" else 1
            if bool(y < x):
                return 1 if d == "ascending" else -1
        return 0

    return sorted(range(n), key=functools.cmp_to_key(c))


class _Tab(W):
    __slots__ = ()

    def __getitem__(self, key):
        if isinstance(key, slice):
            return wrap(self._r[narr.norm_index(key)])
        return wrap(self._r[key])

    def column(self, i):
        return wrap(self._r.column(i))

    @property
    def columns(self):
        return [wrap(c) for c in self._r.columns]

    def sort_by(self, sorting, **kw):
        t = self._r
        if isinstance(sorting, str):
            sorting = [(sorting, "ascending")]
        if not any(col_has_handles(t[name]) for name, _ in sorting):
            return wrap(t.sort_by(sorting))
        idx = sort_order([(dec_list(t[n]), d) for n, d in sorting], t.num_rows)
        return wrap(t.take(rpa.array(idx, type=rpa.int64())))

    def filter(self, mask, null_selection_behavior="drop", **kw):
        t = self._r
        if isinstance(mask, WExpr):
            if mask.symbolic_on(t):
                vals = mask.eval(t)
                keep = [i for i, v in enumerate(vals) if v is not None and bool(v)]
                return wrap(t.take(rpa.array(keep, type=rpa.int64())))
            return wrap(t.filter(mask.real()))
        return wrap(t.filter(_mask(mask)))

    def take(self, indices, **kw):
        return wrap(self._r.take(_indices(indices)))

    def slice(self, offset=0, length=None):
        return wrap(self._r.slice(narr.norm_index(offset), None if length is None else narr.norm_index(length)))

    def to_batches(self, max_chunksize=None, **kw):
        return [wrap(b) for b in self._r.to_batches(max_chunksize=None if max_chunksize is None else int(narr.norm_index(max_chunksize)))]

    def to_pylist(self, **kw):
        d = self.to_pydict()
        n = self._r.num_rows
        return [{k: v[i] for k, v in d.items()} for i in range(n)]

    def to_pydict(self, **kw):
        return {n: dec_list(self._r[n] if isinstance(self._r, rpa.Table) else self._r.column(n)) for n in self._r.schema.names}

    def to_pandas(self, *a, **k):
        raise NotImplementedError("to_pandas")

    def append_column(self, field, col):
        return wrap(self._r.append_column(unwrap(field), _colval(col)))

    def set_column(self, i, field, col):
        return wrap(self._r.set_column(i, unwrap(field), _colval(col)))

    def add_column(self, i, field, col):
        return wrap(self._r.add_column(i, unwrap(field), _colval(col)))

    def equals(self, o, **k):
        return self._r.equals(unwrap(o), **k)

    def group_by(self, *a, **k):
        return wrap(self._r.group_by(*a, **k))


def _mask(m):
    if isinstance(m, W):
        return m._r
    if isinstance(m, (list, tuple)):
        return rpa.array([None if x is None else bool(x) for x in m], type=rpa.bool_())
    if isinstance(m, narr.Arr):
        return rpa.array(narr.plain(narr.concretize(m)))
    return m


def _colval(c):
    if isinstance(c, W):
        return c._r
    if isinstance(c, rnp.ndarray):
        return rpa.array(enc_array(c))
    if isinstance(c, (list, tuple)):
        if c and all(isinstance(x, W) for x in c):
            return [x._r for x in c]
        return rpa.array([enc(x) for x in c])
    return c


class _TabMeta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x)


def _enc_rows(rows, schema):
    want = {}
    if schema is not None:
        want = {f.name: want_of(f.type) for f in schema}
    out = []
    for row in rows:
        d = {}
        for k, v in row.items():
            if isinstance(v, SymBase):
                v = enc(v, want.get(k))
            elif isinstance(v, narr.Arr) and v.ndim == 0:
                v = v.view(rnp.ndarray)[()]
            d[k] = v
        out.append(d)
    return out


def _enc_cols(cols, schema):
    want = {}
    if schema is not None:
        want = {f.name: want_of(f.type) for f in schema}
    out = {}
    for k, v in cols.items():
        if isinstance(v, W):
            v = v._r
        elif isinstance(v, rnp.ndarray):
            if want.get(k) in NARROW and isinstance(v, narr.Arr) and v._k:
                v = narr.cast(v, rnp.dtype(NARROW[want[k]]))
            v = enc_array(v)
        elif isinstance(v, (list, tuple)):
            if any(isinstance(x, SymBase) for x in v):
                w = want.get(k) or ("f" if any(isinstance(x, float) or (isinstance(x, Sym) and x.k == "r") for x in v) else None)
                v = [enc(x, w) for x in v]
            v = [x._r.as_py() if isinstance(x, WScalar) else x for x in v]
        out[k] = v
    return out


class WTable(_Tab):
    __slots__ = ()

    @staticmethod
    def from_batches(batches, schema=None):
        return wrap(rpa.Table.from_batches([unwrap(b) for b in batches], schema=unwrap(schema)))

    @staticmethod
    def from_pylist(rows, schema=None, metadata=None):
        schema = unwrap(schema)
        return wrap(rpa.Table.from_pylist(_enc_rows(rows, schema), schema=schema))

    @staticmethod
    def from_pydict(cols, schema=None, metadata=None):
        schema = unwrap(schema)
        return wrap(rpa.Table.from_pydict(_enc_cols(cols, schema), schema=schema))

    @staticmethod
    def from_arrays(arrays, names=None, schema=None, metadata=None):
        return wrap(rpa.Table.from_arrays([_colval(a) for a in arrays], names=names, schema=unwrap(schema)))


class WBatch(_Tab):
    __slots__ = ()

    @staticmethod
    def from_pylist(rows, schema=None, metadata=None):
        schema = unwrap(schema)
        return wrap(rpa.RecordBatch.from_pylist(_enc_rows(rows, schema), schema=schema))

    @staticmethod
    def from_pydict(cols, schema=None, metadata=None):
        schema = unwrap(schema)
        return wrap(rpa.RecordBatch.from_pydict(_enc_cols(cols, schema), schema=schema))

    @staticmethod
    def from_arrays(arrays, names=None, schema=None, metadata=None):
        return wrap(rpa.RecordBatch.from_arrays([_colval(a) for a in arrays], names=names, schema=unwrap(schema)))


class WFragment(W):
    __slots__ = ()

    def to_table(self, schema=None, columns=None, filter=None, **kw):
        if isinstance(filter, WExpr):
            full = self._r.to_table(schema=unwrap(schema))
            if filter.symbolic_on(full):
                t = WTable(full).filter(filter)
                return t.select(columns) if columns is not None else t
        return wrap(self._r.to_table(schema=unwrap(schema), columns=columns, filter=unwrap(filter), **unwrap(kw)))

    def to_batches(self, batch_size=131072, **kw):
        return (wrap(b) for b in self._r.to_batches(batch_size=int(narr.norm_index(batch_size)), **unwrap(kw)))

    def count_rows(self, filter=None, **kw):
        if filter is not None:
            return self.to_table(filter=filter)._r.num_rows
        return self._r.count_rows()


class WDataset(W):
    __slots__ = ()

    def get_fragments(self, filter=None):
        f = filter
        if isinstance(f, WExpr):
            # fragments carry no partition information here, so pruning by the
            # filter never drops one; evaluated only when free of symbols
            try:
                fr = list(self._r.get_fragments(filter=None if f.has_symbols() else f.real()))
            except Exception:
                raise
            return iter([wrap(x) for x in fr])
        return iter([wrap(x) for x in self._r.get_fragments(filter=f)])

    def to_table(self, columns=None, filter=None, **kw):
        parts = [wrap(x).to_table(schema=self._r.schema, columns=columns, filter=filter) for x in self._r.get_fragments()]
        if not parts:
            return wrap(self._r.to_table(columns=columns))
        return wrap(rpa.concat_tables([p._r for p in parts]))

    def count_rows(self, filter=None, **kw):
        if filter is not None:
            return self.to_table(filter=filter)._r.num_rows
        return self._r.count_rows()


# ------------------------------------------------------------------ expressions


class WExpr:
    """a pyarrow compute expression kept as a tree."""

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def real(self):
        op, a = self.op, self.args
        if op == "real":
            return a[0]
        if op == "field":
            return rpc.field(*a)
        if op == "scalar":
            return rpc.scalar(unwrap(a[0]))
        r = [x.real() if isinstance(x, WExpr) else unwrap(x) for x in a]
        return _REAL[op](*r)

    def fields(self):
        if self.op == "field":
            return {self.args[0]}
        if self.op == "real":
            return set()
        s = set()
        for x in self.args:
            if isinstance(x, WExpr):
                s |= x.fields()
        return s

    def has_symbols(self):
        if self.op == "scalar":
            return _contains_sym(self.args[0])
        return any((x.has_symbols() if isinstance(x, WExpr) else _contains_sym(x)) for x in self.args) if self.op not in ("field", "real") else False

    def symbolic_on(self, t):
        if self.has_symbols():
            return True
        names = set(t.schema.names)
        return any(f in names and col_has_handles(t[f] if isinstance(t, rpa.Table) else t.column(f)) for f in self.fields())

    def eval(self, t):
        n = t.num_rows
        op, a = self.op, self.args
        if op == "field":
            return dec_list(t[a[0]] if isinstance(t, rpa.Table) else t.column(a[0]))
        if op == "scalar":
            v = a[0]
            if isinstance(v, WScalar):
                v = v.as_py()
            return [v] * n
        if op == "real":
            tt = t if isinstance(t, rpa.Table) else rpa.Table.from_batches([t])
            v = rds.dataset(tt).to_table(columns={"x": a[0]})["x"].to_pylist()
            return v
        if op == "isin":
            vals = a[0].eval(t)
            opts = unwrap_vals(a[1])
            return [or_(*[_eq(v, o) for o in opts if o is not None]) if v is not None else (None in opts) for v in vals]
        cols = []
        for x in a:
            if isinstance(x, WExpr):
                cols.append(x.eval(t))
            else:
                if isinstance(x, WScalar):
                    x = x.as_py()
                cols.append([x] * n)
        return [_EV[op](*[c[i] for c in cols]) for i in range(n)]

    def _b(op, refl=False):
        def f(self, o):
            return WExpr(op, (o, self) if refl else (self, o))

        return f

    __and__ = _b("and")
    __rand__ = _b("and", True)
    __or__ = _b("or")
    __ror__ = _b("or", True)
    __eq__ = _b("eq")
    __ne__ = _b("ne")
    __lt__ = _b("lt")
    __le__ = _b("le")
    __gt__ = _b("gt")
    __ge__ = _b("ge")
    __add__ = _b("add")
    __radd__ = _b("add", True)
    __sub__ = _b("sub")
    __rsub__ = _b("sub", True)
    __mul__ = _b("mul")
    __rmul__ = _b("mul", True)
    __truediv__ = _b("div")
    del _b
    __hash__ = None

    def __invert__(self):
        return WExpr("not", (self,))

    def __bool__(self):
        raise ValueError("An Expression cannot be evaluated to python True or False.")

    def isin(self, values):
        return WExpr("isin", (self, values))

    def is_null(self, nan_is_null=False):
        return WExpr("is_null", (self,))

    def is_valid(self):
        return WExpr("is_valid", (self,))

    def cast(self, *a, **k):
        return self if self.op != "real" else WExpr("real", (self.args[0].cast(*a, **k),))

    def __repr__(self):
        return f"WExpr({self.op}, {self.args})"


def unwrap_vals(v):
    if isinstance(v, W):
        return dec_list(v._r)
    return [x.as_py() if isinstance(x, WScalar) else x for x in v]


def _contains_sym(x):
    if isinstance(x, SymBase):
        return True
    if isinstance(x, WScalar):
        return isinstance(x.as_py(), SymBase)
    if isinstance(x, (list, tuple)):
        return any(_contains_sym(y) for y in x)
    return False


def _eq(a, b):
    r = a == b
    return r


def _k(f):
    def g(a, b):
        if a is None or b is None:
            return None
        return f(a, b)

    return g


def _kand(a, b):
    if a is False or b is False:
        return False
    if a is None or b is None:
        # unknown unless the other is (symbolically) false
        o = b if a is None else a
        if isinstance(o, SymBool) and not bool(o):
            return False
        return None
    return and_(a, b)


def _kor(a, b):
    if a is True or b is True:
        return True
    if a is None or b is None:
        o = b if a is None else a
        if isinstance(o, SymBool) and bool(o):
            return True
        return None
    return or_(a, b)


_EV = {
    "and": _kand,
    "or": _kor,
    "not": lambda a: None if a is None else not_(a),
    "eq": _k(lambda a, b: a == b),
    "ne": _k(lambda a, b: a != b),
    "lt": _k(lambda a, b: a < b),
    "le": _k(lambda a, b: a <= b),
    "gt": _k(lambda a, b: a > b),
    "ge": _k(lambda a, b: a >= b),
    "add": _k(lambda a, b: a + b),
    "sub": _k(lambda a, b: a - b),
    "mul": _k(lambda a, b: a * b),
    "div": _k(lambda a, b: a / b),
    "is_null": lambda a: a is None,
    "is_valid": lambda a: a is not None,
}


def _e(x):
    return x if isinstance(x, rpc.Expression) else rpc.scalar(x)


_REAL = {
    "and": lambda a, b: _e(a) & _e(b),
    "or": lambda a, b: _e(a) | _e(b),
    "not": lambda a: ~_e(a),
    "eq": lambda a, b: _e(a) == _e(b),
    "ne": lambda a, b: _e(a) != _e(b),
    "lt": lambda a, b: _e(a) < _e(b),
    "le": lambda a, b: _e(a) <= _e(b),
    "gt": lambda a, b: _e(a) > _e(b),
    "ge": lambda a, b: _e(a) >= _e(b),
    "add": lambda a, b: _e(a) + _e(b),
    "sub": lambda a, b: _e(a) - _e(b),
    "mul": lambda a, b: _e(a) * _e(b),
    "div": lambda a, b: _e(a) / _e(b),
    "isin": lambda a, b: a.isin(b),
    "is_null": lambda a: a.is_null(),
    "is_valid": lambda a: a.is_valid(),
}


# ------------------------------------------------------------------ compute functions


def f_unique(x, **kw):
    c = unwrap(x)
    if not col_has_handles(c):
        return wrap(rpc.unique(c))
    vals = dec_list(c)
    keep = []
    for i, v in enumerate(vals):
        if not any((v is vals[j]) or (v is not None and vals[j] is not None and bool(v == vals[j])) for j in keep):
            keep.append(i)
    r = c.take(rpa.array(keep, type=rpa.int64()))
    return wrap(r.combine_chunks() if isinstance(r, rpa.ChunkedArray) else r)


def _pc_sym(name, args, kwargs):
    """value-dependent compute function on symbolic columns."""
    cols, n = [], None
    for a in args:
        if isinstance(a, _Col):
            v = dec_list(a._r)
            n = len(v)
            cols.append(v)
        elif isinstance(a, rnp.ndarray):
            v = list(narr.asarr(a).view(rnp.ndarray))
            n = len(v)
            cols.append(v)
        else:
            cols.append(a.as_py() if isinstance(a, WScalar) else a)
    if name in ("sum", "max", "min", "mean") and len(args) == 1:
        vals = [v for v in cols[0] if v is not None]
        if not vals:
            return WScalar(rpa.scalar(None))
        acc = vals[0]
        for v in vals[1:]:
            acc = acc + v if name in ("sum", "mean") else ((acc if bool(acc >= v) else v) if name == "max" else (acc if bool(acc <= v) else v))
        if name == "mean":
            acc = acc / len(vals)
        return WScalar(rpa.scalar(enc(acc)))
    m = {"equal": "eq", "not_equal": "ne", "less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge", "add": "add", "subtract": "sub", "multiply": "mul", "divide": "div"}.get(name)
    if m is not None and n is not None:
        cs = [c if isinstance(c, list) else [c] * n for c in cols]
        out = [_EV[m](*[c[i] for c in cs]) for i in range(n)]
        if m in ("add", "sub", "mul", "div"):
            return wrap(rpa.array([enc(v, "f") for v in out], type=rpa.float64()))
        return wrap(rpa.array([None if v is None else bool(v) for v in out], type=rpa.bool_()))
    if name in ("sort_indices", "array_sort_indices"):
        order = kwargs.get("order", "ascending")
        if isinstance(args[0], _Tab):
            keys = kwargs.get("sort_keys") or args[1]
            t = args[0]._r
            idx = sort_order([(dec_list(t[k]), d) for k, d in keys], t.num_rows)
        else:
            idx = sort_order([(cols[0], order)], n)
        return wrap(rpa.array(idx, type=rpa.uint64()))
    if name in ("take", "filter", "if_else", "is_null", "is_valid", "fill_null", "coalesce", "drop_null"):
        return wrap(getattr(rpc, name)(*unwrap(list(args)), **unwrap(kwargs)))
    raise NotImplementedError(f"pyarrow.compute.{name} on symbolic data")


def _pc_wrap(name, f):
    @functools.wraps(f)
    def g(*args, **kw):
        if any(isinstance(a, WExpr) for a in args):
            op = {"and_": "and", "or_": "or", "and_kleene": "and", "or_kleene": "or", "invert": "not", "equal": "eq", "not_equal": "ne", "less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge", "add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "is_null": "is_null", "is_valid": "is_valid"}.get(name)
            if op is not None:
                return WExpr(op, tuple(args))
            return WExpr("real", (f(*[unwrap(a) for a in args], **unwrap(kw)),))
        sym = any((isinstance(a, _Col) and col_has_handles(a._r)) or narr.has_sym(a) or _contains_sym(a) or (isinstance(a, _Tab) and any(col_has_handles(c) for c in a._r.columns)) for a in args)
        if sym:
            return _pc_sym(name, args, kw)
        return wrap(f(*unwrap(list(args)), **unwrap(kw)))

    return g


# ------------------------------------------------------------------ modules


def p_array(obj, type=None, mask=None, size=None, from_pandas=None, **kw):
    t = unwrap(type)
    if isinstance(t, str):
        t = rpa.type_for_alias(t)
    want = want_of(t) if t is not None else None
    if isinstance(obj, W):
        obj = obj._r
    elif isinstance(obj, rnp.ndarray):
        if isinstance(obj, narr.Arr) and obj._k and want and want != obj._k:
            obj = narr.cast(obj, rnp.dtype(NARROW[want])) if want in NARROW else narr.to_kind(obj.copy(), want)
        obj = enc_array(obj)
    elif isinstance(obj, (list, tuple)) or hasattr(obj, "__iter__"):
        obj = list(obj)
        w = want or ("f" if any(isinstance(x, float) or (isinstance(x, Sym) and x.k == "r") for x in obj) else None)
        obj = [enc(x, w) if isinstance(x, SymBase) else (x._r.as_py() if isinstance(x, WScalar) else x) for x in obj]
    return wrap(rpa.array(obj, type=t, mask=None if mask is None else rnp.asarray(unwrap(mask))))


class PWriter:
    """pyarrow.parquet.ParquetWriter on handles."""

    def __init__(self, where, schema, **kw):
        self._w = rpq.ParquetWriter(where, unwrap(schema), **{k: unwrap(v) for k, v in kw.items()})

    def write_batch(self, b, *a, **k):
        return self._w.write_batch(unwrap(b), *a, **k)

    def write_table(self, t, *a, **k):
        return self._w.write_table(unwrap(t), *a, **k)

    def write(self, t, *a, **k):
        return self._w.write(unwrap(t), *a, **k)

    def close(self):
        return self._w.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        return getattr(self._w, n)


class PFile:
    def __init__(self, *a, **k):
        self._f = rpq.ParquetFile(*a, **k)

    def read(self, *a, **k):
        return wrap(self._f.read(*a, **k))

    def iter_batches(self, *a, **k):
        for b in self._f.iter_batches(*narr.norm_index(a), **{x: narr.norm_index(y) for x, y in k.items()}):
            yield wrap(b)

    def close(self, *a, **k):
        return self._f.close(*a, **k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        v = getattr(self._f, n)
        if callable(v):
            return lambda *a, **k: wrap(v(*unwrap(a), **unwrap(k)))
        return wrap(v)


def _gen(f):
    @functools.wraps(f)
    def g(*a, **k):
        return wrap(f(*unwrap(a), **unwrap(k)))

    return g


class SchemaFacade(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (WSchema, rpa.Schema))


def make_modules():
    pa = _types.ModuleType("pyarrow")
    for n in dir(rpa):
        if n.startswith("__"):
            continue
        try:
            v = getattr(rpa, n)
        except Exception:
            continue
        if isinstance(v, (type, _types.ModuleType)):
            setattr(pa, n, v)
        elif callable(v):
            setattr(pa, n, _gen(v))
        else:
            setattr(pa, n, v)
    for n in ("__version__", "__file__", "__path__", "__spec__"):
        setattr(pa, n, getattr(rpa, n))
    pa.Table = WTable
    pa.RecordBatch = WBatch
    pa.Array = WArray
    pa.ChunkedArray = WChunked
    pa.Schema = WSchema
    pa.Scalar = WScalar
    pa.array = p_array
    pa.table = lambda data, names=None, schema=None, **k: WTable.from_pydict(data, schema=schema) if isinstance(data, dict) else WTable.from_arrays(data, names=names, schema=schema)
    pa.record_batch = lambda data, names=None, schema=None, **k: WBatch.from_pydict(data, schema=schema) if isinstance(data, dict) else WBatch.from_arrays(data, names=names, schema=schema)
    pa.chunked_array = lambda arrays, type=None: wrap(rpa.chunked_array([_colval(a) for a in arrays], type=unwrap(type)))
    pa.scalar = lambda v, type=None, **k: WScalar(rpa.scalar(enc(v), type=unwrap(type)))
    ipc = _types.ModuleType("pyarrow.ipc")
    for n in dir(rpa.ipc):
        if not n.startswith("__"):
            v = getattr(rpa.ipc, n)
            setattr(ipc, n, _gen(v) if callable(v) and not isinstance(v, type) else v)
    pa.ipc = ipc

    pc = _types.ModuleType("pyarrow.compute")
    for n in dir(rpc):
        if n.startswith("__"):
            continue
        v = getattr(rpc, n)
        if isinstance(v, (type, _types.ModuleType)):
            setattr(pc, n, v)
        elif callable(v):
            setattr(pc, n, _pc_wrap(n, v))
        else:
            setattr(pc, n, v)
    pc.Expression = WExpr
    pc.field = lambda *a: WExpr("field", a)
    pc.scalar = lambda v: WExpr("scalar", (v,))
    pc.unique = f_unique
    pa.compute = pc

    pq = _types.ModuleType("pyarrow.parquet")
    for n in dir(rpq):
        if n.startswith("__"):
            continue
        v = getattr(rpq, n)
        setattr(pq, n, v if isinstance(v, (type, _types.ModuleType)) or not callable(v) else _gen(v))
    pq.ParquetWriter = PWriter
    pq.ParquetFile = PFile
    pa.parquet = pq

    ds = _types.ModuleType("pyarrow.dataset")
    for n in dir(rds):
        if n.startswith("__"):
            continue
        v = getattr(rds, n)
        setattr(ds, n, v if isinstance(v, (type, _types.ModuleType)) or not callable(v) else _gen(v))
    ds.Fragment = WFragment
    ds.Dataset = WDataset
    ds.field = pc.field
    ds.scalar = pc.scalar
    pa.dataset = ds
    for m, r in ((ipc, rpa.ipc), (pc, rpc), (pq, rpq), (ds, rds)):
        m.__file__ = r.__file__
        m.__spec__ = r.__spec__
    return {
        "pyarrow": pa,
        "pyarrow.compute": pc,
        "pyarrow.parquet": pq,
        "pyarrow.dataset": ds,
        "pyarrow.ipc": ipc,
    }
