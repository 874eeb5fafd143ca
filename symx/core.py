"""Symbolic values and path exploration over z3.

A run of a harness is one path.  Symbolic values (``Sym``: reals/ints,
``SymBool``: booleans) wrap z3 terms.  Wherever the code under test needs a
concrete boolean (an ``if``, a sort comparison, a mask used as an index) the
engine asks z3 which outcomes are feasible under the path condition, follows
one and queues the other; every harness is re-executed from its start with the
recorded decision prefix.  Assertions are discharged by z3 over *all* values
that satisfy the path condition.
"""
from __future__ import annotations

import math
import time
from fractions import Fraction

import z3

_ENGINE = None


def engine():
    if _ENGINE is None:
        raise RuntimeError("no symbolic engine is active")
    return _ENGINE


def active():
    return _ENGINE is not None


# ------------------------------------------------------------------ terms


def _is_num(x):
    import numbers

    return isinstance(x, numbers.Number) and not isinstance(x, complex)


_CONST_CACHE: dict = {}


def _real_const(x):
    key = ("r", x)
    t = _CONST_CACHE.get(key)
    if t is None:
        f = Fraction(x) if not isinstance(x, Fraction) else x
        t = z3.RatVal(f.numerator, f.denominator)
        if len(_CONST_CACHE) > 200000:
            _CONST_CACHE.clear()
        _CONST_CACHE[key] = t
    return t


def _int_const(x):
    key = ("i", x)
    t = _CONST_CACHE.get(key)
    if t is None:
        t = z3.IntVal(x)
        _CONST_CACHE[key] = t
    return t


class Inf(Exception):
    pass


def lift(x):
    """Python/NumPy number or Sym -> (z3 term, kind) where kind is 'r'|'i'."""
    if isinstance(x, Sym):
        return x.t, x.k
    if isinstance(x, SymBool):
        return z3.If(x.t, _int_const(1), _int_const(0)), "i"
    if isinstance(x, bool):
        return _int_const(int(x)), "i"
    if isinstance(x, int):
        return _int_const(x), "i"
    if isinstance(x, Fraction):
        return _real_const(x), "r"
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Inf(x)
        return _real_const(float(x)), "r"
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        k = x.dtype.kind
        if k == "b":
            return _int_const(int(bool(x))), "i"
        if k in "iu":
            return _int_const(int(x)), "i"
        if k == "f":
            v = float(x)
            if math.isinf(v) or math.isnan(v):
                raise Inf(v)
            return _real_const(v), "r"
        if k == "O":
            return lift(x.item())
    raise TypeError(f"cannot lift {type(x)!r}")


def _liftable(x):
    if isinstance(x, (Sym, SymBool, bool, int, float, Fraction)):
        return True
    return (
        hasattr(x, "dtype")
        and getattr(x, "ndim", 1) == 0
        and getattr(x.dtype, "kind", "V") in "biufO"
        and not hasattr(x, "__next__")
    )


def _coerce(a, b):
    ta, ka = lift(a)
    tb, kb = lift(b)
    if ka == kb:
        return ta, tb, ka
    if ka == "i":
        ta = _to_real(ta)
    else:
        tb = _to_real(tb)
    return ta, tb, "r"


def _to_real(t):
    if z3.is_int_value(t):
        return _real_const(t.as_long())
    return z3.ToReal(t)


def mk(t, k):
    """Wrap a z3 arithmetic term, folding numerals to Python numbers."""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        v = float(f)
        if Fraction(v) == f:
            return v
        return Sym(t, k)
    return Sym(t, k)


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def btrue(x):
    """any boolean-ish -> z3 BoolRef"""
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, Sym):
        return x.t != 0
    return z3.BoolVal(bool(x))


def _inf_cmp(op, a, b):
    """comparison with an infinite/NaN concrete operand."""
    fa = a if not isinstance(a, (Sym, SymBool)) else 0.0
    fb = b if not isinstance(b, (Sym, SymBool)) else 0.0
    fa, fb = float(fa), float(fb)
    return {
        "lt": fa < fb,
        "le": fa <= fb,
        "gt": fa > fb,
        "ge": fa >= fb,
        "eq": fa == fb,
        "ne": fa != fb,
    }[op]


def cmp(op, a, b):
    try:
        ta, tb, _ = _coerce(a, b)
    except Inf:
        return _inf_cmp(op, a, b)
    if op == "lt":
        t = ta < tb
    elif op == "le":
        t = ta <= tb
    elif op == "gt":
        t = ta > tb
    elif op == "ge":
        t = ta >= tb
    elif op == "eq":
        t = ta == tb
    else:
        t = ta != tb
    return mkbool(z3.simplify(t))


def arith(op, a, b):
    if op in ("add", "sub"):
        if not isinstance(b, (Sym, SymBool)) and _is_num(b) and b == 0:
            if isinstance(a, Sym):
                if a.k == "i" and isinstance(b, float):
                    return Sym(_to_real(a.t), "r")
                return a
        if op == "add" and not isinstance(a, (Sym, SymBool)) and _is_num(a) and a == 0:
            if isinstance(b, Sym) and not (b.k == "i" and isinstance(a, float)):
                return b
    if op == "mul":
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, (Sym, SymBool)) and _is_num(x):
                if x == 1 and isinstance(y, Sym) and (y.k == "r" or not isinstance(x, float)):
                    return y
    try:
        ta, tb, k = _coerce(a, b)
    except Inf:
        fa = a if not isinstance(a, (Sym, SymBool)) else 1.0
        fb = b if not isinstance(b, (Sym, SymBool)) else 1.0
        if op == "add":
            return float(fa) + float(fb)
        if op == "sub":
            return float(fa) - float(fb)
        raise ArithmeticError("inf/nan arithmetic with symbolic value")
    if op == "add":
        t = ta + tb
    elif op == "sub":
        t = ta - tb
    elif op == "mul":
        t = ta * tb
    elif op == "div":
        if k == "i":
            ta, tb = _to_real(ta), _to_real(tb)
        k = "r"
        if not z3.is_rational_value(tb):
            # symbolic denominator: outcome of a division by zero is decided
            # on the branch, so the z3 term below never divides by zero
            if engine().branch(tb == 0):
                raise ZeroDivisionError("division by zero")
        elif tb.numerator_as_long() == 0:
            raise ZeroDivisionError("division by zero")
        t = ta / tb
    else:
        raise NotImplementedError(op)
    return mk(z3.simplify(t), k)


def ite(c, a, b):
    """lazy conditional over scalars."""
    if isinstance(c, Sym):
        c = c != 0
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.simplify(z3.If(c.t, btrue(a), btrue(b))))
    ta, tb, k = _coerce(a, b)
    return mk(z3.simplify(z3.If(c.t, ta, tb)), k)


def and_(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif isinstance(x, Sym):
            ts.append(x.t != 0)
        elif not x:
            return False
    if not ts:
        return True
    if len(ts) == 1:
        return mkbool(ts[0])
    return mkbool(z3.And(*ts))


def or_(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif isinstance(x, Sym):
            ts.append(x.t != 0)
        elif x:
            return True
    if not ts:
        return False
    if len(ts) == 1:
        return mkbool(ts[0])
    return mkbool(z3.Or(*ts))


def not_(x):
    if isinstance(x, SymBool):
        return mkbool(z3.simplify(z3.Not(x.t)))
    if isinstance(x, Sym):
        return x == 0
    return not x


def implies(a, b):
    return or_(not_(a), b)


def isum(bools):
    """number of true conditions (symbolic int)."""
    n, ts = 0, []
    for b in bools:
        if isinstance(b, SymBool):
            ts.append(z3.If(b.t, _int_const(1), _int_const(0)))
        elif b:
            n += 1
    if not ts:
        return n
    if n:
        ts.append(_int_const(n))
    return mk(ts[0] if len(ts) == 1 else z3.Sum(ts), "i")


class SymBase:
    __slots__ = ()
    __array_priority__ = 1e6

    def __hash__(self):
        return 0

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import narr

        return narr.dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import narr

        return narr.dispatch_function(func, args, kwargs)

    # numpy scalar look-alikes
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("symbolic values cannot be pickled")


def _binop(op, refl=False):
    def f(self, o):
        if not _liftable(o):
            if hasattr(o, "__array_ufunc__"):
                return _np_binop(op, self, o, refl)
            return NotImplemented
        return arith(op, o, self) if refl else arith(op, self, o)

    return f


def _cmpop(op):
    def f(self, o):
        if not _liftable(o):
            if hasattr(o, "__array_ufunc__"):
                return _np_binop(op, self, o, False)
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        return cmp(op, self, o)

    return f


def _np_binop(op, a, b, refl):
    from . import narr

    return narr.binop(op, a, b, refl)


class Sym(SymBase):
    """symbolic number; k is 'r' (real) or 'i' (integer)."""

    __slots__ = ("t", "k")

    def __init__(self, t, k):
        self.t = t
        self.k = k

    def __repr__(self):
        s = str(self.t)
        return f"Sym<{s if len(s) < 80 else s[:77] + '...'}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    __add__ = _binop("add")
    __radd__ = _binop("add", True)
    __sub__ = _binop("sub")
    __rsub__ = _binop("sub", True)
    __mul__ = _binop("mul")
    __rmul__ = _binop("mul", True)
    __truediv__ = _binop("div")
    __rtruediv__ = _binop("div", True)
    __lt__ = _cmpop("lt")
    __le__ = _cmpop("le")
    __gt__ = _cmpop("gt")
    __ge__ = _cmpop("ge")
    __eq__ = _cmpop("eq")
    __ne__ = _cmpop("ne")
    __hash__ = SymBase.__hash__

    def __neg__(self):
        return arith("sub", 0, self) if self.k == "i" else arith("sub", 0.0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        if engine().branch(btrue(self >= 0)):
            return self
        return -self

    def __pow__(self, n):
        if hasattr(n, "item"):
            n = n.item()
        if isinstance(n, (int, float)) and float(n).is_integer() and n >= 0:
            r = 1 if self.k == "i" else 1.0
            for _ in range(int(n)):
                r = arith("mul", r, self)
            return r
        if n == 0.5:
            return NotImplemented
        return NotImplemented

    def __floordiv__(self, o):
        return sym_floor(arith("div", self, o), keep=(self.k if not isinstance(o, float) else "r"))

    def __rfloordiv__(self, o):
        return sym_floor(arith("div", o, self), keep=self.k)

    def __mod__(self, o):
        return self - (self // o) * o

    def __bool__(self):
        return engine().branch(self.t != 0)

    def __index__(self):
        if self.k != "i":
            raise TypeError("symbolic real cannot be used as an index")
        return engine().concretize(self)

    def __int__(self):
        if self.k == "i":
            return engine().concretize(self)
        return engine().concretize(sym_trunc(self))

    def __float__(self):
        return float(engine().concretize(self))

    def __floor__(self):
        return sym_floor(self, keep="i")

    def __ceil__(self):
        return -sym_floor(-self, keep="i")

    def __trunc__(self):
        return sym_trunc(self)

    def __round__(self, n=None):
        return sym_round(self, n or 0, keep="i" if n is None else self.k)

    def is_integer(self):
        return self.k == "i"

    @property
    def dtype(self):
        import numpy

        return numpy.dtype("float64" if self.k == "r" else "int64")

    def astype(self, dt, **kw):
        from . import narr

        return narr.cast_scalar(self, dt)

    def sum(self, *a, **k):
        return self

    def reshape(self, *shape):
        from . import narr

        return narr.asarr(self).reshape(*shape)


def sym_floor(x, keep="i"):
    if not isinstance(x, Sym):
        v = math.floor(x)
        return v if keep == "i" else float(v)
    if x.k == "i":
        return x
    t = z3.ToInt(x.t)
    return mk(t, "i") if keep == "i" else mk(z3.ToReal(t), "r")


def sym_round(x, n=0, keep="r"):
    """round half to even at n decimals, in exact arithmetic."""
    if x.k == "i" and n >= 0:
        return x
    v = x * float(10**n) if n else x * 1.0
    f = sym_floor(v, keep="r")
    d = v - f
    half = sym_floor(f * 0.5, keep="r") * 2.0  # f when f is even
    up = or_(d > 0.5, and_(d == 0.5, not_(half == f)))
    r = ite(up, f + 1.0, f)
    r = r / float(10**n) if n else r
    return sym_floor(r, keep="i") if keep == "i" else r


def sym_trunc(x):
    if not isinstance(x, Sym):
        return int(x)
    if x.k == "i":
        return x
    if engine().branch(btrue(x >= 0)):
        return sym_floor(x)
    return -sym_floor(-x)


class SymBool(SymBase):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        s = str(self.t)
        return f"SymBool<{s if len(s) < 80 else s[:77] + '...'}>"

    def __bool__(self):
        return engine().branch(self.t)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ("bool", "bool_"):
            return and_(self, o if isinstance(o, SymBool) else bool(o))
        if hasattr(o, "__array_ufunc__"):
            return _np_binop("and", self, o, False)
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ("bool", "bool_"):
            return or_(self, o if isinstance(o, SymBool) else bool(o))
        if hasattr(o, "__array_ufunc__"):
            return _np_binop("or", self, o, False)
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ("bool", "bool_"):
            return mkbool(z3.simplify(z3.Xor(self.t, btrue(o))))
        if hasattr(o, "__array_ufunc__"):
            return _np_binop("xor", self, o, False)
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return not_(self)

    def _asint(self):
        return Sym(z3.If(self.t, _int_const(1), _int_const(0)), "i")

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __neg__(self):
        return -self._asint()

    def __add__(self, o):
        return self._asint() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._asint() - o

    def __rsub__(self, o):
        return o - self._asint()

    def __mul__(self, o):
        if isinstance(o, (Sym, int, float)) and not isinstance(o, bool):
            return ite(self, o, 0 if not isinstance(o, float) else 0.0)
        return self._asint() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._asint() / o

    def _c(op):
        def f(self, o):
            if isinstance(o, bool) or type(o).__name__ == "bool_":
                o = bool(o)
                if op == "eq":
                    return self if o else not_(self)
                if op == "ne":
                    return not_(self) if o else self
            if isinstance(o, SymBool):
                if op == "eq":
                    return mkbool(z3.simplify(self.t == o.t))
                if op == "ne":
                    return mkbool(z3.simplify(self.t != o.t))
            if not _liftable(o):
                if hasattr(o, "__array_ufunc__"):
                    return _np_binop(op, self, o, False)
                if op in ("eq", "ne"):
                    return op == "ne"
                return NotImplemented
            return cmp(op, self, o)

        return f

    __eq__ = _c("eq")
    __ne__ = _c("ne")
    __lt__ = _c("lt")
    __le__ = _c("le")
    __gt__ = _c("gt")
    __ge__ = _c("ge")
    __hash__ = SymBase.__hash__
    del _c

    @property
    def dtype(self):
        import numpy

        return numpy.dtype("bool")

    def any(self, *a, **k):
        return self

    all = any

    def sum(self, *a, **k):
        return self._asint()

    def astype(self, dt, **kw):
        from . import narr

        return narr.cast_scalar(self, dt)


def rounded(s, name):
    """a symbolic real stored in a narrow float type: some value within half
    a unit in the last place, the same for equal inputs and monotone."""
    if not (isinstance(s, Sym) and s.k == "r"):
        return s
    if z3.is_app(s.t) and s.t.decl().kind() == z3.Z3_OP_TO_REAL:
        a, b = int_range(s.t.arg(0))
        top = 2 ** (24 if name == "float32" else 11)
        if a is not None and b is not None and -top <= a and b <= top:
            return s  # small integers are exact
    e = engine()
    key = ("rounded", s.t.get_id(), name)
    y = e.memo.get(key)
    if y is not None:
        return y
    for x2, y2, n2 in e.rounded:
        if n2 == name and y2.eq(s.t):
            return s  # already rounded
    y = z3.Real(f"__rnd{len(e.rounded)}")
    x = s.t
    u = z3.Q(1, 2 ** (24 if name == "float32" else 11))
    d = z3.If(x >= 0, x, -x) * u
    e.assume(SymBool(z3.And(y - x <= d, x - y <= d)))
    for x2, y2, n2 in e.rounded[-6:]:
        if n2 == name:
            e.assume(SymBool(z3.And(z3.Implies(x <= x2, y <= y2), z3.Implies(x >= x2, y >= y2))))
    e.rounded.append((x, y, name))
    e.keep.append(s)
    y = Sym(y, "r")
    e.memo[key] = y
    return y


def int_range(t, depth=0):
    """cheap bounds (lo, hi) of an integer term; None where unknown."""
    if z3.is_int_value(t):
        v = t.as_long()
        return v, v
    if depth > 40 or not z3.is_app(t):
        return None, None
    k, ch = t.decl().kind(), t.children()
    if k == z3.Z3_OP_ITE:
        (a, b), (c, d) = int_range(ch[1], depth + 1), int_range(ch[2], depth + 1)
        return (None if a is None or c is None else min(a, c)), (None if b is None or d is None else max(b, d))
    if k == z3.Z3_OP_ADD:
        rs = [int_range(c, depth + 1) for c in ch]
        return tuple(None if any(r[i] is None for r in rs) else sum(r[i] for r in rs) for i in (0, 1))
    if k == z3.Z3_OP_SUB and len(ch) == 2:
        (a, b), (c, d) = int_range(ch[0], depth + 1), int_range(ch[1], depth + 1)
        return (None if a is None or d is None else a - d), (None if b is None or c is None else b - c)
    if k == z3.Z3_OP_UMINUS:
        a, b = int_range(ch[0], depth + 1)
        return (None if b is None else -b), (None if a is None else -a)
    if k == z3.Z3_OP_MUL and len(ch) == 2:
        rs = [int_range(c, depth + 1) for c in ch]
        if all(x is not None for r in rs for x in r):
            ps = [x * y for x in rs[0] for y in rs[1]]
            return min(ps), max(ps)
    if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
        return 0, ch[1].as_long() - 1
    return None, None


def wrapped(s, lo, bits):
    """a symbolic integer stored in an integer type of that many bits."""
    if not (isinstance(s, Sym) and s.k == "i"):
        return s
    a, b = int_range(s.t)
    if a is not None and b is not None and lo <= a and b < lo + 2**bits:
        return s
    m = _int_const(2**bits)
    return mk((s.t - _int_const(lo)) % m + _int_const(lo) if lo else s.t % m, "i")


def is_sym(x):
    return isinstance(x, SymBase)


# ------------------------------------------------------------------ engine


class PathInfeasible(BaseException):
    """the current path contradicts an assumption."""


class PathBudget(BaseException):
    """a single path took more decisions than allowed."""


class SolverUnknown(BaseException):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branches = 0
        self.forks = 0
        self.asserts = 0
        self.asserts_folded = 0
        self.concretized = 0

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    """state of one path plus the queue discipline."""

    def __init__(self, timeout_ms=20000, max_decisions=20000, seed=0):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", timeout_ms)
        try:
            self.solver.set("random_seed", seed)
        except z3.Z3Exception:
            pass
        self.max_decisions = max_decisions
        self.stats = Stats()
        self.prefix = ()
        self._depth = 0

    # -- path lifecycle
    def begin(self, prefix):
        global _ENGINE
        _ENGINE = self
        self.solver.push()
        self._depth += 1
        self.prefix = prefix
        self.decisions = []
        self.pending = []  # alternative prefixes discovered on this path
        self.memo = {}
        self.model = None
        self.vars = {}
        self.decimals = {}
        self.rounded = []  # (exact term, rounded term, numpy type name)
        self.choices = {}
        self.handles = []
        self.handle_ids = {}
        self.unsupported = []
        self.keep = []
        self.pc = []

    def end(self):
        global _ENGINE
        self.solver.pop()
        self._depth -= 1
        _ENGINE = None

    # -- solver access
    def _check(self, *extra):
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t0
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
            raise SolverUnknown(self.solver.reason_unknown())
        return r == z3.sat

    def _ensure_model(self):
        if self.model is None:
            if not self._check():
                raise PathInfeasible()
            self.model = self.solver.model()
        return self.model

    def add(self, t):
        self.solver.add(t)
        self.pc.append(t)

    # -- symbolic inputs
    def real(self, name, lo=None, hi=None, dec=False):
        v = z3.Real(name)
        self.vars[name] = v
        if dec:
            self.decimals[name] = (lo, hi)
        s = Sym(v, "r")
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        return s

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.vars[name] = v
        s = Sym(v, "i")
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        return s

    def bool(self, name):
        v = z3.Bool(name)
        self.vars[name] = v
        return SymBool(v)

    def str(self, name):
        from .sstr import SymStr

        v = z3.String(name)
        self.vars[name] = v
        return SymStr(v)

    def text(self, name, n):
        """n characters: printable ASCII, tab or newline."""
        from .sstr import SymText

        cs = []
        for i in range(n):
            c = self.int(f"{name}.{i}", 9, 126)
            self.assume(or_(c <= 10, c >= 32))
            cs.append(c)
        return SymText(cs)

    def assume(self, c):
        if isinstance(c, SymBase):
            t = btrue(c)
            self.add(t)
            if self.model is not None and not z3.is_true(
                self.model.eval(t, model_completion=True)
            ):
                self.model = None
        elif not c:
            raise PathInfeasible()

    # -- decisions
    def branch(self, t):
        """decide boolean term t on this path; fork when both are feasible."""
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if z3.is_not(t):
            return not self.branch(t.arg(0))
        key = t.get_id()
        hit = self.memo.get(key)
        if hit is not None:
            return hit
        self.stats.branches += 1
        i = len(self.decisions)
        if i >= self.max_decisions:
            raise PathBudget()
        if i < len(self.prefix):
            val = self.prefix[i]
            self.model = None
        else:
            m = self._ensure_model()
            val = z3.is_true(m.eval(t, model_completion=True))
            other = z3.Not(t) if val else t
            if self._check(other):
                self.stats.forks += 1
                self.pending.append(tuple(self.decisions) + (not val,))
        self.decisions.append(val)
        nt = t if val else z3.Not(t)
        self.add(nt)
        self.keep.append(t)
        self.memo[key] = val
        return val

    def choose(self, name, options):
        """nondeterministic pick from a finite list; every option is explored."""
        options = list(options)
        if len(options) == 1:
            self.choices[name] = options[0]
            return options[0]
        i = len(self.decisions)
        if i < len(self.prefix):
            idx = self.prefix[i]
        else:
            idx = 0
            for j in range(1, len(options)):
                self.pending.append(tuple(self.decisions) + (j,))
        self.decisions.append(idx)
        self.choices[name] = options[idx]
        return options[idx]

    def concretize(self, s):
        """enumerate, by forking, all feasible values of a symbolic number."""
        if isinstance(s, SymBool):
            return bool(s)
        if not isinstance(s, Sym):
            return s
        if s.k == "r":
            # a real is pinned to one model value: recorded, because the rest
            # of the path then only speaks about that value
            return self.pin(s)
        for _ in range(4096):
            v = self._pick(s)
            if self.branch(s.t == v):
                return v
        raise PathBudget()

    def _pick(self, s):
        """deterministic candidate value: recorded in the decision list."""
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.decisions.append(v)
            return v
        m = self._ensure_model()
        v = m.eval(s.t, model_completion=True)
        v = v.as_long()
        self.decisions.append(v)
        return v

    def pin(self, s):
        self.stats.concretized += 1
        self.unsupported.append("pin")
        i = len(self.decisions)
        if i < len(self.prefix):
            f = self.prefix[i]
            self.model = None
        else:
            m = self._ensure_model()
            v = m.eval(s.t, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        self.decisions.append(f)
        self.add(s.t == _real_const(f))
        self.model = None
        return float(f)

    # -- assertions
    def valid(self, c):
        """None when c holds for all values on this path, else a model."""
        self.stats.asserts += 1
        if not isinstance(c, SymBase):
            if c:
                self.stats.asserts_folded += 1
                return None
            return self._ensure_model()
        t = z3.simplify(btrue(c))
        if z3.is_true(t):
            self.stats.asserts_folded += 1
            return None
        if self._check(z3.Not(t)):
            return self.solver.model()
        return None

    # -- handles (symbolic values stored in real pyarrow columns)
    def handle(self, s):
        key = (s.t.get_id(), s.k if isinstance(s, Sym) else "b")
        h = self.handle_ids.get(key)
        if h is None:
            h = len(self.handles)
            self.handles.append(s)
            self.handle_ids[key] = h
        return h
