"""Shared pieces of the harnesses."""
from symx.logic import and_, approx, iff, implies, is_sym, isum, ite, not_, or_, smax, ssum

# neither alphabetical nor distinct up to case
ABC = ["b", "a", "B", "d"]


def uid(k):
    """identifiers whose alphabetical order is not the order of insertion."""
    return f"{chr(122 - k)}{k}"


def eq(a, b):
    """a == b as a (possibly symbolic) truth value."""
    return and_(a <= b, a >= b) if (is_sym(a) or is_sym(b)) else bool(a == b)


def rdiv(n, d):
    """n / d with 0/0 = 0 for possibly symbolic integers (as reals)."""
    if is_sym(n) or is_sym(d):
        raise TypeError("symbolic quotient")
    return 0.0 if d == 0 else n / d


def is_ratio(v, n, d, tol=1e-6):
    """v == n/d (0 when d == 0), n and d possibly symbolic integers."""
    return ite(d > 0, approx(v * d, n * 1.0, tol * 8), approx(v, 0.0))


def score(ctx, name):
    """a confidence in [0, 1]; exactly zero or clear of the 1e-8 zero band."""
    s = ctx.real(name, 0.0, 1.0, dec=True)
    ctx.assume(or_(s <= 0.0, s >= 1e-6))
    return s


def by_param(metrics, **want):
    """metrics whose (concrete) parameters match."""
    out = []
    for m in metrics:
        p = m.parameters
        if all(p.get(k) == v for k, v in want.items()):
            out.append(m)
    return out


def one(ctx, metrics, what):
    ctx.check(len(metrics) == 1, f"expected exactly one {what}, got {len(metrics)}")
    return metrics[0]
