"""Logic helpers that work on plain and on symbolic values."""
import os

if os.environ.get("SYMX_MODE") == "concrete":

    class SymBase:  # nothing is symbolic in a concrete replay
        pass

    def and_(*xs):
        return all(bool(x) for x in xs)

    def or_(*xs):
        return any(bool(x) for x in xs)

    def not_(x):
        return not x

    def implies(a, b):
        return (not a) or bool(b)

    def ite(c, a, b):
        return a if c else b

    def isum(xs):
        return sum(1 for x in xs if x)

    def is_sym(x):
        return False

else:
    from .core import SymBase, and_, implies, is_sym, isum, ite, not_, or_  # noqa: F401


def iff(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


TOL = 1e-6


def approx(a, b, tol=TOL):
    """|a - b| <= tol"""
    d = a - b
    return and_(d <= tol, d >= -tol)


def smax(xs):
    xs = list(xs)
    m = xs[0]
    for x in xs[1:]:
        m = ite(x > m, x, m)
    return m


def ssum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t
