"""Stub of shapely for symbolic runs.

A polygon is opaque.  ``area(intersection(a, b))`` and ``area(union(a, b))``
are whatever the harness registered for that pair (symbolic), with the stub's
own area as fallback; this stands for "any pair of polygons".
"""
from __future__ import annotations

import types as _types

import numpy as rnp

from . import narr


class Polygon:
    """stand-in for shapely.geometry.Polygon."""

    def __new__(cls, shell=None, *a, **k):
        if isinstance(shell, Ring):
            holes = a[0] if a else k.get("holes")
            if holes:
                for h in holes:
                    shell = Ring(shell.grid, shell.cells - h.cells)
            return Cells(shell.grid, shell.cells)
        return super().__new__(cls)

    def __init__(self, shell=None, holes=None, name=None, area=1.0, pairs=None):
        self.name = name if name is not None else id(self)
        self._area = area
        self.pairs = pairs if pairs is not None else {}
        self.is_empty = False
        self.is_valid = True
        self.geom_type = "Polygon"

    @property
    def area(self):
        return self._area

    def intersection(self, o):
        return Region("i", self, o)

    def union(self, o):
        return Region("u", self, o)

    def intersects(self, o):
        return Region("i", self, o).area > 0

    __and__ = intersection
    __or__ = union


class Region:
    def __init__(self, kind, a, b):
        self.kind, self.a, self.b = kind, a, b
        self.is_empty = False

    @property
    def area(self):
        a, b = self.a, self.b
        if (b.name, a.name) in a.pairs and (a.name, b.name) not in a.pairs:
            a, b = b, a
        i, u = a.pairs[(a.name, b.name)]
        return i if self.kind == "i" else u


class Ring:
    """boundary of a part of a grid without holes; `coords` stands for itself."""

    def __init__(self, grid, cells):
        self.grid, self.cells = grid, frozenset(cells)

    @property
    def coords(self):
        return self

    def __iter__(self):
        raise NotImplementedError("coordinates of a ring")


class Grid:
    """columns of (symbolic) width by rows of concrete height."""

    def __init__(self, widths, heights):
        self.w, self.h = list(widths), list(heights)
        self.x, self.y = [0.0], [0.0]
        for a in self.w:
            self.x.append(self.x[-1] + a)
        for a in self.h:
            self.y.append(self.y[-1] + a)

    def find(self, side, v):
        for i, c in enumerate(side):
            if c is v:
                return i
        raise NotImplementedError("a box off the grid")


class Cells(Polygon):
    """a union of cells of a grid: polygons with exact symbolic areas, possibly
    concave or with holes."""

    def __new__(cls, grid, cells):
        return object.__new__(cls)

    def __init__(self, grid, cells):
        self.grid, self.cells = grid, frozenset(cells)
        self.name, self.pairs = id(self), {}
        self.is_empty = not self.cells
        self.is_valid, self.geom_type = True, "Polygon"

    def _of(self, cells):
        return Cells(self.grid, cells)

    @property
    def area(self):
        t = 0.0
        for i, j in sorted(self.cells):
            t = t + self.grid.w[i] * self.grid.h[j]
        return t

    def intersection(self, o, **k):
        return self._of(self.cells & o.cells)

    def union(self, o, **k):
        return self._of(self.cells | o.cells)

    def difference(self, o, **k):
        return self._of(self.cells - o.cells)

    def symmetric_difference(self, o, **k):
        return self._of(self.cells ^ o.cells)

    __and__, __or__, __sub__, __xor__ = intersection, union, difference, symmetric_difference

    def contains(self, o):
        return o.cells <= self.cells and bool(o.cells)

    covers = contains_properly = contains

    def within(self, o):
        return o.contains(self)

    covered_by = within

    def equals(self, o, *a, **k):
        return self.cells == o.cells

    equals_exact = equals

    def overlaps(self, o):
        return bool(self.cells & o.cells) and not self.contains(o) and not o.contains(self)

    def intersects(self, o):
        near = {(i + a, j + b) for i, j in self.cells for a in (-1, 0, 1) for b in (-1, 0, 1)}
        return bool(near & o.cells)

    def disjoint(self, o):
        return not self.intersects(o)

    def touches(self, o):
        return self.intersects(o) and not self.cells & o.cells

    def _span(self):
        i, j = [c[0] for c in self.cells], [c[1] for c in self.cells]
        return min(i), min(j), max(i) + 1, max(j) + 1

    @property
    def bounds(self):
        a, b, c, d = self._span()
        return (self.grid.x[a], self.grid.y[b], self.grid.x[c], self.grid.y[d])

    @property
    def envelope(self):
        a, b, c, d = self._span()
        return self._of((i, j) for i in range(a, c) for j in range(b, d))

    minimum_rotated_rectangle = oriented_envelope = envelope

    @property
    def convex_hull(self):
        a, b, c, d = self._span()
        if not {(a, b), (c - 1, b), (a, d - 1), (c - 1, d - 1)} <= self.cells:
            raise NotImplementedError("convex hull")
        return self.envelope

    def _outside(self):
        a, b, c, d = self._span()
        box = {(i, j) for i in range(a - 1, c + 1) for j in range(b - 1, d + 1)} - self.cells
        todo, out = [(a - 1, b - 1)], set()
        while todo:
            p = todo.pop()
            if p in box and p not in out:
                out.add(p)
                todo += [(p[0] + 1, p[1]), (p[0] - 1, p[1]), (p[0], p[1] + 1), (p[0], p[1] - 1)]
        return box, out

    @property
    def exterior(self):
        box, out = self._outside()
        return Ring(self.grid, self.cells | (box - out))

    @property
    def interiors(self):
        box, out = self._outside()
        return [Ring(self.grid, box - out)] if box - out else []

    def buffer(self, distance=0, *a, **k):
        if distance != 0:
            raise NotImplementedError("buffer")
        return self

    def normalize(self):
        return self

    simplify = lambda self, tolerance=0, **k: self if tolerance == 0 else None


def _ew(f, *arrs):
    xs = [x if isinstance(x, rnp.ndarray) else None for x in arrs]
    if all(x is None for x in xs):
        return f(*arrs)
    sh = rnp.broadcast_shapes(*[x.shape for x in xs if x is not None])
    bs = [rnp.broadcast_to(x.view(rnp.ndarray), sh) if x is not None else None for x in xs]
    o = rnp.empty(sh, dtype=object)
    for p in rnp.ndindex(*sh):
        o[p] = f(*[b[p] if b is not None else arrs[i] for i, b in enumerate(bs)])
    return o


def make_modules():
    sh = _types.ModuleType("shapely")
    geo = _types.ModuleType("shapely.geometry")
    geo.Polygon = Polygon
    sh.Polygon = Polygon
    sh.geometry = geo

    def intersection(a, b, **kw):
        r = _ew(lambda x, y: x.intersection(y), a, b)
        return r.view(narr.Arr) if isinstance(r, rnp.ndarray) else r

    def union(a, b, **kw):
        r = _ew(lambda x, y: x.union(y), a, b)
        return r.view(narr.Arr) if isinstance(r, rnp.ndarray) else r

    def area(a, **kw):
        r = _ew(lambda x: x.area, a)
        if isinstance(r, rnp.ndarray):
            return narr.to_kind(narr.from_objs(r), "f") if r.size else narr.rewrap(rnp.zeros(r.shape))
        return r

    sh.intersection, sh.union, sh.area = intersection, union, area
    sh.intersects = lambda a, b, **k: narr.settle(narr.asarr(_ew(lambda x, y: x.intersects(y), a, b)))
    def lift(name, call):
        def f(*a, **k):
            r = _ew(lambda *x: call(name, *x), *a)
            if not isinstance(r, rnp.ndarray):
                return r
            if r.size and isinstance(r.flat[0], bool):
                return narr.settle(narr.asarr(r))
            return r.view(narr.Arr)

        setattr(sh, name, f)

    for n in ("difference", "symmetric_difference", "contains", "covers", "within", "covered_by", "equals", "overlaps", "disjoint", "touches", "buffer", "normalize"):
        lift(n, lambda name, x, *y: getattr(x, name)(*y))
    for n in ("envelope", "convex_hull", "oriented_envelope", "minimum_rotated_rectangle", "is_empty", "is_valid"):
        lift(n, lambda name, x, *y: getattr(x, name))
    lift("get_exterior_ring", lambda name, x: x.exterior)
    lift("polygons", lambda name, x, *y: Polygon(x, *y))
    lift("make_valid", lambda name, x: x)
    sh.prepare = sh.destroy_prepared = lambda *a, **k: None
    sh.box = lambda *a, **k: Polygon()
    sh.__path__ = []
    return {"shapely": sh, "shapely.geometry": geo}
