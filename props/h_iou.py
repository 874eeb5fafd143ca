"""Overlap kernels and pair attribution at the public API."""
from fractions import Fraction

from symx.logic import and_, iff, implies, ite, not_, or_

from . import task
from .common import eq


def smax(a, b):
    return ite(a >= b, a, b)


def smin(a, b):
    return ite(a <= b, a, b)


def inter_union(g, p):
    """areas for boxes (xmin, xmax, ymin, ymax)."""
    w = smin(g[1], p[1]) - smax(g[0], p[0])
    h = smin(g[3], p[3]) - smax(g[2], p[2])
    w, h = ite(w > 0.0, w, 0.0), ite(h > 0.0, h, 0.0)
    i = w * h
    return i, (g[1] - g[0]) * (g[3] - g[2]) + (p[1] - p[0]) * (p[3] - p[2]) - i


def tp_pairs(ctx, ev, ti):
    out = []
    for m in ev.compute_examples(iou_thresholds=[ti], score_thresholds=[0.5]):
        out += [tuple(x) for x in m.value["true_positives"]]
    return out


def tp_count(ctx, ev, ti):
    D = ctx.mod("object_detection")
    out = ev.compute_precision_recall(iou_thresholds=[ti], score_thresholds=[0.5])
    return sum(m.value["tp"] for m in out[D.MetricType.Counts])


def box(ctx, name, free, side):
    """a valid box; free in 'x', 'xy', 'corner'."""
    x0 = ctx.real(name + "x0", -8.0, 8.0)
    w = ctx.real(name + "w", 1.0 / 64, 8.0)
    if free == "x":
        return (x0, x0 + w, 0.0, 2.0) if side == 0 else (x0, x0 + w, 1.0, 4.0)
    y0 = ctx.real(name + "y0", -8.0, 8.0)
    h = ctx.real(name + "h", 1.0 / 64, 8.0)
    return (x0, x0 + w, y0, y0 + h)


def accepted(i, u, ti):
    return and_(i > 0.0, i >= ti * u)


def clear(ctx, i, u, ti):
    """keep away from the 1e-9 zero band, where the code calls overlap zero."""
    ctx.assume(or_(i <= 0.0, i >= 1e-3 * u))


def settled(ctx, g, p, ti):
    """on real floats: the overlap is not so close to the threshold that the
    order of floating point operations decides."""
    if ctx.symbolic:
        return
    F = Fraction
    G, P, t = [F(float(x)) for x in g], [F(float(x)) for x in p], F(float(ti))
    w, h = max(min(G[1], P[1]) - max(G[0], P[0]), F(0)), max(min(G[3], P[3]) - max(G[2], P[2]), F(0))
    parts = [w, h, w * h]
    for b in (G, P):
        parts += [b[1] - b[0], b[3] - b[2], (b[1] - b[0]) * (b[3] - b[2])]
    i, u = parts[2], parts[5] + parts[8] - parts[2]
    parts += [u, t * u, i / u, parts[5] + parts[8], parts[8] - i, parts[5] - i]
    ctx.assume(abs(i / u - t) > 1e-12 or all(F(float(x)) == x for x in parts))


@task(
    "C06",
    lambda tier: [dict(free="x"), dict(free="half"), dict(free="xy")],
    bounds="one ground truth and one prediction box with all coordinates symbolic (range [-8,16], sides >= 1/64) and a symbolic IoU threshold in [1/64,1]; also ranges with one axis fixed",
)
def bbox_pair(ctx, free):
    D = ctx.mod("object_detection")
    if free == "half":
        g = (0.0, 4.0, 0.0, 2.0)
        p = box(ctx, "p", "xy", 1)
    else:
        g, p = box(ctx, "g", free, 0), box(ctx, "p", free, 1)
    ti = ctx.real("ti", 1.0 / 64, 1.0, dec=True)
    i, u = inter_union(g, p)
    clear(ctx, i, u, ti)
    settled(ctx, g, p, ti)
    loader = D.Loader.in_memory()
    gt = D.BoundingBox(uid="g", xmin=g[0], xmax=g[1], ymin=g[2], ymax=g[3], labels=["a"])
    pd = D.BoundingBox(uid="p", xmin=p[0], xmax=p[1], ymin=p[2], ymax=p[3], labels=["a"], scores=[1.0])
    loader.add_bounding_boxes([D.Detection(uid="d", groundtruths=[gt], predictions=[pd])])
    ev = loader.finalize()
    ok = accepted(i, u, ti)
    ctx.check(iff(ok, tp_count(ctx, ev, ti) == 1), "box accepted exactly when intersection/union reaches the threshold")
    ctx.check(iff(ok, tp_pairs(ctx, ev, ti) == [("g", "p")]), "box pair listed exactly when intersection/union reaches the threshold")


@task(
    "C06",
    lambda tier: [dict(ng=2, np_=1), dict(ng=1, np_=2), dict(ng=2, np_=2)],
    bounds="2 x 1, 1 x 2 and 2 x 2 boxes with symbolic horizontal positions and distinct labels per ground truth, symbolic IoU threshold",
)
def bbox_many(ctx, ng, np_):
    D = ctx.mod("object_detection")
    ti = ctx.real("ti", 1.0 / 64, 1.0, dec=True)
    gb = [(0.0, 4.0, 0.0, 2.0), (10.0, 18.0, 0.0, 2.0)][:ng]
    pb = []
    for j in range(np_):
        x = ctx.real(f"x{j}", -8.0, 20.0)
        w = [4.0, 2.0][j]
        pb.append((x, x + w, 0.0, 2.0))
    gts = [D.BoundingBox(uid=f"g{i}", xmin=b[0], xmax=b[1], ymin=b[2], ymax=b[3], labels=["a"]) for i, b in enumerate(gb)]
    pds = [D.BoundingBox(uid=f"p{j}", xmin=b[0], xmax=b[1], ymin=b[2], ymax=b[3], labels=["a"], scores=[0.75 - 0.125 * j]) for j, b in enumerate(pb)]
    loader = D.Loader.in_memory()
    loader.add_bounding_boxes([D.Detection(uid="d", groundtruths=gts, predictions=pds)])
    ev = loader.finalize()
    got = tp_pairs(ctx, ev, ti)
    iu = {(i, j): inter_union(gb[i], pb[j]) for i in range(ng) for j in range(np_)}
    for (i, j), (a, u) in iu.items():
        clear(ctx, a, u, ti)
        settled(ctx, gb[i], pb[j], ti)
    # the ground truths are disjoint and far apart: a prediction overlaps at most one of them
    for i in range(ng):
        for j in range(np_):
            a, u = iu[i, j]
            here = (f"g{i}", f"p{j}") in got
            first = and_(*[iu[i, k][0] <= 0.0 for k in range(j)])
            # p0 has the higher score, so it is matched first whatever its IoU
            ctx.check(iff(and_(accepted(a, u, ti), first), here), f"pair (g{i},p{j})")


@task(
    "C06",
    lambda tier: [dict(h=1, w=3, ng=1), dict(h=2, w=2, ng=1), dict(h=1, w=2, ng=1, fill=300), dict(h=1, w=2, ng=1, fill=70000)] + ([dict(h=2, w=3, ng=1)] if tier == "thorough" else []),
    bounds="one ground-truth and one prediction bitmask of 3 or 4 pixels (6 thorough), every pixel symbolic, symbolic IoU threshold; 2 symbolic pixels in masks of 300 and 70000 pixels",
)
def bitmask_pair(ctx, h, w, ng, fill=0):
    D = ctx.mod("object_detection")
    np = ctx.np
    g = [[ctx.bool(f"g{r}{c}") for c in range(w)] for r in range(h)]
    p = [[ctx.bool(f"p{r}{c}") for c in range(w)] for r in range(h)]
    for q in range(fill):
        g[0].append(True)
        p[0].append(q % 2 == 0)
    fg, fp = sum(g, []), sum(p, [])
    ctx.assume(and_(or_(*fg), or_(*fp)))
    ti = ctx.real("ti", 1.0 / 64, 1.0, dec=True)
    live = list(zip(fg, fp))[: h * w]
    i = sum((ite(and_(a, b), 1, 0) for a, b in live), sum(a and b for a, b in zip(fg[h * w :], fp[h * w :])))
    u = sum((ite(or_(a, b), 1, 0) for a, b in live), fill)
    if not ctx.symbolic:
        ctx.assume(abs(i / u - ti) > 1e-9 or i / u == ti)
    loader = D.Loader.in_memory()
    gt = D.Bitmask(uid="g", mask=np.array(g), labels=["a"])
    pd = D.Bitmask(uid="p", mask=np.array(p), labels=["a"], scores=[1.0])
    loader.add_bitmasks([D.Detection(uid="d", groundtruths=[gt], predictions=[pd])])
    ev = loader.finalize()
    ctx.check(iff(and_(i > 0, i * 1.0 >= ti * u), tp_count(ctx, ev, ti) == 1), "bitmask accepted exactly when intersection/union reaches the threshold")


@task(
    "C06",
    lambda tier: [dict(ng=2, np_=1), dict(ng=1, np_=2)],
    bounds="2 x 1 and 1 x 2 bitmasks of 2 pixels each, every pixel symbolic, symbolic IoU threshold",
)
def bitmask_many(ctx, ng, np_):
    D = ctx.mod("object_detection")
    np = ctx.np
    G = [[ctx.bool(f"g{i}{c}") for c in range(2)] for i in range(ng)]
    P = [[ctx.bool(f"p{j}{c}") for c in range(2)] for j in range(np_)]
    for m in G + P:
        ctx.assume(or_(*m))
    ti = ctx.real("ti", 1.0 / 64, 1.0, dec=True)
    labels = ["a", "b"]
    gts = [D.Bitmask(uid=f"g{i}", mask=np.array([m]), labels=[labels[i]]) for i, m in enumerate(G)]
    # each prediction has the label of one ground truth only, so pairs are read off the per-label counts
    pds = [D.Bitmask(uid=f"p{j}", mask=np.array([m]), labels=[labels[0]], scores=[1.0]) for j, m in enumerate(P)]
    loader = D.Loader.in_memory()
    loader.add_bitmasks([D.Detection(uid="d", groundtruths=gts, predictions=pds)])
    ev = loader.finalize()

    def ok(a, b):
        i = sum((ite(and_(x, y), 1, 0) for x, y in zip(a, b)), 0)
        u = sum((ite(or_(x, y), 1, 0) for x, y in zip(a, b)), 0)
        return and_(i > 0, i * 1.0 >= ti * u)

    want = or_(*[ok(G[0], p) for p in P])
    ctx.check(iff(want, tp_count(ctx, ev, ti) == 1), "bitmask of the right label accepted exactly when its own overlap reaches the threshold")


@task(
    "C06",
    lambda tier: [dict()],
    bounds="one polygon pair with symbolic intersection area and union area (union in [1/64, 64]) and a symbolic IoU threshold",
    assumptions=["shapely's own area/intersection/union are replaced by symbolic areas"],
)
def polygon_pair(ctx):
    D = ctx.mod("object_detection")
    i = ctx.real("inter", 0.0, 64.0, dec=True)
    u = ctx.real("union", 1.0 / 64, 64.0, dec=True)
    ti = ctx.real("ti", 1.0 / 64, 1.0, dec=True)
    nested = ctx.flag("nested")
    ctx.assume(and_(i <= u, or_(i <= 0.0, i >= 1e-3 * u)))
    if ctx.symbolic:
        from symx.geom import Polygon as Stub

        pairs = {("g", "p"): (i, u)}
        gs, ps = Stub(name="g", pairs=pairs), Stub(name="p", pairs=pairs)
    else:
        from shapely.geometry import Polygon as SP

        a = (u + i) / 2

        def col(y0, y1):
            return SP([(0, y0), (1, y0), (1, y1), (0, y1)])

        if nested:
            gs, ps = col(0, u), col(0, i) if i > 0 else col(100, 101)
        else:
            gs = col(0, a)
            ps = col(a - i, 2 * a - i) if i > 0 else col(100, 100 + a)
        # the areas as floating point numbers, whichever way the union is measured
        ri = gs.intersection(ps).area
        ctx.assume(all((ri >= ti * ru) == (i >= ti * u) == (ri / ru >= ti) for ru in (gs.union(ps).area, gs.area + ps.area - ri)))
    gt = D.Polygon(uid="g", shape=gs, labels=["a"])
    pd = D.Polygon(uid="p", shape=ps, labels=["a"], scores=[1.0])
    loader = D.Loader.in_memory()
    loader.add_polygons([D.Detection(uid="d", groundtruths=[gt], predictions=[pd])])
    ev = loader.finalize()
    ctx.check(iff(accepted(i, u, ti), tp_count(ctx, ev, ti) == 1), "polygon accepted exactly when intersection/union reaches the threshold")


#: cells (column, row) of a 3 x 3 grid
GRID = {(i, j) for i in range(3) for j in range(3)}
SHAPES = {
    "full": GRID,
    "ring": GRID - {(1, 1)},
    "u": GRID - {(1, 1), (1, 2)},
    "notch": {(1, 1), (1, 2)},
    "left": {(0, 0), (0, 1), (0, 2)},
    "centre": {(1, 1)},
    "frame": GRID - {(2, 0), (2, 1), (2, 2)},
}
HEIGHTS = [1.0, 2.0, 0.5]


def outline(name, X, Y):
    """shell and holes of a shape for the grid lines X, Y."""
    if name == "ring":
        return [(X[0], Y[0]), (X[3], Y[0]), (X[3], Y[3]), (X[0], Y[3])], [[(X[1], Y[1]), (X[2], Y[1]), (X[2], Y[2]), (X[1], Y[2])]]
    if name == "u":
        return [(X[0], Y[0]), (X[3], Y[0]), (X[3], Y[3]), (X[2], Y[3]), (X[2], Y[1]), (X[1], Y[1]), (X[1], Y[3]), (X[0], Y[3])], []
    c = SHAPES[name]
    a, b = min(i for i, _ in c), max(i for i, _ in c) + 1
    d, e = min(j for _, j in c), max(j for _, j in c) + 1
    return [(X[a], Y[d]), (X[b], Y[d]), (X[b], Y[e]), (X[a], Y[e])], []


@task(
    "C06",
    lambda tier: [dict(g=g) for g in SHAPES],
    bounds="polygons made of cells of a 3 x 3 grid with symbolic column widths (7 x 7 shapes: boxes, a concave one, one with a hole), symbolic IoU threshold",
)
def polygon_shapes(ctx, g):
    D = ctx.mod("object_detection")
    p = ctx.choose("p", list(SHAPES))
    ws = [ctx.real(f"w{i}", 1.0 / 8, 8.0, dec=True) for i in range(3)]
    ti = ctx.real("ti", 1.0 / 64, 1.0, dec=True)
    area = lambda cells: sum((ws[i] * HEIGHTS[j] for i, j in sorted(cells)), 0.0)
    i, u = area(SHAPES[g] & SHAPES[p]), area(SHAPES[g] | SHAPES[p])
    if ctx.symbolic:
        from symx.geom import Cells, Grid

        grid = Grid(ws, HEIGHTS)
        gs, ps = Cells(grid, SHAPES[g]), Cells(grid, SHAPES[p])
    else:
        from shapely.geometry import Polygon as SP

        X = [0.0, ws[0], ws[0] + ws[1], ws[0] + ws[1] + ws[2]]
        Y = [0.0, 1.0, 3.0, 3.5]
        gs, ps = SP(*outline(g, X, Y)), SP(*outline(p, X, Y))
        ri, ru = gs.intersection(ps).area, gs.union(ps).area
        # a threshold that floating point areas can decide
        ctx.assume(abs(ri - ti * ru) > 1e-9 * ru or (g == p and ri == ru))
    gt = D.Polygon(uid="g", shape=gs, labels=["a"])
    pd = D.Polygon(uid="p", shape=ps, labels=["a"], scores=[1.0])
    loader = D.Loader.in_memory()
    loader.add_polygons([D.Detection(uid="d", groundtruths=[gt], predictions=[pd])])
    ev = loader.finalize()
    ctx.check(iff(accepted(i, u, ti), tp_count(ctx, ev, ti) == 1), f"polygons {g} and {p}: accepted exactly when intersection/union reaches the threshold")
