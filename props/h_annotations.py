"""What annotations, loaders and evaluators refuse."""
from symx.logic import and_, or_

from . import h_classification as hc
from . import h_segmentation as hs
from . import od, task
from .common import eq


def refused(f, *kinds):
    """(f's result, refused?)"""
    try:
        return f(), False
    except (kinds or (ValueError, TypeError)):
        return None, True


@task(
    "C23",
    lambda tier: [dict(most=3 if tier == "quick" else 4)],
    bounds="0-3 prediction labels and 0-3 scores (4 thorough), scores symbolic; ground truth a string, a list, a number or missing",
)
def classification(ctx, most):
    C = ctx.mod("classification")
    n = ctx.choose("n", list(range(most + 1)))
    m = ctx.choose("m", list(range(most + 1)))
    g = ctx.choose("g", ["a", "", None, ["a"], 1, ("a",)])
    labels = ["a", "b", "c", "d"][:n]
    scores = [ctx.real(f"s{k}", 0.0, 1.0) for k in range(m)]
    c, no = refused(lambda: C.Classification(uid="u", groundtruth=g, predictions=list(labels), scores=list(scores)))
    bad = n != m or not isinstance(g, str)
    ctx.check(no == bad, "invalid classification accepted" if bad else "valid classification refused")
    if no:
        return
    ctx.check(c.uid == "u" and c.groundtruth == g and c.predictions == labels, "fields changed")
    ctx.check(and_(len(c.scores) == m, *[eq(a, b) for a, b in zip(c.scores, scores)]), "scores changed")
    loader = C.Loader.in_memory()
    _, no = refused(lambda: loader.add_data([c]))
    ctx.check(no == (n == 0), "a classification without predictions is loaded" if n == 0 else "a valid classification is not loaded")
    if no:
        E = ctx.mod("exceptions")
        _, no = refused(loader.finalize, E.EmptyCacheError)
        ctx.check(no, "an empty loader was finalized")


def _shape(ctx, D, kind, px):
    np = ctx.np
    if kind == "box":
        xs = [ctx.real(k, -10.0, 10.0) for k in ("xmin", "xmax", "ymin", "ymax")]
        return lambda **k: D.BoundingBox(uid="u", xmin=xs[0], xmax=xs[1], ymin=xs[2], ymax=xs[3], **k), xs
    if kind == "bitmask":
        m = np.array([px], dtype=np.bool_)
        return lambda **k: D.Bitmask(uid="u", mask=m, **k), None
    if ctx.symbolic:
        from symx.geom import Polygon
    else:
        from shapely.geometry import Polygon
    p = Polygon([(0, 0), (1, 0), (1, 1), (0, 1)])
    return lambda **k: D.Polygon(uid="u", shape=p, **k), p


@task(
    "C23",
    [dict(kind=k) for k in ("box", "bitmask", "polygon")],
    bounds="every detection annotation type with 0-3 labels and 0-3 scores, symbolic coordinates, pixels and scores; as ground truth and as prediction of a Detection, alone or among 1-2 others",
)
def detection(ctx, kind):
    D = ctx.mod("object_detection")
    n = ctx.choose("n", [0, 1, 2, 3])
    m = ctx.choose("m", [0, 1, 2, 3])
    labels = ["a", "b", "c"][:n]
    scores = [ctx.real(f"s{k}", 0.0, 1.0) for k in range(m)]
    px = [ctx.bool(f"x{k}") for k in range(2)] if kind == "bitmask" else []
    make, data = _shape(ctx, D, kind, px)
    a, no = refused(lambda: make(labels=list(labels), scores=list(scores)))
    empty = kind == "bitmask" and not ctx.decide(or_(*px))
    bad = empty or (n != 1 if m == 0 else n != m)
    ctx.check(no == bad, "invalid annotation accepted" if bad else "valid annotation refused")
    if no:
        return
    ctx.check(a.uid == "u" and a.labels == labels and len(a.scores) == m, "fields changed")
    ctx.check(and_(True, *[eq(x, y) for x, y in zip(a.scores, scores)]), "scores changed")
    if kind == "box":
        ctx.check(and_(*[eq(x, y) for x, y in zip(a.extrema, data)]), "coordinates changed")
    if kind == "polygon":
        ctx.check(a.shape is data, "shape changed")
    side = ctx.choose("side", ["gt", "pd"])
    near = ctx.choose("near", [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1)])
    fill = lambda k: D.BoundingBox(uid=f"n{k}", xmin=0, xmax=1, ymin=0, ymax=1, labels=["z"], scores=[] if side == "gt" else [0.5])
    anns = [fill(k) for k in range(near[0])] + [a] + [fill(2 + k) for k in range(near[1])]
    d, no = refused(lambda: D.Detection(uid="d", groundtruths=list(anns) if side == "gt" else [], predictions=list(anns) if side == "pd" else []))
    ctx.check(no == (side == "pd" and m == 0), "a prediction without scores is accepted" if m == 0 else "a valid detection is refused")
    if not no:
        got = d.groundtruths if side == "gt" else d.predictions
        ctx.check(len(got) == len(anns) and all(x is y for x, y in zip(got, anns)), "annotations changed")


@task("C23", [dict()], bounds="masks of boolean, integer, float dtype and nested lists; polygons that are empty or not polygons", routes=(None,))
def shapes(ctx):
    D, S = ctx.mod("object_detection"), ctx.mod("semantic_segmentation")
    np = ctx.np
    what = ctx.choose("what", ["bool", "uint8", "int64", "float64", "list", "none", "not a polygon", "empty polygon", "item"])
    v = ctx.int("v", 0, 1)
    one = ctx.decide(v > 0)
    if what in ("bool", "uint8", "int64", "float64"):
        dt = {"bool": np.bool_, "uint8": np.uint8, "int64": np.int64, "float64": np.float64}[what]
        m = np.array([[1 if one else 0, 0]], dtype=dt)
        _, no = refused(lambda: D.Bitmask(uid="u", mask=m, labels=["a"]))
        ctx.check(no == (what != "bool" or not one), f"{what} mask")
        _, no = refused(lambda: S.Bitmask(mask=m, label="a"))
        ctx.check(no == (what != "bool"), f"{what} segmentation mask")
    elif what in ("list", "none"):
        m = [[True, False]] if what == "list" else None
        _, no = refused(lambda: D.Bitmask(uid="u", mask=m, labels=["a"]))
        ctx.check(no, "a mask that is no array is accepted")
    elif what == "not a polygon":
        _, no = refused(lambda: D.Polygon(uid="u", shape=[(0, 0), (1, 0), (1, 1)], labels=["a"]))
        ctx.check(no, "a list of points is accepted as polygon")
    elif what == "empty polygon":
        if ctx.symbolic:
            from symx.geom import Polygon

            p = Polygon()
            p.is_empty = True
        else:
            from shapely.geometry import Polygon

            p = Polygon()
        _, no = refused(lambda: D.Polygon(uid="u", shape=p, labels=["a"]))
        ctx.check(no, "an empty polygon is accepted")
    else:
        ok = S.Bitmask(mask=np.array([[True, False]], dtype=np.bool_), label="a")
        junk = ctx.choose("junk", [None, "a", {"label": "a"}])
        for k in ("groundtruths", "predictions"):
            kw = dict(groundtruths=[ok], predictions=[ok])
            kw[k] = [ok, junk] if one else [junk]
            _, no = refused(lambda: S.Segmentation(uid="u", shape=(1, 2), **kw))
            ctx.check(no, "something that is no mask is accepted")


@task(
    "C23",
    [dict(s=s) for s in ((), (2,), (1, 2, 1), (2, 1, 1, 1))] + [dict(s=None)],
    bounds="declared segmentation shapes of 0-4 dimensions; two-dimensional ones with symbolic sides from -1 to 3",
)
def dimensions(ctx, s):
    S = ctx.mod("semantic_segmentation")
    if s is None:
        s = (ctx.int("h", -1, 3), ctx.int("w", -1, 3))
        ok = ctx.decide(and_(s[0] >= 1, s[1] >= 1))
    else:
        ok = False
    seg, no = refused(lambda: S.Segmentation(uid="u", groundtruths=[], predictions=[], shape=s))
    ctx.check(no == (not ok), "a degenerate shape is accepted" if not ok else "a valid shape is refused")
    if not no:
        ctx.check(eq(seg.size, s[0] * s[1]), "number of pixels")


def _cls(ctx, path):
    C = ctx.mod("classification")
    loader = C.Loader.persistent(path) if path else C.Loader.in_memory()
    return hc.build(ctx, [("u0", "a", ["a", "b"], {"a": ctx.real("s", 0.0, 1.0), "b": 0.25})], loader=loader)


def _det(ctx, path):
    D = ctx.mod("object_detection")
    sc = od.scene(ctx, "d", 1, 1, glabels=["a"], plabels=["a"], scores=[0.5])
    return od.load(ctx, [sc], loader=D.Loader.persistent(path) if path else D.Loader.in_memory())


def _seg(ctx, path):
    S = ctx.mod("semantic_segmentation")
    d = hs.datum(ctx, "d", (1, 1), ["a"], ["a"])
    return hs.evaluator(ctx, [d], loader=S.Loader.persistent(path) if path else S.Loader.in_memory())


MODS = {"classification": _cls, "object_detection": _det, "semantic_segmentation": _seg}
RESERVED = {
    "classification": ["datum_uid", "datum_id", "gt_label", "gt_label_id", "pd_label", "pd_label_id", "pd_score", "pd_winner", "match"],
    "object_detection": ["datum_uid", "datum_id", "gt_uid", "gt_id", "gt_label", "gt_label_id", "pd_uid", "pd_id", "pd_label", "pd_label_id", "pd_score", "iou"],
    "semantic_segmentation": ["datum_uid", "datum_id", "gt_label", "gt_label_id", "pd_label", "pd_label_id", "count"],
}


@task(
    "C23",
    [dict(mod=m, disk=d) for m in MODS for d in (False, True)],
    bounds="per evaluator kind, in memory and on disk: finalizing without data, metadata fields named like reserved columns, requests without thresholds, filtering to disk without a path",
    routes=od.ROUTES,
)
def requests(ctx, mod, disk):
    M, E = ctx.mod(mod), ctx.mod("exceptions")
    what = ctx.choose("what", ["empty", "reserved", "thresholds", "path"])
    path = ctx.scratch("ev") if disk else None

    def loader(**k):
        return M.Loader.persistent(path, **k) if disk else M.Loader.in_memory(**k)

    if what == "empty":
        _, no = refused(loader().finalize, E.EmptyCacheError)
        ctx.check(no, "an empty loader was finalized")
        return
    if what == "reserved":
        name = ctx.choose("name", RESERVED[mod])
        _, no = refused(lambda: loader(metadata_fields=[("fine", "string"), (name, "string")]))
        ctx.check(no, f"metadata field {name} shadows a reserved column")
        return
    ev = MODS[mod](ctx, path)
    ev = ev.finalize() if hasattr(ev, "finalize") else ev
    if what == "path":
        if disk:
            _, no = refused(lambda: ev.filter(datums=ctx.pc.field("datum_id") >= 0))
            ctx.check(no, "a disk evaluator was filtered without a path")
        return
    t = ctx.real("t", 0.0, 1.0)
    if mod == "classification":
        asks = [dict(score_thresholds=[])]
        good = dict(score_thresholds=[t])
    elif mod == "object_detection":
        asks = [dict(iou_thresholds=[], score_thresholds=[t]), dict(iou_thresholds=[t], score_thresholds=[]), dict(iou_thresholds=[], score_thresholds=[])]
        good = dict(iou_thresholds=[t], score_thresholds=[t])
        ctx.assume(t >= 0.1)
    else:
        return
    fn = ctx.choose("fn", ["precision_recall", "confusion_matrix", "examples", "confusion_matrix_with_examples"])
    f = getattr(ev, "compute_" + fn)
    for a in asks:
        _, no = refused(lambda: f(**a))
        ctx.check(no, f"{fn} was computed without thresholds")
    _, no = refused(lambda: f(**good))
    ctx.check(not no, f"{fn} refused a valid request")
