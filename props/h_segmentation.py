"""Semantic segmentation: pixel metrics, overlap resolution, filtering."""
from symx.logic import and_, approx, iff, implies, isum, ite, not_, or_, ssum

from . import task
from .common import eq, is_ratio, uid


def Q(tier, quick, thorough):
    return quick + (thorough if tier == "thorough" else [])


class Datum:
    """uid, masks [(label, [pixel truth values])] per side, as given."""

    def __init__(self, uid, shape, gts, pds):
        self.uid, self.shape, self.gts, self.pds = uid, shape, gts, pds
        self.meta = None
        self.gmeta, self.pmeta = {}, {}

    @property
    def n(self):
        return self.shape[0] * self.shape[1]


def side(ctx, uid, key, n, labels, disjoint=True, fixed=None):
    out = []
    for k, l in enumerate(labels):
        out.append((l, [ctx.bool(f"{uid}{key}{k}x{q}") for q in range(n)]))
    if disjoint:
        for q in range(n):
            for a in range(len(out)):
                for b in range(a):
                    ctx.assume(not_(and_(out[a][1][q], out[b][1][q])))
    return out


def datum(ctx, uid, shape, gl, pl, disjoint=True, fill=0):
    """fill: further rows of pixels with fixed contents, so that counts get large."""
    n = shape[0] * shape[1]
    gts, pds = side(ctx, uid, "g", n, gl, disjoint), side(ctx, uid, "p", n, pl, disjoint)
    for q in range(fill * shape[1]):
        for masks, own in ((gts, (q // 7) % 8), (pds, (q // 5) % 7)):
            # the first mask of a side takes most of them, some stay background
            own = 0 if own < 6 else own - 5
            for k, (_, px) in enumerate(masks):
                px.append(k == own)
    return Datum(uid, (shape[0] + fill, shape[1]), gts, pds)


def segmentation(ctx, d):
    S = ctx.mod("semantic_segmentation")
    np = ctx.np

    def mk(l, px, meta):
        m = np.array([[px[r * d.shape[1] + c] for c in range(d.shape[1])] for r in range(d.shape[0])], dtype=np.bool_)
        return S.Bitmask(mask=m, label=l, metadata=meta)

    return S.Segmentation(
        uid=d.uid,
        groundtruths=[mk(l, px, d.gmeta.get(k)) for k, (l, px) in enumerate(d.gts)],
        predictions=[mk(l, px, d.pmeta.get(k)) for k, (l, px) in enumerate(d.pds)],
        shape=tuple(d.shape),
        metadata=d.meta,
    )


def evaluator(ctx, data, loader=None, fields=None, one_by_one=False):
    S = ctx.mod("semantic_segmentation")
    if loader is None:
        loader = S.Loader.in_memory(metadata_fields=fields)
    segs = [segmentation(ctx, d) for d in data]
    if one_by_one:
        for s in segs:
            loader.add_data([s])
    else:
        loader.add_data(segs)
    return loader


def has(masks, label, q, keep=None):
    """pixel q carries this label (None: no label)."""
    if label is None:
        return not_(or_(False, *[px[q] for k, (_, px) in enumerate(masks) if keep is None or k in keep]))
    return or_(False, *[px[q] for k, (l, px) in enumerate(masks) if l == label and (keep is None or k in keep)])


def labels_of(data):
    out = []
    for d in data:
        for l, _ in d.gts + d.pds:
            if l not in out:
                out.append(l)
    return out


def cells(data, labels, keep=None):
    """pixel counts {(gt label or None, pd label or None): n}."""
    out = {}
    for g in [None] + labels:
        for p in [None] + labels:
            t = []
            for d in data:
                kg = keep[d.uid][0] if keep else None
                kp = keep[d.uid][1] if keep else None
                for q in range(d.n):
                    t.append(and_(has(d.gts, g, q, kg), has(d.pds, p, q, kp)))
            out[g, p] = isum(t)
    return out


def check_metrics(ctx, out, data, labels, keep=None):
    MT = ctx.mod("semantic_segmentation").MetricType
    c = cells(data, labels, keep)
    n = sum(d.n for d in data)
    allp = [None] + labels
    gt = {g: ssum([c[g, p] for p in allp]) for g in labels}
    pd = {p: ssum([c[g, p] for g in allp]) for p in labels}

    def val(t, **kw):
        ms = [m for m in out[t] if all(m.parameters.get(k) == v for k, v in kw.items())]
        ctx.check(len(ms) == 1, f"expected one {t}, got {len(ms)}")
        return ms[0].value

    good = ssum([c[l, l] for l in labels]) + c[None, None]
    ctx.check(approx(val(MT.Accuracy) * n, good * 1.0), "accuracy")
    cm = val(MT.ConfusionMatrix)
    ctx.check(sorted(cm["confusion_matrix"]) == sorted(labels), "confusion matrix: labels")
    for g in labels:
        ctx.check(sorted(cm["confusion_matrix"][g]) == sorted(labels), "confusion matrix: labels")
        for p in labels:
            v = cm["confusion_matrix"][g][p]["iou"]
            ctx.check(is_ratio(v, c[g, p], gt[g] + pd[p] - c[g, p]), f"confusion matrix IOU ({g},{p})")
        ctx.check(is_ratio(cm["unmatched_ground_truths"][g]["ratio"], c[g, None], gt[g]), f"unmatched ground-truth ratio of {g}")
        ctx.check(is_ratio(cm["unmatched_predictions"][g]["ratio"], c[None, g], pd[g]), f"unmatched prediction ratio of {g}")
    ious = []
    for l in labels:
        ctx.check(is_ratio(val(MT.Precision, label=l), c[l, l], pd[l]), f"precision of {l}")
        ctx.check(is_ratio(val(MT.Recall, label=l), c[l, l], gt[l]), f"recall of {l}")
        ctx.check(is_ratio(val(MT.F1, label=l), 2 * c[l, l], gt[l] + pd[l]), f"F1 of {l}")
        v = val(MT.IOU, label=l)
        ctx.check(is_ratio(v, c[l, l], gt[l] + pd[l] - c[l, l]), f"IOU of {l}")
        ious.append(v)
    ctx.check(approx(val(MT.mIOU) * len(labels), ssum(ious)), "mIOU")
    return c, gt, pd


def check_info(ctx, info, data, labels, keep=None):
    c = cells(data, labels, keep)
    ctx.check(info.number_of_datums == len(data), "number of datums")
    ctx.check(info.number_of_labels == len(labels), "number of labels")
    ctx.check(eq(info.number_of_pixels, sum(d.n for d in data)), "number of pixels")
    ctx.check(eq(info.number_of_groundtruth_pixels, ssum([v for (g, p), v in c.items() if g is not None])), "number of ground-truth pixels")
    ctx.check(eq(info.number_of_prediction_pixels, ssum([v for (g, p), v in c.items() if p is not None])), "number of prediction pixels")


@task(
    "C12",
    lambda tier: Q(
        tier,
        [
            dict(shapes=[(1, 2)], gl=["a"], pl=["a"]),
            dict(shapes=[(2, 2)], gl=["a"], pl=["a"]),
            dict(shapes=[(1, 2)], gl=["a", "b"], pl=["a", "b"]),
            dict(shapes=[(1, 3)], gl=["a"], pl=["b", "a"]),
            dict(shapes=[(1, 2)], gl=["a"], pl=[]),
            dict(shapes=[(1, 2)], gl=[], pl=["a", "b"]),
            dict(shapes=[(1, 2)], gl=["a", "a"], pl=["a", "b"]),
            dict(shapes=[(1, 2)], gl=["a", "b"], pl=["b", "b"]),
            dict(shapes=[(1, 2), (1, 1)], gl=["a"], pl=["a", "b"]),
            dict(shapes=[(1, 2)], gl=["a", "b"], pl=["a", "b"], fill=300),
            dict(shapes=[(1, 1)], gl=["a"], pl=["a"], crowd=130),
        ],
        [
            dict(shapes=[(1, 3)], gl=["a", "b"], pl=["a", "b"]),
            dict(shapes=[(2, 2)], gl=["a", "b"], pl=["a"]),
            dict(shapes=[(1, 2)], gl=["a", "b", "c"], pl=["c", "a"]),
            dict(shapes=[(1, 2), (1, 2)], gl=["a", "b"], pl=["a"]),
        ],
    ),
    bounds="images of 2-4 pixels, up to 2 masks per side (3 thorough) over 3 labels incl. repeated labels and missing sides, 1-2 datums; every bitmap; also 2 symbolic pixels in an image of 602 and 1 symbolic datum among 130 concrete ones over 12 labels",
)
def pixels(ctx, shapes, gl, pl, fill=0, crowd=0):
    data = []
    for c in range(crowd):
        l = [f"k{c % 11}", f"k{(c * 5 + 3) % 11}"]
        data.append(Datum(f"c{c}", (1, 3), [(l[0], [True, c % 2 == 0, False])], [(l[c % 2], [c % 3 == 0, True, False])]))
    for k, sh in enumerate(shapes):
        data.append(datum(ctx, uid(k), sh, gl if k == 0 else gl[::-1], pl if k == 0 else pl[:1], fill=fill))
    ev = evaluator(ctx, data).finalize()
    labels = labels_of(data)
    check_metrics(ctx, ev.compute_precision_recall_iou(), data, labels)
    check_info(ctx, ev.info, data, labels)


# ---------------------------------------------------------------- C13 overlap
def resolved(masks, n):
    """what the masks should look like: the earliest mask keeps a pixel."""
    out = []
    for k, (l, px) in enumerate(masks):
        out.append((l, [and_(px[q], not_(or_(False, *[masks[j][1][q] for j in range(k)]))) for q in range(n)]))
    return out


@task(
    "C13",
    lambda tier: Q(
        tier,
        [
            dict(shape=(1, 2), ng=2, np_=2),
            dict(shape=(1, 2), ng=3, np_=1),
            dict(shape=(2, 1), ng=1, np_=3),
            dict(shape=(1, 3), ng=3, np_=0),
            dict(shape=(2, 2), ng=0, np_=3),
            dict(shape=(1, 2), ng=4, np_=0),
        ],
        [
            dict(shape=(1, 2), ng=3, np_=3),
            dict(shape=(2, 2), ng=4, np_=0),
            dict(shape=(1, 3), ng=0, np_=4),
            dict(shape=(1, 2), ng=0, np_=5),
        ],
    ),
    bounds="up to 4 masks on a side (5 thorough) over 2-4 pixels, every bitmap including overlaps",
)
def overlap(ctx, shape, ng, np_):
    import warnings

    d = datum(ctx, "d", shape, [f"g{i}" for i in range(ng)], [f"p{i}" for i in range(np_)], disjoint=False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        seg = segmentation(ctx, d)
    want_g, want_p = resolved(d.gts, d.n), resolved(d.pds, d.n)
    for got, want, what in ((seg.groundtruths, want_g, "ground truth"), (seg.predictions, want_p, "prediction")):
        ctx.check(len(got) == len(want), f"number of {what} masks")
        flat = []
        for m, (l, px) in zip(got, want):
            ctx.check(m.label == l, f"label of a {what} mask")
            ctx.check(tuple(m.mask.shape) == tuple(shape), f"shape of a {what} mask")
            vals = [m.mask[r, c] for r in range(shape[0]) for c in range(shape[1])]
            flat.append(vals)
            for q in range(d.n):
                ctx.check(iff(vals[q], px[q]), f"pixels of a {what} mask after construction")
        for q in range(d.n):
            ctx.check(isum([v[q] for v in flat]) <= 1, f"pixel in two {what} masks")
    ctx.check(seg.size == d.n, "size")
    # the metrics therefore see each pixel once
    if ng + np_ <= 3:
        S = ctx.mod("semantic_segmentation")
        loader = S.Loader.in_memory()
        loader.add_data([seg])
        info = loader.finalize().info
        ctx.check(eq(info.number_of_pixels, d.n), "number of pixels")


@task(
    "C13",
    [dict()],
    bounds="mask shapes up to 3x3 against a declared shape up to 3x3 (all combinations of 1-3 rows/columns), either side; boolean and integer dtypes",
)
def shapes(ctx):
    S = ctx.mod("semantic_segmentation")
    np = ctx.np
    rows, cols = ctx.int("rows", 0, 3), ctx.int("cols", 0, 3)
    mr, mc = ctx.choose("mr", [1, 2, 3]), ctx.choose("mc", [1, 2, 3])
    where = ctx.choose("where", ["gt", "pd", "both"])
    kind = ctx.choose("kind", ["bool", "int", "float"])
    dt = {"bool": np.bool_, "int": np.int64, "float": np.float64}[kind]
    mask = np.zeros((mr, mc), dtype=dt)
    try:
        b = S.Bitmask(mask=mask, label="a")
    except ValueError:
        ctx.check(kind != "bool", "boolean mask refused")
        return
    ctx.check(kind == "bool", "non-boolean mask accepted")
    try:
        seg = S.Segmentation(uid="u", groundtruths=[b] if where != "pd" else [], predictions=[b] if where != "gt" else [], shape=(rows, cols))
    except ValueError:
        ctx.check(not_(and_(rows >= mr, rows <= mr, cols >= mc, cols <= mc)), "matching mask refused")
        return
    ctx.check(and_(rows >= mr, rows <= mr, cols >= mc, cols <= mc), "mask of a different shape accepted")
    ctx.check(eq(seg.size, mr * mc), "size")


# ---------------------------------------------------------------- C14 filtering
@task(
    "C14",
    lambda tier: Q(
        tier,
        [
            dict(shapes=[(1, 2), (1, 1)], gl=["a"], pl=["a", "b"], how="param", by="tag", first=True),
            dict(shapes=[(1, 2), (1, 1)], gl=["a"], pl=["a", "b"], how="filter", by="uid"),
            dict(shapes=[(1, 1), (1, 1), (1, 1)], gl=["a"], pl=["a"], how="filter", by="tag", rows=1),
            dict(shapes=[(1, 1), (1, 1), (1, 1)], gl=["a"], pl=["a"], how="param", by="tag", rows=1),
            dict(shapes=[(1, 2)], gl=["a", "b"], pl=["a", "b"], how="gt", by="meta"),
            dict(shapes=[(1, 2)], gl=["a", "b"], pl=["b", "a"], how="pd", by="label"),
            dict(shapes=[(1, 2)], gl=["a", "b"], pl=["a", "b"], how="both", by="meta"),
            dict(shapes=[(1, 2), (1, 2)], gl=["a", "b"], pl=["a"], how="gt", by="label", rows=1),
            dict(shapes=[(1, 2), (1, 1)], gl=["a"], pl=["a"], how="both", by="meta", rows=4),
            dict(shapes=[(1, 2), (1, 1)], gl=["a"], pl=["a"], how="all", by="meta"),
            dict(shapes=[(1, 2), (1, 1)], gl=["a"], pl=["a"], how="chain", by="meta", rows=1),
            dict(shapes=[(1, 2), (1, 1)], gl=["a"], pl=["a"], how="gt", by="datum"),
            dict(shapes=[(1, 2), (1, 1)], gl=["a"], pl=["a", "b"], how="pd", by="datum", rows=2),
            dict(shapes=[(1, 1), (1, 1)], gl=["a"], pl=["a"], how="both", by="datum"),
            dict(shapes=[(1, 1)], gl=["a"], pl=["a"], how="both", by="meta", many=20),
            dict(shapes=[(1, 1)], gl=["a"], pl=["b"], how="both", by="label", many=20, rows=64),
        ],
        [
            dict(shapes=[(1, 2), (1, 2)], gl=["a", "b"], pl=["a"], how="all", by="meta", rows=2),
            dict(shapes=[(1, 2), (1, 2)], gl=["a", "b"], pl=["a"], how="chain", by="meta"),
            dict(shapes=[(1, 2), (1, 2)], gl=["a", "b"], pl=["a", "b"], how="filter", by="tag"),
            dict(shapes=[(1, 3)], gl=["a", "b"], pl=["b", "a"], how="both", by="meta"),
            dict(shapes=[(1, 2), (1, 2)], gl=["a", "b"], pl=["a"], how="both", by="meta", rows=1),
        ],
    ),
    bounds="1-3 datums of 1-3 pixels, up to 2 masks per side over 2 labels; every bitmap and every subset of datums, ground truths and/or predictions by metadata (of the mask or its datum), uid or label; filter() and datums=, in memory and on disk; also behind a concrete datum of 20 labels",
)
def filtering(ctx, shapes, gl, pl, how, by, rows=None, many=0, first=False):
    S = ctx.mod("semantic_segmentation")
    pc = ctx.pc
    fields = [("tag", "string"), ("gtag", "string"), ("ptag", "string")]
    data = [datum(ctx, uid(k), sh, gl, pl) for k, sh in enumerate(shapes)]
    if many:
        ls = ["a", "b"] + [f"k{k}" for k in range(2, many)]
        each = lambda turn: [(l, [q == (k + turn) % many for q in range(many)]) for k, l in enumerate(ls)]
        data.insert(0, Datum("m0", (1, many), each(0), each(3)))
    labels = labels_of(data)
    keepd = data
    keep = {d.uid: (set(range(len(d.gts))), set(range(len(d.pds)))) for d in data}
    args = {}
    every = how in ("all", "chain")
    if how in ("param", "filter") or every:
        keepd = []
        for d in data:
            d.meta = {"tag": ctx.choose("t" + d.uid, ["x", "y"])}
            if d.meta["tag"] == "x":
                keepd.append(d)
        args["datums"] = pc.field("tag") == "x" if by != "uid" else pc.field("datum_uid").isin([d.uid for d in keepd] + ["none"])
    if how in ("gt", "both") or every:
        for d in data:
            if by == "meta":
                d.gmeta = {k: {"gtag": ctx.choose(f"tg{d.uid}{k}", ["x", "y"]) if d.uid != "m0" else "xy"[k % 3 > 0]} for k in range(len(d.gts))}
                sel = {k for k in d.gmeta if d.gmeta[k]["gtag"] == "x"}
            elif by == "datum":
                d.meta = {"tag": ctx.choose("t" + d.uid, ["x", "y"])}
                sel = set(range(len(d.gts))) if d.meta["tag"] == "x" else set()
            else:
                sel = {k for k, (l, _) in enumerate(d.gts) if l == "a"}
            keep[d.uid] = (sel, keep[d.uid][1])
        args["groundtruths"] = {"meta": pc.field("gtag") == "x", "datum": pc.field("tag") == "x"}.get(by, pc.field("gt_label") == "a")
    if how in ("pd", "both") or every:
        for d in data:
            if by == "meta":
                d.pmeta = {k: {"ptag": ctx.choose(f"tp{d.uid}{k}", ["x", "y"]) if d.uid != "m0" else "xy"[k % 3 < 2]} for k in range(len(d.pds))}
                sel = {k for k in d.pmeta if d.pmeta[k]["ptag"] == "x"}
            elif by == "datum":
                d.meta = {"tag": ctx.choose("t" + d.uid, ["x", "y"])}
                sel = set(range(len(d.pds))) if d.meta["tag"] == "x" else set()
            else:
                sel = {k for k, (l, _) in enumerate(d.pds) if l == "a"}
            keep[d.uid] = (keep[d.uid][0], sel)
        args["predictions"] = {"meta": pc.field("ptag") == "x", "datum": pc.field("tag") == "x"}.get(by, pc.field("pd_label") == "a")
    loader = path = None
    if rows is not None:
        loader = S.Loader.persistent(ctx.scratch(), batch_size=1, rows_per_file=rows, metadata_fields=fields)
        path = ctx.scratch()
    ev = evaluator(ctx, data, loader=loader, fields=fields).finalize()
    if first:
        ev.compute_precision_recall_iou()
    check_info(ctx, ev.get_info(**args), keepd, labels, keep)
    if how == "param":
        check_metrics(ctx, ev.compute_precision_recall_iou(**args), keepd, labels, keep) if keepd else None
        return
    if not keepd:
        try:
            ev.filter(path=path, **args)
        except ctx.mod("exceptions").EmptyCacheError:
            return
        ctx.check(False, "an empty selection yields an evaluator")
    if how == "chain":
        src = ev
        for k in sorted(args):
            src = src.filter(path=ctx.scratch() if rows else None, **{k: args[k]})
    else:
        src = ev.filter(path=path, **args)
    check_metrics(ctx, src.compute_precision_recall_iou(), keepd, labels, keep)
    check_info(ctx, src.info, keepd, labels, keep)
