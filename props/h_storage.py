"""Metrics do not depend on storage, batching or loading."""
from symx.logic import and_, approx

from . import h_classification as hc
from . import h_detection as hd
from . import h_segmentation as hs
from . import od, task
from .common import eq, uid
from .h_cache import Q

FIELDS = [("tag", "string"), ("num", "float64"), ("Site Name", "int64"), ("gt", "bool")]


def make_loader(ctx, mod, store, top=6):
    """loader over symbolic chunk sizes; store is mem, file or reload."""
    M = ctx.mod(mod)
    batch = ctx.int("batch", 1, top)
    if store == "mem":
        return M.Loader.in_memory(batch_size=batch, metadata_fields=list(FIELDS)), None
    path = ctx.scratch()
    per = ctx.int("per_file", 1, top)
    return M.Loader.persistent(path, batch_size=batch, rows_per_file=per, metadata_fields=list(FIELDS)), path


def finish(ctx, mod, loader, path, store, fin=True):
    M = ctx.mod(mod)
    ev = loader.finalize(batch_size=ctx.choose("fin", [1, 2])) if fin else loader.finalize()
    if store != "reload":
        return ev
    ev2 = M.Evaluator.load(path)
    a, b = ev.info, ev2.info
    ctx.check([(k, str(v)) for k, v in a.metadata_fields] == [(k, str(v)) for k, v in b.metadata_fields], "metadata fields after reloading")
    for f in vars(a):
        if f != "metadata_fields":
            ctx.check(eq(getattr(a, f), getattr(b, f)), f"{f} after reloading")
    return ev2


STORES = ["mem", "file", "reload"]


@task(
    "C18",
    lambda tier: Q(
        tier,
        [dict(nd=2, store=s, one=o) for s, o in (("mem", True), ("file", True), ("reload", False))] + [dict(nd=3, store="reload", one=True, fixed=True), dict(nd=3, store="file", one=False, fixed=True), dict(nd=1, store="reload", one=True, crowd=13), dict(nd=1, store="mem", one=False, crowd=13)],
        [dict(nd=3, store=s, one=True) for s in STORES] + [dict(nd=4, store="reload", one=True, fixed=True)],
    ),
    bounds="2-3 classification datums (4 thorough) x 2 labels with symbolic scores; batch size and rows per file symbolic in 1..6, finalize batch size 1-2; added together or one by one; in memory, on disk, reloaded; also after 13 concrete datums",
)
def classification(ctx, nd, store, one, fixed=False, crowd=0):
    labels, data = hc.dataset(ctx, nd, 2, "norm", gts=[0, 1, 0, 1][:nd])
    data = [(f"c{k}", "baa"[k % 3], ["b", "a"], {"b": (k * 5 % 13) / 16, "a": 1 - (k * 5 % 13) / 16}) for k in range(crowd)] + data
    nd += crowd
    if fixed:
        data[2:] = [(u, gt, order, {"a": 0.5, "b": 0.5}) for u, gt, order, sc in data[2:]]
    loader, path = make_loader(ctx, "classification", store)
    ev = finish(ctx, "classification", hc.build(ctx, data, loader=loader, add="one" if one else "all"), path, store)
    thr = 0.25
    kw = dict(score_thresholds=[thr], hardmax=True)
    hc.check_counts(ctx, ev.compute_precision_recall(**kw), data, [thr], True, labels)
    hc.check_cm(ctx, ev.compute_confusion_matrix(**kw), data, [thr], True, labels)
    hc.check_rocauc(ctx, ev.compute_rocauc(), data, labels)
    hc.check_examples(ctx, ev.compute_examples(**kw), data, [thr], True)
    hc.check_cm_examples(ctx, ev.compute_confusion_matrix_with_examples(**kw), data, [thr], True, labels)
    i = ev.info
    ctx.check(i.number_of_datums == nd and i.number_of_labels == 2, "number of datums and labels")


@task(
    "C18",
    lambda tier: Q(
        tier,
        [
            dict(shapes=[(1, 1), (1, 1)], store="mem", one=True),
            dict(shapes=[(1, 1), (1, 1)], store="file", one=True),
            dict(shapes=[(1, 1), (1, 1)], store="reload", one=False),
            dict(shapes=[(1, 2), (1, 1)], store="reload", one=True, fixed=True),
            dict(shapes=[(2, 1), (0, 1)], store="file", one=True, fixed=True),
            dict(shapes=[(1, 1), (1, 0), (1, 1)], store="file", one=False, fixed=True),
            dict(shapes=[(1, 1)], store="reload", one=True, fixed=True, crowd=13),
            dict(shapes=[(1, 1)], store="mem", one=False, fixed=True, crowd=13),
        ],
        [
            dict(shapes=[(1, 2), (1, 1)], store="file", one=True),
            dict(shapes=[(2, 1), (1, 1)], store="reload", one=True),
            dict(shapes=[(1, 1), (1, 1), (1, 1)], store="file", one=True, fixed=True),
            dict(shapes=[(2, 2), (1, 1)], store="file", one=True, fixed=True),
        ],
    ),
    bounds="2-3 detection datums of up to 2 x 2 annotations, symbolic IoUs (and scores in three configurations); batch size and rows per file symbolic in 1..4, finalize batch size 1-2; added together or one by one; in memory, on disk, reloaded",
    routes=od.ROUTES,
    assumptions=[hd.MATCH_NOTE],
)
def detection(ctx, shapes, store, one, fixed=False, crowd=0):
    scenes = hd.scenes_from(ctx, [], crowd=crowd) if crowd else []
    for k, (g, p) in enumerate(shapes):
        sc = [0.75, 0.25] if k else [0.5, 0.625]
        scenes.append(od.scene(ctx, uid(k), g, p, glabels=["a", "a"][:g], plabels=["a", "b" if fixed else "a"][:p], scores=sc[:p] if fixed else None))
    hd.no_pair_ties(ctx, scenes)
    hd.generic(ctx, scenes)
    hd.no_rank_ties(ctx, scenes)
    loader, path = make_loader(ctx, "object_detection", store, top=4)
    ev = finish(ctx, "object_detection", od.load(ctx, scenes, loader=loader, one_by_one=one), path, store)
    labels = hd.labels_of(scenes)
    tis, tss = [0.5], [0.25]
    kw = dict(iou_thresholds=tis, score_thresholds=tss)
    out = ev.compute_precision_recall(**kw)
    hd.check_counts(ctx, out, scenes, tis, tss, labels)
    hd.check_average(ctx, out, scenes, tis, tss, labels)
    hd.check_cm(ctx, ev.compute_confusion_matrix(**kw), scenes, tis, tss, labels)
    hd.check_examples(ctx, ev.compute_examples(**kw), scenes, tis, tss)
    hd.check_cm_examples(ctx, ev.compute_confusion_matrix_with_examples(**kw), scenes, tis, tss, labels)
    i = ev.info
    ctx.check(i.number_of_datums == len(scenes), "number of datums")
    ctx.check(i.number_of_groundtruth_annotations == sum(len(s.gts) for s in scenes), "number of ground truths")
    ctx.check(i.number_of_prediction_annotations == sum(len(s.pds) for s in scenes), "number of predictions")


def flat(x):
    """nested answers as a list of paths and leaves."""
    if isinstance(x, dict):
        return [(str(k),) + q for k in sorted(x, key=str) for q in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [(str(k),) + q for k, v in enumerate(x) for q in flat(v)]
    return [(x,)]


def same_answers(ctx, a, b, what):
    """two lists of metrics that say the same."""
    a, b = ([m for ms in x.values() for m in ms] if isinstance(x, dict) else list(x) for x in (a, b))
    ctx.check(len(a) == len(b), f"{what}: number of metrics")
    for m, n in zip(a, b):
        fm, fn = flat({"t": m.type, "p": m.parameters, "v": m.value}), flat({"t": n.type, "p": n.parameters, "v": n.value})
        ctx.check([q[:-1] for q in fm] == [q[:-1] for q in fn], f"{what}: structure of {m.type}")
        for p, q in zip(fm, fn):
            ctx.check(p[-1] == q[-1] if isinstance(p[-1], str) or p[-1] is None else approx(p[-1], q[-1]), f"{what}: {m.type} differs at {p[:-1]}")


@task(
    "C18",
    lambda tier: Q(
        tier,
        [dict(shapes=[(1, 1), (1, 1)], store=s) for s in ("file", "reload")] + [dict(shapes=[(1, 2)], store="file")],
        [dict(shapes=[(2, 1), (1, 1)], store="reload"), dict(shapes=[(1, 1), (0, 1), (1, 1)], store="file")],
    ),
    bounds="predictions of two labels each (1-3 datums, symbolic IoUs): the answers on disk and reloaded, with 1-4 rows per file and any batch size, are those in memory",
    routes=od.ROUTES,
)
def several_labels(ctx, shapes, store):
    scenes = []
    for k, (g, p) in enumerate(shapes):
        sc = od.scene(ctx, uid(k), g, p, glabels=["a", "b"][:g], plabels=["a", "b"][:p], scores=[0.75, 0.5][:p])
        sc.pds = [(u, ["a", "b"] if (k + j) % 2 else ["b", "a"], [0.75 - k / 8 - j / 4, 0.25 - k / 16 - j / 8]) for j, (u, _, _) in enumerate(sc.pds)]
        scenes.append(sc)
    hd.no_pair_ties(ctx, scenes)
    hd.generic(ctx, scenes)
    plain = od.load(ctx, scenes, loader=ctx.mod("object_detection").Loader.in_memory(metadata_fields=list(FIELDS))).finalize()
    loader, path = make_loader(ctx, "object_detection", store, top=4)
    ev = finish(ctx, "object_detection", od.load(ctx, scenes, loader=loader, one_by_one=True), path, store)
    kw = dict(iou_thresholds=[0.5, 0.25], score_thresholds=[0.2])
    same_answers(ctx, ev.compute_precision_recall(**kw), plain.compute_precision_recall(**kw), "metrics")
    same_answers(ctx, ev.compute_confusion_matrix(**kw), plain.compute_confusion_matrix(**kw), "confusion matrix")
    kw["iou_thresholds"] = [0.5]
    bydatum = lambda e: sorted(e.compute_examples(**kw), key=lambda m: m.value["datum_id"])
    for a, b in zip(bydatum(ev), bydatum(plain)):
        ctx.check(a.value["datum_id"] == b.value["datum_id"], "examples: datums")
        for f in ("true_positives", "false_positives", "false_negatives"):
            ctx.check(sorted(map(str, a.value[f])) == sorted(map(str, b.value[f])), f"examples: {f}")
    i, j = ev.info, plain.info
    for f in ("number_of_datums", "number_of_labels", "number_of_groundtruth_annotations", "number_of_prediction_annotations"):
        ctx.check(eq(getattr(i, f), getattr(j, f)), f"info: {f}")


@task(
    "C18",
    lambda tier: Q(
        tier,
        [
            dict(shapes=[(1, 2), (1, 1)], store="mem", one=True),
            dict(shapes=[(1, 2), (1, 1)], store="file", one=True),
            dict(shapes=[(1, 1), (1, 2)], store="reload", one=False),
        ],
        [dict(shapes=[(1, 2), (1, 2)], store="reload", one=True), dict(shapes=[(1, 1), (1, 1), (1, 1)], store="file", one=True)],
    ),
    bounds="2 segmentation datums (3 thorough) of 1-2 pixels, 1-2 masks per side, every bitmap; batch size and rows per file symbolic in 1..8; in memory, on disk, reloaded",
)
def segmentation(ctx, shapes, store, one):
    data = [hs.datum(ctx, uid(k), sh, ["a"] if k == 0 else ["b"], ["a", "b"] if k == 0 else ["b"]) for k, sh in enumerate(shapes)]
    loader, path = make_loader(ctx, "semantic_segmentation", store, top=8)
    ev = finish(ctx, "semantic_segmentation", hs.evaluator(ctx, data, loader=loader, one_by_one=one), path, store, fin=False)
    labels = hs.labels_of(data)
    hs.check_metrics(ctx, ev.compute_precision_recall_iou(), data, labels)
    hs.check_info(ctx, ev.info, data, labels)


def _types(ctx):
    pa = ctx.pa
    return {
        "alias": lambda: "double",
        "string": pa.string,
        "flag": pa.bool_,
        "time": lambda: pa.timestamp("us"),
        "time in a zone": lambda: pa.timestamp("us", "UTC"),
        "date": pa.date32,
        "list": lambda: pa.list_(pa.string()),
        "decimal": lambda: pa.decimal128(5, 2),
    }


@task(
    "C18",
    lambda tier: [dict(mod=m) for m in ("classification", "object_detection", "semantic_segmentation")],
    bounds="an evaluator on disk with one to two metadata fields of 8 types under odd names; reloaded, and filtered before and after reloading by a datum filter with symbolic bound",
    routes=od.ROUTES,
)
def reloaded(ctx, mod):
    M = ctx.mod(mod)
    types = _types(ctx)
    first = ctx.choose("first", sorted(types))
    second = ctx.choose("second", ["none", "alias"]) if first == "string" else "alias"
    fields = [("Capture Info", types[first]())] + ([("b.c", types[second]())] if second != "none" else [])
    path = ctx.scratch("ev")
    loader = M.Loader.persistent(path, batch_size=2, rows_per_file=ctx.int("per", 1, 2), metadata_fields=list(fields))
    if mod == "classification":
        labels, data = hc.dataset(ctx, 2, 2, "norm", gts=[0, 1])
        hc.build(ctx, data, loader=loader)
        answers = lambda e: e.compute_precision_recall(score_thresholds=[0.25], hardmax=True)
    elif mod == "object_detection":
        scenes = [od.scene(ctx, uid(k), 1, 1, glabels=["a"], plabels=["a"], scores=[0.5 + k / 4]) for k in range(2)]
        hd.generic(ctx, scenes)
        od.load(ctx, scenes, loader=loader, one_by_one=True)
        answers = lambda e: e.compute_precision_recall(iou_thresholds=[0.5], score_thresholds=[0.25])
    else:
        hs.evaluator(ctx, [hs.datum(ctx, uid(k), (1, 1), ["a"], ["a"]) for k in range(2)], loader=loader, one_by_one=True)
        answers = lambda e: e.compute_precision_recall_iou()
    ev = loader.finalize()
    back = M.Evaluator.load(path)
    show = lambda e: [(k, str(v)) for k, v in e.info.metadata_fields]
    ctx.check([k for k, _ in ev.info.metadata_fields] == [k for k, _ in fields], "metadata fields")
    ctx.check(show(back) == [(k, "double" if v == "double" else str(v)) for k, v in fields], "metadata fields after reloading")
    same_answers(ctx, answers(back), answers(ev), "reloaded")
    low = ctx.int("low", 0, 1)
    one = ev.filter(datums=ctx.pc.field("datum_id") >= low, path=ctx.scratch("f1"))
    two = back.filter(datums=ctx.pc.field("datum_id") >= low, path=ctx.scratch("f2"))
    three = M.Evaluator.load(ctx.scratch("f2"), index_to_label_override=dict(ev._index_to_label))
    ctx.check(show(two) == show(back) and show(three) == show(back), "metadata fields of a filtered reload")
    for e, what in ((two, "filtered after reloading"), (three, "filtered and reloaded again")):
        same_answers(ctx, answers(e), answers(one), what)
        for f in vars(one.info):
            if f != "metadata_fields":
                ctx.check(eq(getattr(e.info, f), getattr(one.info, f)), f"{what}: {f}")
