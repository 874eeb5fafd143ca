"""Queries leave an evaluator, earlier answers and arguments as they were."""
from symx.logic import and_

from . import h_classification as hc
from . import h_detection as hd
from . import h_segmentation as hs
from . import od, task
from .common import eq, uid
from .h_cache import Q

TAG = [("tag", "string")]


def sequence(ctx, ev, ops, n):
    """n queries in any order; all answers are checked at the end."""
    done = []
    for k in range(n):
        name = ctx.choose(f"op{k}", list(ops))
        run, verify = ops[name]
        done.append((name, run(ev), verify))
    for name, out, verify in done:
        verify(out)


def same_list(ctx, now, before, what):
    ctx.check(len(now) == len(before), what)
    for a, b in zip(now, before):
        ctx.check(eq(a, b), what)


def store(ctx, mod, rows):
    M = ctx.mod(mod)
    if rows is None:
        return M.Loader.in_memory(metadata_fields=list(TAG))
    return M.Loader.persistent(ctx.scratch(), batch_size=1, rows_per_file=rows, metadata_fields=list(TAG))


@task(
    "C26",
    lambda tier: Q(
        tier,
        [dict(n=2, hardmax=True, free=1), dict(n=2, hardmax=False, free=1, rows=1, thr=False)],
        [dict(n=3, hardmax=True, free=1, thr=False), dict(n=2, hardmax=False, free=2), dict(n=2, hardmax=False, free=1, rows=1)],
    ),
    bounds="every sequence of 2 queries (3 thorough) of a classification evaluator with 3 datums, 1 of them with a symbolic score; symbolic threshold; in memory and on disk",
)
def classification(ctx, n, hardmax, free, rows=None, thr=True):
    pc = ctx.pc
    labels = ["b", "a"]
    data = []
    for d in range(3):
        s = hc.score(ctx, f"s{d}") if d < free else [0.0, 0.25, 0.75][d]
        data.append((uid(d), labels[d % 2], labels, {"b": s, "a": 0.5}))
    keep, rest = data[::2], data[1:]
    loader = store(ctx, "classification", rows)
    ev = hc.build(ctx, data, meta=["x", "y", "x"], loader=loader).finalize()
    t = hc.threshold(ctx, "t") if thr else 0.5
    thrs = [t, 0.125]
    given = list(thrs)
    kw = dict(score_thresholds=given, hardmax=hardmax)
    x = pc.field("tag") == "x"

    def other(_):
        C = ctx.mod("classification")
        l2 = C.Loader.in_memory()
        l2.add_data([C.Classification(uid="q", groundtruth="c", predictions=["c", "b"], scores=[0.75, 0.25])])
        e2 = l2.finalize()
        return e2, e2.compute_precision_recall(**kw)

    def check_other(r):
        e2, pr = r
        d2 = [("q", "c", ["c", "b"], {"c": 0.75, "b": 0.25})]
        hc.check_counts(ctx, pr, d2, thrs, hardmax, ["c", "b"])
        ctx.check(e2.info.number_of_labels == 2 and e2.info.number_of_datums == 1 and not e2.info.metadata_fields, "info of another evaluator")

    def check_filtered(f):
        hc.check_counts(ctx, f.compute_precision_recall(**kw), keep, thrs, hardmax, labels)
        hc.check_rocauc(ctx, f.compute_rocauc(), keep, labels)

    def check_deleted(r):
        ctx.check(r.number_of_datums == 3, "number of datums")

    ops = {
        "pr": (lambda e: e.compute_precision_recall(**kw), lambda r: hc.check_counts(ctx, r, data, thrs, hardmax, labels)),
        "pr of x": (lambda e: e.compute_precision_recall(datums=x, **kw), lambda r: hc.check_counts(ctx, r, keep, thrs, hardmax, labels)),
        "roc": (lambda e: e.compute_rocauc(), lambda r: hc.check_rocauc(ctx, r, data, labels)),
        "cm": (lambda e: e.compute_confusion_matrix(**kw), lambda r: hc.check_cm(ctx, r, data, thrs, hardmax, labels)),
        "cm of x": (lambda e: e.compute_confusion_matrix(datums=x, **kw), lambda r: hc.check_cm(ctx, r, keep, thrs, hardmax, labels)),
        "examples": (lambda e: e.compute_examples(**kw), lambda r: hc.check_examples(ctx, r, data, thrs, hardmax)),
        "page": (lambda e: e.compute_examples(limit=2, offset=1, **kw), lambda r: hc.check_examples(ctx, r, rest, thrs, hardmax)),
        "cm examples": (lambda e: e.compute_confusion_matrix_with_examples(**kw), lambda r: hc.check_cm_examples(ctx, r, data, thrs, hardmax, labels)),
        "info": (lambda e: e.info, check_deleted),
        "info of x": (lambda e: e.get_info(datums=x), lambda r: ctx.check(r.number_of_datums == 2, "number of datums of the selection")),
        "filter": (lambda e: e.filter(datums=x, path=None if rows is None else ctx.scratch()), check_filtered),
        "other": (other, check_other),
        "default": (lambda e: e.compute_precision_recall(), lambda r: hc.check_counts(ctx, r, data, [0.0], True, labels)),
    }
    sequence(ctx, ev, ops, n)
    same_list(ctx, given, thrs, "the list of thresholds that was passed changed")


@task(
    "C26",
    lambda tier: Q(
        tier,
        [dict(n=2, rows=None), dict(n=2, rows=1, some=["pr", "cm of x", "filter", "page", "info of x", "other"])],
        [dict(n=3, rows=None, some=["pr", "pr of x", "cm", "cm of x", "filter", "other"]), dict(n=2, rows=2)],
    ),
    bounds="every sequence of 2 queries (3 thorough) of a detection evaluator with 3 datums of 1 ground truth and 1 prediction, 1 symbolic IoU and threshold; in memory and on disk",
    routes=od.ROUTES,
)
def detection(ctx, n, rows, some=None):
    pc = ctx.pc
    scenes = [od.scene(ctx, uid(0), 1, 1, glabels=["b"], plabels=["b"], scores=[0.75])]
    scenes.append(od.Scene(uid(1), [("n9", "a")], [("n9", ["b"], [0.5])], [[0.5]]))
    scenes.append(od.Scene(uid(2), [("n9", "b")], [("n9", ["b"], [0.25])], [[0.75]]))
    for s, t in zip(scenes, "xyx"):
        s.meta = {"tag": t}
    keep, rest = scenes[::2], scenes[1:]
    labels = ["b", "a"]
    ev = od.load(ctx, scenes, loader=store(ctx, "object_detection", rows)).finalize()
    tis, tss = [hd.thr_iou(ctx, "ti"), 0.625], [0.5, 0.0]
    gi, gs = list(tis), list(tss)
    kw = dict(iou_thresholds=gi, score_thresholds=gs)
    x = pc.field("tag") == "x"

    def pr(sel):
        def verify(r):
            hd.check_counts(ctx, r, sel, tis, tss, labels)
            hd.check_average(ctx, r, sel, tis, tss, labels)

        return verify

    other_scene = [od.Scene("q", [("n9", "c")], [("n8", ["c"], [0.5])], [[0.75]])]

    def other(_):
        e2 = od.load(ctx, other_scene).finalize()
        return e2, e2.compute_precision_recall(**kw)

    def check_other(r):
        e2, out = r
        hd.check_counts(ctx, out, other_scene, tis, tss, ["c"])
        ctx.check(e2.info.number_of_labels == 1 and e2.info.number_of_datums == 1 and not e2.info.metadata_fields, "info of another evaluator")

    def check_filtered(f):
        pr(keep)(f.compute_precision_recall(**kw))
        hd.check_cm(ctx, f.compute_confusion_matrix(**kw), keep, tis, tss, labels)

    def info(nd):
        return lambda r: ctx.check(r.number_of_datums == nd and r.number_of_groundtruth_annotations == nd and r.number_of_prediction_annotations == nd, "info")

    ops = {
        "pr": (lambda e: e.compute_precision_recall(**kw), pr(scenes)),
        "pr of x": (lambda e: e.compute_precision_recall(datums=x, **kw), pr(keep)),
        "cm": (lambda e: e.compute_confusion_matrix(**kw), lambda r: hd.check_cm(ctx, r, scenes, tis, tss, labels)),
        "cm of x": (lambda e: e.compute_confusion_matrix(datums=x, **kw), lambda r: hd.check_cm(ctx, r, keep, tis, tss, labels)),
        "examples": (lambda e: e.compute_examples(**kw), lambda r: hd.check_examples(ctx, r, scenes, tis, tss)),
        "page": (lambda e: e.compute_examples(limit=2, offset=1, **kw), lambda r: hd.check_examples(ctx, r, rest, tis, tss)),
        "cm examples": (lambda e: e.compute_confusion_matrix_with_examples(**kw), lambda r: hd.check_cm_examples(ctx, r, scenes, tis, tss, labels)),
        "info": (lambda e: e.info, info(3)),
        "info of x": (lambda e: e.get_info(datums=x), info(2)),
        "filter": (lambda e: e.filter(datums=x, path=None if rows is None else ctx.scratch()), check_filtered),
        "other": (other, check_other),
    }
    sequence(ctx, ev, {k: v for k, v in ops.items() if not some or k in some}, n)
    same_list(ctx, gi, tis, "the list of IoU thresholds that was passed changed")
    same_list(ctx, gs, tss, "the list of score thresholds that was passed changed")


@task(
    "C26",
    lambda tier: Q(tier, [dict(n=2, rows=None), dict(n=3, rows=1, fixed=True)], [dict(n=3, rows=2)]),
    bounds="every sequence of 2-3 queries of a segmentation evaluator with 2 datums of 1-2 pixels, every bitmap; in memory and on disk",
)
def segmentation(ctx, n, rows, fixed=False):
    pc = ctx.pc
    data = [hs.datum(ctx, uid(0), (1, 1 if fixed else 2), ["b"], ["a"]), hs.datum(ctx, uid(1), (1, 1), ["a"], ["b"])]
    for d, t in zip(data, "xy"):
        d.meta = {"tag": t}
    labels = hs.labels_of(data)
    ev = hs.evaluator(ctx, data, loader=store(ctx, "semantic_segmentation", rows)).finalize()
    x, keep = pc.field("tag") == "x", data[:1]
    other_data = [hs.Datum("q", (1, 2), [("c", [True, False])], [("c", [True, True])])]

    def other(_):
        e2 = hs.evaluator(ctx, other_data).finalize()
        return e2.compute_precision_recall_iou()

    ops = {
        "pr": (lambda e: e.compute_precision_recall_iou(), lambda r: hs.check_metrics(ctx, r, data, labels)),
        "pr of x": (lambda e: e.compute_precision_recall_iou(datums=x), lambda r: hs.check_metrics(ctx, r, keep, labels)),
        "info": (lambda e: e.info, lambda r: hs.check_info(ctx, r, data, labels)),
        "info of x": (lambda e: e.get_info(datums=x), lambda r: hs.check_info(ctx, r, keep, labels)),
        "filter": (lambda e: e.filter(datums=x, path=None if rows is None else ctx.scratch()), lambda f: hs.check_metrics(ctx, f.compute_precision_recall_iou(), keep, labels)),
        "other": (other, lambda r: hs.check_metrics(ctx, r, other_data, ["c"])),
    }
    sequence(ctx, ev, ops, n)
