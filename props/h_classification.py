"""Classification: counts, ROC AUC, confusion matrices, examples, filtering."""
from symx.logic import and_, approx, iff, implies, isum, ite, not_, or_, ssum

from . import task
from .common import ABC, eq, is_ratio, score, uid


# ---------------------------------------------------------------- inputs
def dataset(ctx, nd, nl, scores="free", sparse=False, perm=False, gts=None, crowd=0):
    """nd datums, each with a ground truth and one score per label.

    scores: free   every score is its own symbol
            norm   two labels, scores s and 1 - s
            shared one symbol per label, shared by every second datum
    """
    labels = ABC[:nl]
    data = []
    # concrete datums in front, so that identifiers and labels of the symbolic ones are large
    for c in range(crowd):
        k = [f"k{c % 11}", f"k{(c * 5 + 3) % 11}"]
        order = k if k[0] != k[1] else k[:1]
        data.append((f"c{c}", k[c % 2] if k[c % 2] in order else k[0], order, {l: (1 + (c * 7 + 4 * i) % 8) / 8 for i, l in enumerate(order)}))
    for d in range(nd):
        if gts is not None:
            gt = labels[gts[d]]
        else:
            # relabelling symmetry: the first datum's label is fixed
            gt = labels[0] if d == 0 else ctx.choose(f"gt{d}", labels)
        order = list(labels)
        if perm and ctx.flag(f"rev{d}"):
            order.reverse()
        if sparse:
            keep = ctx.choose(f"keep{d}", [m for m in range(1, 2 ** nl)])
            order = [l for i, l in enumerate(order) if keep >> i & 1]
        if scores == "norm":
            s = score(ctx, f"s{d}")
            ctx.assume(or_(s >= 1.0, s <= 1.0 - 1e-6))
            sc = {labels[0]: s, labels[1]: 1.0 - s}
        elif scores == "fixed":
            sc = {l: 0.25 + 0.5 * ((d + i) % 2) for i, l in enumerate(order)}
        else:
            sc = {l: score(ctx, f"s{d}{l}") for l in order}
        data.append((uid(d), gt, order, sc))
    return labels, data


def used_labels(data):
    out = []
    for _, gt, order, _ in data:
        for l in [gt, *order]:
            if l not in out:
                out.append(l)
    return out


def build(ctx, data, meta=None, loader=None, add="all"):
    C = ctx.mod("classification")
    if loader is None:
        loader = C.Loader.in_memory(metadata_fields=[("tag", "string")] if meta else None)
    items = [
        C.Classification(
            uid=u,
            groundtruth=gt,
            predictions=list(order),
            scores=[sc[l] for l in order],
            metadata={"tag": meta[i]} if meta else None,
        )
        for i, (u, gt, order, sc) in enumerate(data)
    ]
    if add == "all":
        loader.add_data(items)
    else:
        for it in items:
            loader.add_data([it])
    return loader


# ---------------------------------------------------------------- oracle
def positives(data, thr, hardmax):
    """per datum: label -> is it predicted positive at this threshold."""
    out = []
    for _, gt, order, sc in data:
        row = {}
        for i, l in enumerate(order):
            p = and_(sc[l] > 0.0, sc[l] >= thr)
            if hardmax:
                win = and_(
                    *[sc[l] > sc[o] for o in order[:i]],
                    *[sc[l] >= sc[o] for o in order[i + 1:]],
                )
                p = and_(p, win)
            row[l] = p
        out.append(row)
    return out


def expected_counts(data, thr, hardmax, label):
    pos = positives(data, thr, hardmax)
    tp = isum([row[label] for (_, gt, _, _), row in zip(data, pos) if gt == label and label in row])
    fp = isum([row[label] for (_, gt, _, _), row in zip(data, pos) if gt != label and label in row])
    fn = isum([not_(row[label]) if label in row else True for (_, gt, _, _), row in zip(data, pos) if gt == label])
    tn = isum([not_(row[label]) for (_, gt, _, _), row in zip(data, pos) if gt != label and label in row])
    return tp, fp, fn, tn


def check_counts(ctx, out, data, thrs, hardmax, labels, n_datums=None):
    MT = ctx.mod("classification").MetricType
    nd = len(data) if n_datums is None else n_datums
    for key, per in ((MT.Counts, len(labels)), (MT.Precision, len(labels)), (MT.Recall, len(labels)), (MT.F1, len(labels)), (MT.Accuracy, 1)):
        ctx.check(len(out[key]) == per * len(thrs), f"number of {key} metrics")
    for ti, thr in enumerate(thrs):
        correct = 0
        for l in labels:
            def pick(k):
                ms = [m for m in out[k] if m.parameters["label"] == l]
                ctx.check(len(ms) == len(thrs), f"{k} metric per threshold")
                m = ms[ti]
                ctx.check(eq(m.parameters["score_threshold"], thr), f"{k}: threshold order")
                ctx.check(m.parameters["hardmax"] == hardmax, f"{k}: hardmax parameter")
                return m.value

            v = pick(MT.Counts)
            tp, fp, fn, tn = expected_counts(data, thr, hardmax, l)
            correct = correct + tp
            ctx.check(eq(v["tp"], tp), f"TP of label {l}")
            ctx.check(eq(v["fp"], fp), f"FP of label {l}")
            if any(gt == l and l not in order for _, gt, order, _ in data):
                # a ground truth whose own label is not scored: see counts_unscored
                sure = isum([not_(row[l]) for (_, gt, _, _), row in zip(data, positives(data, thr, hardmax)) if gt == l and l in row])
                ctx.check(and_(v["fn"] >= sure, v["fn"] <= fn), f"FN of label {l} out of range")
                fn = v["fn"]
            else:
                ctx.check(eq(v["fn"], fn), f"FN of label {l}")
            ctx.check(eq(v["tn"], tn), f"TN of label {l}")
            p, r, f = pick(MT.Precision), pick(MT.Recall), pick(MT.F1)
            ctx.check(is_ratio(p, tp, tp + fp), f"precision of label {l}")
            ctx.check(is_ratio(r, tp, tp + fn), f"recall of label {l}")
            ctx.check(is_ratio(f, 2 * tp, 2 * tp + fp + fn), f"F1 of label {l}")
        acc = out[MT.Accuracy][ti]
        ctx.check(eq(acc.parameters["score_threshold"], thr), "accuracy: threshold order")
        ctx.check(is_ratio(acc.value, correct, nd), "accuracy")


def threshold(ctx, name):
    return ctx.real(name, 0.0, 1.0, dec=True)


# ---------------------------------------------------------------- C01 counts
@task(
    "C01",
    lambda tier: [
        dict(nd=1, nl=2, nt=2, hardmax=True, scores="free", perm=True),
        dict(nd=1, nl=3, nt=1, hardmax=True, scores="free"),
        dict(nd=1, nl=3, nt=1, hardmax=False, scores="free"),
        dict(nd=2, nl=2, nt=1, hardmax=True, scores="free"),
        dict(nd=2, nl=2, nt=1, hardmax=False, scores="free"),
        dict(nd=3, nl=2, nt=1, hardmax=True, scores="norm"),
        dict(nd=1, nl=2, nt=1, hardmax=True, scores="norm", crowd=260),
        dict(nd=1, nl=2, nt=1, hardmax=False, scores="norm", crowd=130),
    ]
    + (
        [
            dict(nd=2, nl=2, nt=2, hardmax=False, scores="free"),
            dict(nd=2, nl=2, nt=2, hardmax=True, scores="free", perm=True),
            dict(nd=4, nl=2, nt=1, hardmax=True, scores="norm"),
            dict(nd=3, nl=2, nt=2, hardmax=False, scores="norm"),
            dict(nd=1, nl=4, nt=1, hardmax=True, scores="free"),
            dict(nd=2, nl=3, nt=1, hardmax=True, scores="free"),
        ]
        if tier == "thorough"
        else []
    ),
    bounds="<=3 datums (4 thorough), <=3 labels (4 thorough), every datum scores every label; all ground-truth assignments up to relabelling; one symbolic datum among 130 or 260 concrete ones over 13 labels; scores and thresholds symbolic reals in [0,1]; up to 2 thresholds in any order; hardmax on and off",
)
def counts(ctx, nd, nl, nt, hardmax, scores, perm=False, crowd=0):
    labels, data = dataset(ctx, nd, nl, scores, perm=perm, crowd=crowd)
    thrs = [threshold(ctx, f"t{i}") for i in range(nt)]
    ev = build(ctx, data).finalize()
    out = ev.compute_precision_recall(score_thresholds=list(thrs), hardmax=hardmax)
    check_counts(ctx, out, data, thrs, hardmax, used_labels(data))


@task(
    "C01",
    lambda tier: [dict(nd=1, nl=3, hardmax=True), dict(nd=2, nl=2, hardmax=False)],
    bounds="1 datum x 3 labels and 2 datums x 2 labels, each datum scores an arbitrary non-empty subset of the labels (the ground-truth label may be missing)",
)
def counts_sparse(ctx, nd, nl, hardmax):
    labels, data = dataset(ctx, nd, nl, sparse=True)
    thr = threshold(ctx, "t")
    ev = build(ctx, data).finalize()
    out = ev.compute_precision_recall(score_thresholds=[thr], hardmax=hardmax)
    check_counts(ctx, out, data, [thr], hardmax, used_labels(data))


@task(
    "C01",
    lambda tier: [dict(hardmax=True), dict(hardmax=False)],
    bounds="1 datum whose only prediction is for another label",
)
def counts_unscored(ctx, hardmax):
    s, thr = score(ctx, "s"), threshold(ctx, "t")
    data = [("u0", "a", ["b"], {"b": s})]
    out = build(ctx, data).finalize().compute_precision_recall(score_thresholds=[thr], hardmax=hardmax)
    v = [m for m in out[ctx.mod("classification").MetricType.Counts] if m.parameters["label"] == "a"][0].value
    ctx.check(v["tp"] == 0, "TP of an unscored ground truth")
    ctx.check(v["fn"] <= 1, "FN of an unscored ground truth above one")
    ctx.check(implies(and_(s > 0.0, s >= thr), v["fn"] == 1), "FN of a misclassified unscored ground truth")
    ctx.check(v["fn"] == 1, "FN of an unscored ground truth with no passing prediction")


# ---------------------------------------------------------------- C02 confusion matrix
def expected_cm(data, pos, g, p):
    return isum([row[p] for (_, gt, _, _), row in zip(data, pos) if gt == g and p in row])


def expected_unmatched(data, pos, g):
    return isum([not_(or_(*row.values())) for (_, gt, _, _), row in zip(data, pos) if gt == g])


def check_cm(ctx, ms, data, thrs, hardmax, labels):
    ctx.check(len(ms) == len(thrs), "one confusion matrix per threshold")
    for m, thr in zip(ms, thrs):
        ctx.check(eq(m.parameters["score_threshold"], thr), "confusion matrix: threshold order")
        ctx.check(m.parameters["hardmax"] == hardmax, "confusion matrix: hardmax parameter")
        pos = positives(data, thr, hardmax)
        cm, un = m.value["confusion_matrix"], m.value["unmatched_ground_truths"]
        ctx.check(sorted(cm) == sorted(labels) and sorted(un) == sorted(labels), "confusion matrix: labels")
        for g in labels:
            ctx.check(sorted(cm[g]) == sorted(labels), "confusion matrix: prediction labels")
            for p in labels:
                ctx.check(eq(cm[g][p], expected_cm(data, pos, g, p)), f"confusion matrix cell ({g},{p})")
            ctx.check(eq(un[g], expected_unmatched(data, pos, g)), f"unmatched ground truths of {g}")


@task(
    "C02",
    lambda tier: [
        dict(nd=1, nl=2, nt=2, hardmax=True, scores="free", perm=True),
        dict(nd=1, nl=3, nt=1, hardmax=True, scores="free"),
        dict(nd=1, nl=3, nt=1, hardmax=False, scores="free"),
        dict(nd=2, nl=2, nt=1, hardmax=True, scores="free"),
        dict(nd=2, nl=2, nt=1, hardmax=False, scores="free", sparse=True),
        dict(nd=3, nl=2, nt=1, hardmax=True, scores="norm"),
        dict(nd=1, nl=2, nt=3, hardmax=False, scores="norm"),
        dict(nd=1, nl=2, nt=1, hardmax=True, scores="norm", crowd=260),
        dict(nd=1, nl=2, nt=1, hardmax=False, scores="norm", crowd=130),
    ]
    + (
        [
            dict(nd=2, nl=2, nt=2, hardmax=False, scores="free"),
            dict(nd=2, nl=2, nt=2, hardmax=True, scores="free", perm=True),
            dict(nd=4, nl=2, nt=1, hardmax=True, scores="norm"),
            dict(nd=2, nl=3, nt=1, hardmax=True, scores="free"),
        ]
        if tier == "thorough"
        else []
    ),
    bounds="<=3 datums (4 thorough), <=3 labels; arbitrary label subsets scored in one configuration; one symbolic datum among 130 or 260 concrete ones over 13 labels; scores and thresholds symbolic reals in [0,1]; up to 3 thresholds in any order; hardmax on and off",
)
def confusion(ctx, nd, nl, nt, hardmax, scores, perm=False, sparse=False, crowd=0):
    labels, data = dataset(ctx, nd, nl, scores, perm=perm, sparse=sparse, crowd=crowd)
    thrs = [threshold(ctx, f"t{i}") for i in range(nt)]
    ev = build(ctx, data).finalize()
    ms = ev.compute_confusion_matrix(score_thresholds=list(thrs), hardmax=hardmax)
    check_cm(ctx, ms, data, thrs, hardmax, used_labels(data))


# ---------------------------------------------------------------- C03 ROC AUC
def auc_terms(data, label):
    pos = [sc[label] for _, gt, _, sc in data if gt == label]
    neg = [sc[label] for _, gt, _, sc in data if gt != label]
    if not pos or not neg:
        return 0.0
    t = ssum([ite(p > n, 2, ite(p < n, 0, 1)) for p in pos for n in neg])
    return t / (2.0 * len(pos) * len(neg))


def check_rocauc(ctx, out, data, labels):
    MT = ctx.mod("classification").MetricType
    ctx.check(len(out[MT.ROCAUC]) == len(labels), "one ROCAUC per label")
    total = 0.0
    for l in labels:
        ms = [m for m in out[MT.ROCAUC] if m.parameters["label"] == l]
        ctx.check(len(ms) == 1, f"one ROCAUC for {l}")
        exp = auc_terms(data, l)
        total = total + exp
        ctx.check(approx(ms[0].value, exp), f"ROCAUC of label {l}")
    ctx.check(approx(out[MT.mROCAUC][0].value, total / len(labels)), "mROCAUC")


@task(
    "C03",
    lambda tier: [
        dict(nd=2, nl=2, scores="free"),
        dict(nd=3, nl=2, scores="norm"),
        dict(nd=2, nl=2, scores="free", rows=1),
        dict(nd=3, nl=2, scores="norm", rows=2),
        dict(nd=2, nl=3, scores="free", gts=[0, 1]),
    ]
    + (
        [
            dict(nd=4, nl=2, scores="norm"),
            dict(nd=5, nl=2, scores="norm", gts=[0, 1, 0, 1, 0]),
            dict(nd=3, nl=2, scores="free"),
            dict(nd=4, nl=2, scores="norm", rows=3),
            dict(nd=2, nl=3, scores="free"),
        ]
        if tier == "thorough"
        else []
    ),
    bounds="2-3 datums (5 thorough), 2-3 labels, every datum scores every label, scores symbolic in [0,1] including all tie patterns; in memory and on disk with 1-3 rows per file",
)
def rocauc(ctx, nd, nl, scores, rows=None, gts=None):
    labels, data = dataset(ctx, nd, nl, scores, gts=gts)
    C = ctx.mod("classification")
    loader = None
    if rows is not None:
        loader = C.Loader.persistent(ctx.scratch(), batch_size=1, rows_per_file=rows)
    ev = build(ctx, data, loader=loader).finalize()
    check_rocauc(ctx, ev.compute_rocauc(), data, labels)


# ---------------------------------------------------------------- C04 examples
def check_examples(ctx, ms, data, thrs, hardmax):
    ctx.check(len(ms) == len(thrs) * len(data), "one example per datum and threshold")
    for ti, thr in enumerate(thrs):
        pos = positives(data, thr, hardmax)
        for (u, gt, order, sc), row in zip(data, pos):
            mine = [m for m in ms if m.value["datum_id"] == u]
            ctx.check(len(mine) == len(thrs), f"examples of datum {u}")
            m = mine[ti]
            ctx.check(eq(m.parameters["score_threshold"], thr), "examples: threshold order")
            tp, fp, fn = (m.value[k] for k in ("true_positives", "false_positives", "false_negatives"))
            for l in (tp, fp, fn):
                ctx.check(len(set(l)) == len(l), "examples list a label twice")
            ok = row.get(gt, False)
            ctx.check(iff(ok, tp == [gt]), "true positives of an example")
            ctx.check(implies(not_(ok), tp == []), "true positives of an example")
            ctx.check(iff(ok, fn == []), "false negatives of an example")
            ctx.check(implies(not_(ok), fn == [gt]), "false negatives of an example")
            for l in order:
                if l != gt:
                    ctx.check(iff(row[l], l in fp), "false positives of an example")
            ctx.check(gt not in fp and all(l in order for l in fp), "false positives of an example")


def check_cm_examples(ctx, ms, data, thrs, hardmax, labels):
    ctx.check(len(ms) == len(thrs), "one confusion matrix per threshold")
    for m, thr in zip(ms, thrs):
        ctx.check(eq(m.parameters["score_threshold"], thr), "confusion matrix with examples: threshold order")
        pos = positives(data, thr, hardmax)
        cm, un = m.value["confusion_matrix"], m.value["unmatched_ground_truths"]
        ctx.check(sorted(cm) == sorted(labels) and sorted(un) == sorted(labels), "labels")
        for g in labels:
            for p in labels:
                cell = cm[g][p]
                ctx.check(len(cell["examples"]) == cell["count"], "count equals number of examples")
                ids = [x["datum_id"] for x in cell["examples"]]
                ctx.check(len(set(ids)) == len(ids), "a datum twice in one cell")
                for (u, gt, order, sc), row in zip(data, pos):
                    here = u in ids
                    want = row[p] if (gt == g and p in row) else False
                    ctx.check(iff(want, here), f"datum {u} in cell ({g},{p})")
                    if here and p in sc:
                        x = cell["examples"][ids.index(u)]
                        ctx.check(eq(x["score"], sc[p]), "score of an example")
            cell = un[g]
            ids = [x["datum_id"] for x in cell["examples"]]
            ctx.check(len(ids) == cell["count"] == len(set(ids)), "unmatched count equals number of examples")
            for (u, gt, order, sc), row in zip(data, pos):
                want = not_(or_(*row.values())) if gt == g else False
                ctx.check(iff(want, u in ids), f"datum {u} unmatched")


@task(
    "C04",
    lambda tier: [
        dict(nd=1, nl=2, nt=2, hardmax=True, scores="free", perm=True),
        dict(nd=1, nl=3, nt=1, hardmax=False, scores="free"),
        dict(nd=2, nl=2, nt=1, hardmax=True, scores="free"),
        dict(nd=2, nl=2, nt=1, hardmax=False, scores="free", sparse=True),
        dict(nd=3, nl=2, nt=1, hardmax=True, scores="norm"),
        dict(nd=1, nl=2, nt=1, hardmax=True, scores="norm", crowd=260),
        dict(nd=1, nl=2, nt=1, hardmax=False, scores="norm", crowd=130),
    ]
    + (
        [
            dict(nd=2, nl=2, nt=2, hardmax=False, scores="free"),
            dict(nd=3, nl=2, nt=2, hardmax=False, scores="norm"),
            dict(nd=2, nl=3, nt=1, hardmax=True, scores="free"),
        ]
        if tier == "thorough"
        else []
    ),
    bounds="<=3 datums, <=3 labels, arbitrary label subsets in one configuration; one symbolic datum among 130 or 260 concrete ones over 13 labels, scores and thresholds symbolic; up to 2 thresholds in any order",
)
def examples(ctx, nd, nl, nt, hardmax, scores, perm=False, sparse=False, crowd=0):
    labels, data = dataset(ctx, nd, nl, scores, perm=perm, sparse=sparse, crowd=crowd)
    thrs = [threshold(ctx, f"t{i}") for i in range(nt)]
    ev = build(ctx, data).finalize()
    check_examples(ctx, ev.compute_examples(score_thresholds=list(thrs), hardmax=hardmax), data, thrs, hardmax)
    check_cm_examples(
        ctx,
        ev.compute_confusion_matrix_with_examples(score_thresholds=list(thrs), hardmax=hardmax),
        data,
        thrs,
        hardmax,
        used_labels(data),
    )


# ---------------------------------------------------------------- C05 filtering
def mixed_filter(ctx, labels, data, tags, thr, hardmax, how, rows):
    """datum, ground-truth and prediction filters at once or one after the other."""
    C = ctx.mod("classification")
    pc = ctx.pc
    loader = None
    if rows is not None:
        loader = C.Loader.persistent(ctx.scratch(), batch_size=1, rows_per_file=rows, metadata_fields=[("tag", "string")])
    ev = build(ctx, data, meta=tags, loader=loader).finalize()
    use = ctx.choose("use", ["d+g+p", "g+p", "d+p", "d+g"]).split("+")
    g, p = ctx.choose("gsel", labels), ctx.choose("psel", labels)
    exprs = {"d": ("datums", pc.field("tag") == "x"), "g": ("groundtruths", pc.field("gt_label") == g), "p": ("predictions", pc.field("pd_label") == p)}
    keep = [
        (u, gt, [l for l in order if "p" not in use or l == p], sc)
        for (u, gt, order, sc), t in zip(data, tags)
        if ("d" not in use or t == "x") and ("g" not in use or gt == g)
    ]
    keep = [d for d in keep if d[2]]
    new = (lambda: ctx.scratch()) if rows is not None else (lambda: None)
    try:
        if how == "mix":
            src = ev.filter(path=new(), **dict(exprs[k] for k in use))
        else:
            src = ev
            for k in use:
                src = src.filter(path=new(), **dict([exprs[k]]))
    except ctx.mod("exceptions").EmptyCacheError:
        ctx.check(not keep, "a selection with datums in it is refused")
        return
    ctx.check(bool(keep), "an empty selection yields an evaluator")
    info = src.info
    ctx.check(info.number_of_datums == len(keep), "number of datums of the selection")
    ctx.check(info.number_of_rows == sum(len(d[2]) for d in keep), "number of kept predictions")
    ctx.check(info.number_of_labels == len(labels), "label set of the selection")
    ctx.check([k for k, _ in info.metadata_fields or []] == ["tag"], "metadata fields of the selection")
    kw = dict(score_thresholds=[thr], hardmax=hardmax)
    pr = src.compute_precision_recall(**kw)
    for l in labels:
        v = [m.value for m in pr[C.MetricType.Counts] if m.parameters["label"] == l][0]
        tp, fp, _, tn = expected_counts(keep, thr, hardmax, l)
        ctx.check(and_(eq(v["tp"], tp), eq(v["fp"], fp), eq(v["tn"], tn)), f"counts of {l} after combined filters")
    check_cm(ctx, src.compute_confusion_matrix(**kw), keep, [thr], hardmax, labels)


@task(
    "C05",
    lambda tier: [
        dict(nd=2, nl=2, how="param", by="tag", hardmax=False, scores="norm", first=True),
        dict(nd=2, nl=2, how="filter", by="uid", hardmax=False, scores="norm"),
        dict(nd=3, nl=2, how="param", by="uid", hardmax=True, scores="norm", gts=[0, 1, 0], thr=0.25),
        dict(nd=3, nl=2, how="filter", by="tag", hardmax=True, scores="norm", gts=[0, 1, 0], thr=0.25),
        dict(nd=2, nl=2, how="filter", by="tag", hardmax=True, scores="norm", rows=1),
        dict(nd=2, nl=2, how="gt", by="gt", hardmax=True, scores="free"),
        dict(nd=2, nl=2, how="pd", by="pd", hardmax=False, scores="free"),
        dict(nd=1, nl=2, how="pdscore", by="pd", hardmax=False, scores="free"),
        dict(nd=2, nl=2, how="mix", by="tag", hardmax=False, scores="norm", thr=0.5),
        dict(nd=2, nl=2, how="chain", by="tag", hardmax=False, scores="norm", thr=0.25),
        dict(nd=1, nl=2, how="gt", by="gt", hardmax=False, scores="norm", thr=0.25, many=20),
        dict(nd=1, nl=2, how="pd", by="pd", hardmax=False, scores="norm", thr=0.25, many=20, rows=64),
        dict(nd=1, nl=2, how="filter", by="tag", hardmax=True, scores="norm", thr=0.25, many=20, rows=30),
    ]
    + (
        [
            dict(nd=2, nl=2, how="mix", by="tag", hardmax=False, scores="free", rows=1),
            dict(nd=3, nl=2, how="mix", by="tag", hardmax=False, scores="norm"),
            dict(nd=2, nl=2, how="param", by="tag", hardmax=True, scores="free"),
            dict(nd=2, nl=2, how="filter", by="uid", hardmax=False, scores="free"),
            dict(nd=3, nl=2, how="filter", by="tag", hardmax=True, scores="norm"),
            dict(nd=3, nl=2, how="gt", by="gt", hardmax=True, scores="norm", rows=2),
            dict(nd=3, nl=2, how="pd", by="pd", hardmax=False, scores="norm", rows=2),
        ]
        if tier == "thorough"
        else []
    ),
    bounds="2-3 datums (4 thorough) x 2 labels, any subset of datums selected by metadata tag or uid, ground truths selected by label, predictions by label or by symbolic score; filter() and the datums= argument; in memory and on disk; also next to 21 concrete datums, one of which scores 20 labels",
)
def filtering(ctx, nd, nl, how, by, hardmax, scores, rows=None, gts=None, thr=None, many=0, first=False):
    C = ctx.mod("classification")
    pc = ctx.pc
    labels, data = dataset(ctx, nd, nl, scores, gts=gts)
    thr = threshold(ctx, "t") if thr is None else thr
    tags = [ctx.choose(f"tag{d}", ["x", "y"]) for d in range(nd)] if by in ("tag", "uid") else None
    if many:
        # concrete datums in front: all labels in one, then every label as ground truth
        ls = labels + [f"k{k}" for k in range(2, many)]
        front = [("m", "b", ls, {l: (1 + k * 7 % 16) / 32 for k, l in enumerate(ls)})]
        front += [(f"m{k}", l, [ls[k - 1], l], {l: 0.75 - k % 3 / 4, ls[k - 1]: 0.25 + k % 3 / 4}) for k, l in enumerate(ls)]
        data, labels = front + data, ls
        tags = tags and ["xy"[k % 3 > 0] for k in range(len(front))] + tags
    loader = None
    if how in ("mix", "chain"):
        return mixed_filter(ctx, labels, data, tags, thr, hardmax, how, rows)
    if rows is not None:
        loader = C.Loader.persistent(ctx.scratch(), batch_size=1, rows_per_file=rows, metadata_fields=[("tag", "string")] if by == "tag" else None)
    ev = build(ctx, data, meta=tags if by == "tag" else None, loader=loader).finalize()
    kw = dict(score_thresholds=[thr], hardmax=hardmax)
    path = ctx.scratch() if rows is not None else None
    if first:
        # evaluate everything once before the selection
        ev.compute_rocauc()
        ev.compute_precision_recall(**kw)
        ev.compute_confusion_matrix(**kw)
        ev.compute_examples(**kw)
        ev.compute_confusion_matrix_with_examples(**kw)
    if how in ("param", "filter"):
        keep = [d for d, t in zip(data, tags) if t == "x"]
        if by == "tag":
            expr = pc.field("tag") == "x"
        else:
            expr = pc.field("datum_uid").isin([d[0] for d in keep] + ["none"])
        if how == "param":
            src, extra = ev, dict(datums=expr)
        else:
            if not keep:
                try:
                    ev.filter(datums=expr, path=path)
                except ctx.mod("exceptions").EmptyCacheError:
                    return
                ctx.check(False, "an empty selection yields an evaluator")
            src, extra = ev.filter(datums=expr, path=path), {}
        pr = src.compute_precision_recall(**kw, **extra)
        check_counts(ctx, pr, keep, [thr], hardmax, labels)
        check_cm(ctx, src.compute_confusion_matrix(**kw, **extra), keep, [thr], hardmax, labels)
        check_examples(ctx, src.compute_examples(**kw, **extra), keep, [thr], hardmax)
        check_cm_examples(ctx, src.compute_confusion_matrix_with_examples(**kw, **extra), keep, [thr], hardmax, labels)
        info = src.get_info(**extra)
        ctx.check(info.number_of_datums == len(keep), "number of datums of the selection")
        if how == "filter" and not many:
            check_rocauc(ctx, src.compute_rocauc(), keep, labels)
    elif how == "gt":
        keep = [d for d in data if d[1] == labels[0]]
        src = ev.filter(groundtruths=pc.field("gt_label") == labels[0], path=path)
        check_counts(ctx, src.compute_precision_recall(**kw), keep, [thr], hardmax, labels)
        check_cm(ctx, src.compute_confusion_matrix(**kw), keep, [thr], hardmax, labels)
    else:
        MT = C.MetricType
        if how == "pd":
            keep = [(u, gt, [l for l in order if l == labels[0]], sc) for u, gt, order, sc in data]
            expr = pc.field("pd_label") == labels[0]
        else:
            cut = ctx.real("cut", 0.0, 1.0, dec=True)
            ctx.assume(or_(*[sc[l] >= cut for _, _, order, sc in data for l in order]))
            keep = [(u, gt, [l for l in order if ctx.decide(sc[l] >= cut)], sc) for u, gt, order, sc in data]
            expr = pc.field("pd_score") >= cut
        src = ev.filter(predictions=expr, path=path)
        keep = [d for d in keep if d[2]]
        pos = positives(keep, thr, hardmax)
        pr = src.compute_precision_recall(**kw)
        for l in labels:
            v = [m.value for m in pr[MT.Counts] if m.parameters["label"] == l][0]
            tp, fp, fn, tn = expected_counts(keep, thr, hardmax, l)
            ctx.check(eq(v["tp"], tp), f"TP of {l} after filtering predictions")
            ctx.check(eq(v["fp"], fp), f"FP of {l} after filtering predictions")
            ctx.check(eq(v["tn"], tn), f"TN of {l} after filtering predictions")
        check_cm(ctx, src.compute_confusion_matrix(**kw), keep, [thr], hardmax, labels)
