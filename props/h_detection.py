"""Object detection: matching, counts, AP/AR, confusion matrices, examples, filtering."""
from symx.logic import and_, approx, iff, implies, isum, ite, not_, or_, smax, ssum

from . import od, task
from .common import eq, is_ratio, uid
from .od import ROUTES, Scene, scene

MATCH_NOTE = "IoU matrices are symbolic (polygon pairs with arbitrary intersection/union areas, each IoU zero or at least 0.001); replays realise them as bitmasks, boxes and polygons. Predictions carry one label each; IoUs of one prediction with two ground truths of one label differ when non-zero"


def thr_iou(ctx, name):
    return ctx.real(name, 1e-3, 1.0)


def thr_score(ctx, name):
    return ctx.real(name, 0.0, 1.0, dec=True)


def labels_of(scenes):
    out = []
    for sc in scenes:
        for _, l in sc.gts:
            if l not in out:
                out.append(l)
        for _, ls, _ in sc.pds:
            for l in ls:
                if l not in out:
                    out.append(l)
    return out


def generic(ctx, scenes):
    """exclude ties the ranking leaves open."""
    for sc in scenes:
        for j in range(len(sc.pds)):
            for a in range(len(sc.gts)):
                for b in range(a):
                    ctx.assume(or_(sc.iou[a][j] <= 0.0, sc.iou[a][j] < sc.iou[b][j], sc.iou[a][j] > sc.iou[b][j]))


def best(sc, i, j):
    """ground truth i is the best-overlapping one of prediction j's label."""
    gl = sc.gts[i][1]
    if gl != sc.pds[j][1][0]:
        return False
    return and_(
        sc.iou[i][j] > 0.0,
        *[sc.iou[i][j] > sc.iou[k][j] for k in range(len(sc.gts)) if k != i and sc.gts[k][1] == gl],
    )


def passes(s, t):
    return and_(s > 0.0, s >= t)


def expected_counts(scenes, label, ti, ts):
    tp, fp, fn = [], 0, 0
    n_pass = []
    n_gt = 0
    for sc in scenes:
        for i, (_, gl) in enumerate(sc.gts):
            if gl != label:
                continue
            n_gt += 1
            tp.append(or_(False, *[and_(best(sc, i, j), sc.iou[i][j] >= ti, passes(ss[0], ts)) for j, (_, ls, ss) in enumerate(sc.pds) if ls[0] == label]))
        for _, ls, ss in sc.pds:
            if ls[0] == label:
                n_pass.append(passes(ss[0], ts))
    tp = isum(tp)
    return tp, isum(n_pass) - tp, n_gt - tp, n_gt


def pick(ctx, ms, n, idx, what, **params):
    """the idx-th of the n metrics with these concrete parameters."""
    sel = [m for m in ms if all(m.parameters.get(k) == v for k, v in params.items())]
    ctx.check(len(sel) == n, f"{what}: expected {n} metrics, got {len(sel)}")
    return sel[idx]


def check_counts(ctx, out, scenes, tis, tss, labels):
    MT = ctx.mod("object_detection").MetricType
    n = len(tis) * len(tss)
    for l in labels:
        for si, ts in enumerate(tss):
            for ii, ti in enumerate(tis):
                k = si * len(tis) + ii
                tp, fp, fn, n_gt = expected_counts(scenes, l, ti, ts)

                def val(key):
                    m = pick(ctx, out[key], n, k, str(key), label=l)
                    ctx.check(and_(eq(m.parameters["iou_threshold"], ti), eq(m.parameters["score_threshold"], ts)), f"{key}: parameters")
                    return m.value

                v = val(MT.Counts)
                ctx.check(eq(v["tp"], tp), f"TP of {l}")
                ctx.check(eq(v["fp"], fp), f"FP of {l}")
                ctx.check(eq(v["fn"], fn), f"FN of {l}")
                ctx.check(is_ratio(val(MT.Precision), tp, tp + fp), f"precision of {l}")
                ctx.check(is_ratio(val(MT.Recall), tp, n_gt), f"recall of {l}")
                ctx.check(is_ratio(val(MT.F1), 2 * tp, 2 * tp + fp + fn), f"F1 of {l}")


def scenes_from(ctx, shapes, crowd=0, ladder=0, **kw):
    # concrete datums in front, so that identifiers and labels of the symbolic ones are large
    out = []
    for c in range(crowd):
        # the later ones all carry one label, found and missed in turn: its counts get large
        l = "k%d" % (c % 11) if c < 60 else "k0"
        out.append(Scene(f"c{c}", [(f"cg{c}", l)], [(f"cp{c}", [l if c % 3 else "k0"], [0.25 + (c % 5) / 8])], [[0.75 if (c % 4 if c < 60 else c % 2) else 0.0]]))
    # one label found again and again, by decreasing score, with false positives in between:
    # the recall takes every multiple of 1/n
    for c in range(ladder):
        gts, pds = [(f"lg{c}", "a")], [(f"lp{c}", ["a"], [1.0 - c / 256])]
        iou = [[0.875 if c % 16 else 0.5]]
        if c % 3 == 2:
            pds.append((f"lq{c}", ["a"], [1.0 - c / 256 - 1 / 512]))
            iou[0].append(0.0)
        out.append(Scene(f"l{c}", gts, pds, iou))
    for k, (ng, np_) in enumerate(shapes):
        out.append(scene(ctx, uid(k), ng, np_, fixed_first=(k == 0 and ng > 0), **kw))
    return out


def Q(tier, quick, thorough):
    return quick + (thorough if tier == "thorough" else [])


# ---------------------------------------------------------------- C07 counts
@task(
    "C07",
    lambda tier: Q(
        tier,
        [
            dict(shapes=[(1, 1)], ni=2, ns=2),
            dict(shapes=[(1, 2)], ni=1, ns=1),
            dict(shapes=[(2, 1)], ni=1, ns=1),
            dict(shapes=[(0, 2)], ni=1, ns=1),
            dict(shapes=[(2, 0)], ni=1, ns=1),
            dict(shapes=[(1, 1), (1, 1)], ni=1, ns=1),
            dict(shapes=[(1, 3)], ni=1, ns=1, glabels=["a"], plabels=["a", "a", "a"]),
            dict(shapes=[(2, 2)], ni=1, ns=1, glabels=["a", "a"], plabels=["a", "a"]),
            dict(shapes=[(1, 2)], ni=1, ns=1, glabels=["a"], plabels=["a", "a"], pad=(3, 12)),
            dict(shapes=[(1, 1)], ni=1, ns=1, plabels=["a"], crowd=600),
        ],
        [
            dict(shapes=[(2, 2)], ni=1, ns=1),
            dict(shapes=[(2, 2)], ni=1, ns=1, glabels=["a", "a"], plabels=["a", "a"], pad=(3, 12)),
            dict(shapes=[(1, 2)], ni=2, ns=1),
            dict(shapes=[(1, 3)], ni=1, ns=1),
            dict(shapes=[(3, 1)], ni=1, ns=1),
            dict(shapes=[(1, 2), (1, 1)], ni=1, ns=1),
            dict(shapes=[(2, 3)], ni=1, ns=1, glabels=["a", "a"], plabels=["a", "a", "a"]),
        ],
    ),
    bounds="per datum up to 2 ground truths x 2 predictions or 1 x 3 (2 x 3 thorough), up to 2 datums, 2 labels, up to 2 IoU and 2 score thresholds in any order; IoUs, scores and thresholds symbolic",
    assumptions=[MATCH_NOTE],
    routes=ROUTES,
)
def counts(ctx, shapes, ni, ns, **kw):
    scenes = scenes_from(ctx, shapes, **kw)
    generic(ctx, scenes)
    tis = [thr_iou(ctx, f"ti{i}") for i in range(ni)]
    tss = [thr_score(ctx, f"ts{i}") for i in range(ns)]
    ev = od.load(ctx, scenes).finalize()
    out = ev.compute_precision_recall(iou_thresholds=list(tis), score_thresholds=list(tss))
    check_counts(ctx, out, scenes, tis, tss, labels_of(scenes))


# ---------------------------------------------------------------- C08 AP / AR
def ranking(ctx, scenes, label):
    """the label's predictions by decreasing score, ties by decreasing best IoU.

    returns [(scene, pred index, best gt index or None)]; forks on the order
    (already fixed by the code's own sort on most paths)."""
    rows = []
    for sc in scenes:
        for j, (_, ls, ss) in enumerate(sc.pds):
            if ls[0] != label:
                continue
            g = None
            for i in range(len(sc.gts)):
                if sc.gts[i][1] == label and ctx.decide(best(sc, i, j)):
                    g = i
            rows.append((sc, j, g))

    def before(a, b):
        sa, sb = a[0].pds[a[1]][2][0], b[0].pds[b[1]][2][0]
        if ctx.decide(sa > sb):
            return True
        if ctx.decide(sa < sb):
            return False
        ia = a[0].iou[a[2]][a[1]] if a[2] is not None else 0.0
        ib = b[0].iou[b[2]][b[1]] if b[2] is not None else 0.0
        return ctx.decide(ia > ib)

    out = []
    for r in rows:
        k = len(out)
        while k > 0 and before(r, out[k - 1]):
            k -= 1
        out.insert(k, r)
    return out


def no_rank_ties(ctx, scenes):
    """equal scores are allowed only with different overlaps."""
    rows = [(sc, j) for sc in scenes for j in range(len(sc.pds))]
    for x in range(len(rows)):
        for y in range(x):
            a, b = rows[x], rows[y]
            if a[0].pds[a[1]][1] != b[0].pds[b[1]][1]:
                continue
            sa, sb = a[0].pds[a[1]][2][0], b[0].pds[b[1]][2][0]
            ia = [a[0].iou[i][a[1]] for i in range(len(a[0].gts))]
            ib = [b[0].iou[i][b[1]] for i in range(len(b[0].gts))]
            diff = [or_(p < q, p > q) for p in ia for q in ib]
            ctx.assume(or_(sa > sb, sa < sb, and_(*diff) if diff else False))


def ap_of(ctx, scenes, label, ti):
    n_gt = sum(1 for sc in scenes for _, l in sc.gts if l == label)
    rank = ranking(ctx, scenes, label)
    prec = [0.0] * 101
    sco = [None] * 101
    used = set()
    tp = 0
    if rank:
        sco[0] = rank[0][0].pds[rank[0][1]][2][0]
    for k, (sc, j, g) in enumerate(rank):
        s = sc.pds[j][2][0]
        if g is None or (sc.uid, g) in used:
            continue
        if not ctx.decide(and_(sc.iou[g][j] >= ti, s > 0.0)):
            continue
        used.add((sc.uid, g))
        tp += 1
        b = (100 * tp) // n_gt
        p = tp / (k + 1)
        for r in range(b + 1):
            prec[r] = max(prec[r], p)
            if sco[r] is None:
                sco[r] = s
    return sum(prec) / 101.0, prec, [0.0 if x is None else x for x in sco], n_gt


@task(
    "C08",
    lambda tier: Q(
        tier,
        [
            dict(shapes=[(1, 1)], ni=2, ns=2, glabels=["a"]),
            dict(shapes=[(1, 2)], ni=1, ns=1),
            dict(shapes=[(2, 1)], ni=1, ns=1),
            dict(shapes=[(0, 1)], ni=1, ns=1),
            dict(shapes=[(1, 1), (1, 1)], ni=1, ns=1, glabels=["a"]),
            dict(shapes=[(1, 3)], ni=1, ns=1, glabels=["a"], plabels=["a", "a", "a"], sthr=0.5),
            dict(shapes=[(2, 2)], ni=1, ns=1, glabels=["a", "a"], plabels=["a", "a"], sthr=0.5),
            dict(shapes=[(1, 2)], ni=2, ns=1, glabels=["a"], plabels=["a", "a"], sthr=0.5),
            dict(shapes=[(1, 1)], ni=1, ns=1, glabels=["a"], plabels=["a"], scores=[0.9], sthr=0.5, ladder=49),
            dict(shapes=[(1, 1)], ni=1, ns=1, glabels=["a"], plabels=["a"], scores=[0.9], sthr=0.5, ladder=99),
        ],
        [
            dict(shapes=[(2, 2)], ni=1, ns=1),
            dict(shapes=[(1, 2), (2, 1)], ni=1, ns=1, sthr=0.5),
            dict(shapes=[(2, 3)], ni=1, ns=1, glabels=["a", "a"], plabels=["a", "a", "a"], sthr=0.5),
            dict(shapes=[(1, 2)], ni=2, ns=2),
        ],
    ),
    bounds="per datum up to 2 ground truths x 2 predictions or 1 x 3 (2 x 3 thorough), up to 2 datums, 2 labels, up to 2 IoU and 2 score thresholds; IoUs, scores and thresholds symbolic; also one symbolic datum among 49 or 99 concrete ones of the same label; score ties only between predictions with different overlaps",
    assumptions=[MATCH_NOTE],
    routes=ROUTES,
)
def average(ctx, shapes, ni, ns, sthr=None, **kw):
    if kw.get("glabels") is not None:
        kw["glabels"] = list(kw["glabels"]) * 3
    scenes = scenes_from(ctx, shapes, **kw)
    generic(ctx, scenes)
    no_rank_ties(ctx, scenes)
    tis = [thr_iou(ctx, f"ti{i}") for i in range(ni)]
    tss = [thr_score(ctx, f"ts{i}") if sthr is None else sthr for i in range(ns)]
    ev = od.load(ctx, scenes).finalize()
    out = ev.compute_precision_recall(iou_thresholds=list(tis), score_thresholds=list(tss))
    check_average(ctx, out, scenes, tis, tss, labels_of(scenes))


def check_average(ctx, out, scenes, tis, tss, labels):
    MT = ctx.mod("object_detection").MetricType
    nl = len(labels)
    aps = {}
    for ii, ti in enumerate(tis):
        for l in labels:
            ap, prec, sco, n_gt = ap_of(ctx, scenes, l, ti)
            aps[ii, l] = ap
            m = pick(ctx, out[MT.AP], len(tis), ii, "AP", label=l)
            ctx.check(eq(m.parameters["iou_threshold"], ti), "AP: parameters")
            ctx.check(approx(m.value, ap), f"AP of {l}")
            m = pick(ctx, out[MT.PrecisionRecallCurve], len(tis), ii, "PR curve", label=l)
            ctx.check(eq(m.parameters["iou_threshold"], ti), "PR curve: parameters")
            ctx.check(len(m.value["precisions"]) == 101 and len(m.value["scores"]) == 101, "PR curve length")
            ctx.check(and_(*[approx(a, b) for a, b in zip(m.value["precisions"], prec)]), f"PR curve precisions of {l}")
            ctx.check(and_(*[approx(a, b) for a, b in zip(m.value["scores"], sco)]), f"PR curve scores of {l}")
        m = pick(ctx, out[MT.mAP], len(tis), ii, "mAP")
        ctx.check(eq(m.parameters["iou_threshold"], ti), "mAP: parameters")
        ctx.check(approx(m.value, sum(aps[ii, l] for l in labels) / nl), "mAP")
    for l in labels:
        m = pick(ctx, out[MT.APAveragedOverIOUs], 1, 0, "AP averaged over IoUs", label=l)
        ctx.check(approx(m.value, sum(aps[ii, l] for ii in range(len(tis))) / len(tis)), "AP averaged over IoUs")
    m = pick(ctx, out[MT.mAPAveragedOverIOUs], 1, 0, "mAP averaged over IoUs")
    ctx.check(approx(m.value, sum(aps.values()) / len(aps)), "mAP averaged over IoUs")
    ars = {}
    for si, ts in enumerate(tss):
        for l in labels:
            rec = 0.0
            for ti in tis:
                tp, fp, fn, n_gt = expected_counts(scenes, l, ti, ts)
                rec = rec + (tp * (1.0 / n_gt) if n_gt else 0.0)
            ars[si, l] = rec * (1.0 / len(tis))
            m = pick(ctx, out[MT.AR], len(tss), si, "AR", label=l)
            ctx.check(eq(m.parameters["score_threshold"], ts), "AR: parameters")
            ctx.check(approx(m.value, ars[si, l]), f"AR of {l}")
        m = pick(ctx, out[MT.mAR], len(tss), si, "mAR")
        ctx.check(eq(m.parameters["score_threshold"], ts), "mAR: parameters")
        ctx.check(approx(m.value, ssum([ars[si, l] for l in labels]) * (1.0 / nl)), "mAR")
    for l in labels:
        m = pick(ctx, out[MT.ARAveragedOverScores], 1, 0, "AR averaged over scores", label=l)
        ctx.check(approx(m.value, ssum([ars[si, l] for si in range(len(tss))]) * (1.0 / len(tss))), "AR averaged over scores")
    m = pick(ctx, out[MT.mARAveragedOverScores], 1, 0, "mAR averaged over scores")
    ctx.check(approx(m.value, ssum(list(ars.values())) * (1.0 / len(ars))), "mAR averaged over scores")


# ---------------------------------------------------------------- C09 / C10
def greedy(ctx, sc):
    """pairs chosen by decreasing score, then IoU, regardless of label."""
    pairs = [(i, j) for i in range(len(sc.gts)) for j in range(len(sc.pds)) if ctx.decide(sc.iou[i][j] > 0.0)]

    def before(x, y):
        sx, sy = sc.pds[x[1]][2][0], sc.pds[y[1]][2][0]
        if ctx.decide(sx > sy):
            return True
        if ctx.decide(sx < sy):
            return False
        return ctx.decide(sc.iou[x[0]][x[1]] > sc.iou[y[0]][y[1]])

    order = []
    for p in pairs:
        k = len(order)
        while k > 0 and before(p, order[k - 1]):
            k -= 1
        order.insert(k, p)
    ug, up, out = set(), set(), []
    for i, j in order:
        if i not in ug and j not in up:
            ug.add(i)
            up.add(j)
            out.append((i, j))
    return out


def no_pair_ties(ctx, scenes):
    """pairs that compete for an annotation differ in score or in IoU."""
    for sc in scenes:
        ps = [(i, j) for i in range(len(sc.gts)) for j in range(len(sc.pds))]
        for x in range(len(ps)):
            for y in range(x):
                a, b = ps[x], ps[y]
                ra, rb = sc.iou[a[0]][a[1]], sc.iou[b[0]][b[1]]
                sa, sb = sc.pds[a[1]][2][0], sc.pds[b[1]][2][0]
                d = [ra <= 0.0, rb <= 0.0, ra > rb, ra < rb]
                if a[1] != b[1]:
                    d += [sa > sb, sa < sb]
                ctx.assume(or_(*d))


class Expect:
    """per threshold pair: which pairs are matched, which annotations are left."""

    def __init__(self, ctx, scenes, ti, ts):
        self.pairs, self.un_g, self.un_p = [], [], []
        for sc in scenes:
            m = greedy(ctx, sc)
            hit = {(i, j): and_(sc.iou[i][j] >= ti, passes(sc.pds[j][2][0], ts)) for i, j in m}
            for (i, j), h in hit.items():
                self.pairs.append((sc, i, j, h))
            for i in range(len(sc.gts)):
                self.un_g.append((sc, i, not_(or_(False, *[h for (a, _), h in hit.items() if a == i]))))
            for j, (_, ls, ss) in enumerate(sc.pds):
                self.un_p.append((sc, j, and_(passes(ss[0], ts), not_(or_(False, *[h for (_, b), h in hit.items() if b == j])))))


def check_cm(ctx, ms, scenes, tis, tss, labels):
    ctx.check(len(ms) == len(tis) * len(tss), "one confusion matrix per threshold pair")
    k = 0
    for ti in tis:
        for ts in tss:
            m = ms[k]
            k += 1
            ctx.check(and_(eq(m.parameters["iou_threshold"], ti), eq(m.parameters["score_threshold"], ts)), "confusion matrix: parameters")
            e = Expect(ctx, scenes, ti, ts)
            cm, ug, up = m.value["confusion_matrix"], m.value["unmatched_ground_truths"], m.value["unmatched_predictions"]
            ctx.check(sorted(cm) == sorted(ug) == sorted(up) == sorted(labels), "confusion matrix: labels")
            for g in labels:
                for p in labels:
                    want = isum([h for sc, i, j, h in e.pairs if sc.gts[i][1] == g and sc.pds[j][1][0] == p])
                    ctx.check(eq(cm[g][p], want), f"confusion matrix cell ({g},{p})")
                ctx.check(eq(ug[g], isum([h for sc, i, h in e.un_g if sc.gts[i][1] == g])), f"unmatched ground truths of {g}")
                ctx.check(eq(up[g], isum([h for sc, j, h in e.un_p if sc.pds[j][1][0] == g])), f"unmatched predictions of {g}")
                # the partition itself, independent of who was matched to whom
                ctx.check(sum(cm[g].values()) + ug[g] == sum(1 for sc in scenes for _, l in sc.gts if l == g), f"ground truths of {g} counted once")
                npass = isum([passes(ss[0], ts) for sc in scenes for _, ls, ss in sc.pds if ls[0] == g])
                ctx.check(eq(sum(cm[x][g] for x in labels) + up[g], npass), f"predictions of {g} counted once")


CM_CFG = lambda tier: Q(
    tier,
    [
        dict(shapes=[(1, 1)], ni=2, ns=2),
        dict(shapes=[(1, 2)], ni=1, ns=1),
        dict(shapes=[(2, 1)], ni=1, ns=1),
        dict(shapes=[(0, 1), (1, 0)], ni=1, ns=1),
        dict(shapes=[(1, 1), (1, 1)], ni=1, ns=1, glabels=["a"]),
        dict(shapes=[(2, 2)], ni=1, ns=1, glabels=["a", "b"], plabels=["a", "b"]),
        dict(shapes=[(2, 2)], ni=1, ns=1, glabels=["a", "a"], plabels=["a", "b"]),
        dict(shapes=[(2, 3)], ni=1, ns=1, glabels=["a", "b"], plabels=["a", "b", "a"], scores=[0.25, 0.75, 0.875], pad=(0, 9)),
        dict(shapes=[(1, 1)], ni=1, ns=1, plabels=["b"], crowd=600),
    ],
    [
        dict(shapes=[(2, 2)], ni=1, ns=1),
        dict(shapes=[(1, 3)], ni=1, ns=1),
        dict(shapes=[(1, 2)], ni=2, ns=1),
        dict(shapes=[(1, 2), (1, 1)], ni=1, ns=1),
        dict(shapes=[(2, 3)], ni=1, ns=1, glabels=["a", "b"], plabels=["a", "b", "a"]),
    ],
)
CM_BOUNDS = "per datum up to 2 ground truths x 2 predictions (1 x 3, 2 x 3 thorough), up to 2 datums, 2 labels, up to 2 IoU and 2 score thresholds; IoUs, scores and thresholds symbolic; competing pairs differ in score or IoU; one configuration has 9 concrete bystanders, one 600 concrete datums over 11 further labels"


def cm_scenes(ctx, shapes, **kw):
    if kw.get("glabels") is not None:
        kw["glabels"] = list(kw["glabels"]) * 3
    scenes = scenes_from(ctx, shapes, **kw)
    no_pair_ties(ctx, scenes)
    return scenes


@task("C09", CM_CFG, bounds=CM_BOUNDS, assumptions=[MATCH_NOTE], routes=ROUTES)
def confusion(ctx, shapes, ni, ns, **kw):
    scenes = cm_scenes(ctx, shapes, **kw)
    tis = [thr_iou(ctx, f"ti{i}") for i in range(ni)]
    tss = [thr_score(ctx, f"ts{i}") for i in range(ns)]
    ev = od.load(ctx, scenes).finalize()
    check_cm(ctx, ev.compute_confusion_matrix(iou_thresholds=list(tis), score_thresholds=list(tss)), scenes, tis, tss, labels_of(scenes))


def check_examples(ctx, ms, scenes, tis, tss):
    kept = [sc for sc in scenes if sc.gts or sc.pds]
    ctx.check(len(ms) == len(kept) * len(tis) * len(tss), "one example record per datum and threshold pair")
    for a, ti in enumerate(tis):
        for b, ts in enumerate(tss):
            for sc in kept:
                m = [m for m in ms if m.value["datum_id"] == sc.uid][a * len(tss) + b]
                ctx.check(and_(eq(m.parameters["iou_threshold"], ti), eq(m.parameters["score_threshold"], ts)), "examples: parameters")
                e = Expect(ctx, [sc], ti, ts)
                tp = [tuple(x) for x in m.value["true_positives"]]
                fp, fn = list(m.value["false_positives"]), list(m.value["false_negatives"])
                ctx.check(len(set(tp)) == len(tp) and len(set(fp)) == len(fp) and len(set(fn)) == len(fn), "an annotation is listed twice")
                hit_g, hit_p = {}, {}
                names = set()
                for _, i, j, h in e.pairs:
                    gu, pu = sc.gts[i][0], sc.pds[j][0]
                    if sc.gts[i][1] == sc.pds[j][1][0]:
                        names.add((gu, pu))
                        hit_g[i] = hit_p[j] = h
                        ctx.check(iff(h, (gu, pu) in tp), "true-positive pair")
                ctx.check(set(tp) <= names, "unexpected true-positive pair")
                for i, (gu, _) in enumerate(sc.gts):
                    ctx.check(iff(not_(hit_g.get(i, False)), gu in fn), "false negatives of an example")
                for j, (pu, _, ss) in enumerate(sc.pds):
                    ctx.check(iff(and_(passes(ss[0], ts), not_(hit_p.get(j, False))), pu in fp), "false positives of an example")
                ctx.check(set(fn) <= {g for g, _ in sc.gts} and set(fp) <= {p[0] for p in sc.pds}, "foreign annotation in an example")


def check_cm_examples(ctx, ms, scenes, tis, tss, labels):
    ctx.check(len(ms) == len(tis) * len(tss), "one confusion matrix per threshold pair")
    k = 0
    for ti in tis:
        for ts in tss:
            m = ms[k]
            k += 1
            ctx.check(and_(eq(m.parameters["iou_threshold"], ti), eq(m.parameters["score_threshold"], ts)), "confusion matrix with examples: parameters")
            e = Expect(ctx, scenes, ti, ts)
            cm, ug, up = m.value["confusion_matrix"], m.value["unmatched_ground_truths"], m.value["unmatched_predictions"]
            for g in labels:
                for p in labels:
                    cell = cm[g][p]
                    got = [(x["datum_id"], x["ground_truth_id"], x["prediction_id"]) for x in cell["examples"]]
                    ctx.check(cell["count"] == len(got) == len(set(got)), "count equals number of examples")
                    poss = {}
                    for sc, i, j, h in e.pairs:
                        if sc.gts[i][1] == g and sc.pds[j][1][0] == p:
                            poss[(sc.uid, sc.gts[i][0], sc.pds[j][0])] = h
                    ctx.check(set(got) <= set(poss), f"unexpected example in cell ({g},{p})")
                    for key, h in poss.items():
                        ctx.check(iff(h, key in got), f"example of cell ({g},{p})")
                got = [(x["datum_id"], x["ground_truth_id"]) for x in ug[g]["examples"]]
                ctx.check(ug[g]["count"] == len(got) == len(set(got)), "unmatched ground-truth count")
                poss = {(sc.uid, sc.gts[i][0]): h for sc, i, h in e.un_g if sc.gts[i][1] == g}
                ctx.check(set(got) <= set(poss), "unexpected unmatched ground truth")
                for key, h in poss.items():
                    ctx.check(iff(h, key in got), f"unmatched ground truth of {g}")
                got = [(x["datum_id"], x["prediction_id"]) for x in up[g]["examples"]]
                ctx.check(up[g]["count"] == len(got) == len(set(got)), "unmatched prediction count")
                poss = {(sc.uid, sc.pds[j][0]): h for sc, j, h in e.un_p if sc.pds[j][1][0] == g}
                ctx.check(set(got) <= set(poss), "unexpected unmatched prediction")
                for key, h in poss.items():
                    ctx.check(iff(h, key in got), f"unmatched prediction of {g}")


@task("C10", CM_CFG, bounds=CM_BOUNDS, assumptions=[MATCH_NOTE], routes=ROUTES)
def examples(ctx, shapes, ni, ns, **kw):
    scenes = cm_scenes(ctx, shapes, **kw)
    tis = [thr_iou(ctx, f"ti{i}") for i in range(ni)]
    tss = [thr_score(ctx, f"ts{i}") for i in range(ns)]
    ev = od.load(ctx, scenes).finalize()
    kw = dict(iou_thresholds=list(tis), score_thresholds=list(tss))
    check_examples(ctx, ev.compute_examples(**kw), scenes, tis, tss)
    check_cm_examples(ctx, ev.compute_confusion_matrix_with_examples(**kw), scenes, tis, tss, labels_of(scenes))


# ---------------------------------------------------------------- C11 filtering
def _sub(sc, gi, pj):
    return Scene(sc.uid, [sc.gts[i] for i in gi], [sc.pds[j] for j in pj], [[sc.iou[i][j] for j in pj] for i in gi])


@task(
    "C11",
    lambda tier: Q(
        tier,
        [
            dict(shapes=[(1, 1), (1, 1)], how="param", by="tag", glabels=["a"], first=True),
            dict(shapes=[(1, 1), (1, 1)], how="filter", by="uid", glabels=["a"]),
            dict(shapes=[(1, 1), (1, 1)], how="filter", by="tag", glabels=["a"], rows=1),
            dict(shapes=[(1, 1), (1, 1)], how="param", by="uid", glabels=["a"], rows=2),
            dict(shapes=[(2, 1)], how="gt", by="meta", plabels=["a"]),
            dict(shapes=[(2, 1)], how="gt", by="label", plabels=["a"]),
            dict(shapes=[(1, 2)], how="pd", by="meta", glabels=["a"]),
            dict(shapes=[(1, 2)], how="pd", by="score", glabels=["a"]),
            dict(shapes=[(1, 2)], how="both", by="meta", glabels=["a"], plabels=["a", "b"]),
            dict(shapes=[(2, 1)], how="both", by="meta", glabels=["a", "b"], plabels=["a"], rows=1),
            dict(shapes=[(2, 2)], how="gt", by="meta", glabels=["a", "a"], plabels=["a", "a"], scores=[0.75, 0.5]),
            dict(shapes=[(1, 1), (1, 1)], how="all", by="meta", glabels=["a"], plabels=["a"]),
            dict(shapes=[(1, 1), (1, 1)], how="chain", by="meta", glabels=["a"], plabels=["a"], rows=1),
            dict(shapes=[(1, 1), (1, 1)], how="gt", by="datum", glabels=["a"], plabels=["a"]),
            dict(shapes=[(1, 1), (1, 1)], how="pd", by="datum", glabels=["a"], plabels=["a"], rows=1),
            dict(shapes=[(1, 1), (0, 1)], how="both", by="datum", glabels=["a"], plabels=["b"]),
            dict(shapes=[(1, 1)], how="both", by="meta", glabels=["a"], plabels=["a"], many=12, scores=[0.5]),
            dict(shapes=[(1, 1)], how="filter", by="tag", glabels=["a"], plabels=["a"], many=12, rows=64, scores=[0.5]),
        ],
        [
            dict(shapes=[(1, 2), (1, 1)], how="all", by="meta", glabels=["a"], plabels=["a", "a"], scores=[0.75, 0.5]),
            dict(shapes=[(2, 1), (1, 1)], how="chain", by="meta", glabels=["a", "b"], plabels=["a"]),
            dict(shapes=[(1, 1), (1, 1)], how="filter", by="tag"),
            dict(shapes=[(2, 2)], how="both", by="meta", glabels=["a", "a"], plabels=["a", "b"], scores=[0.75, 0.5]),
            dict(shapes=[(2, 2)], how="pd", by="meta", glabels=["a", "a"], plabels=["a", "a"], scores=[0.75, 0.5]),
            dict(shapes=[(1, 2), (1, 1)], how="filter", by="tag", glabels=["a"]),
            dict(shapes=[(1, 1), (1, 1)], how="both", by="meta", glabels=["a"], rows=1),
        ],
    ),
    bounds="1-2 datums with up to 2 ground truths and 2 predictions in total per datum side, 2 labels; every subset of datums, ground truths and/or predictions, selected by metadata (of the annotation or its datum), uid, label or symbolic score; filter() and datums=, in memory and on disk; IoUs, scores and thresholds symbolic; also behind two concrete datums of 12 annotations and as many labels",
    assumptions=[MATCH_NOTE],
    routes=ROUTES,
)
def filtering(ctx, shapes, how, by, rows=None, many=0, first=False, **kw):
    D = ctx.mod("object_detection")
    pc = ctx.pc
    scenes = cm_scenes(ctx, shapes, **kw)
    generic(ctx, scenes)
    # concrete datums in front, with many annotations and labels
    ls = ["a"] + [f"k{k}" for k in range(1, many)]
    if many:
        gts = [(f"g{k}", l) for k, l in enumerate(ls)]
        pds = [(f"p{k}", [ls[k - k % 2]], [(k * 5 % 18 + 1) / 32]) for k in range(many)]
        scenes[:0] = [Scene("m0", gts, [], [[] for _ in gts]), Scene("m1", [], pds, [])]
    ti, ts = (0.5, 0.25) if many else (thr_iou(ctx, "ti"), thr_score(ctx, "ts"))
    labels = labels_of(scenes)
    fields = [("tag", "string"), ("gtag", "string"), ("ptag", "string")]
    tags = {}

    def tag(name):
        if many and name[0] == "m":
            tags[name] = "xy"[sum(map(ord, name)) % 3 > 0]
        else:
            tags[name] = ctx.choose("t" + name, ["x", "y"])
        return tags[name]

    every = how in ("all", "chain")
    if how in ("param", "filter") or every or by == "datum":
        for sc in scenes:
            sc.meta = {"tag": tag(sc.uid)}
    if (how in ("gt", "both") or every) and by == "meta":
        for sc in scenes:
            sc.gmeta = {u: {"gtag": tag(sc.uid + "g" + u)} for u, _ in sc.gts}
    if (how in ("pd", "both") or every) and by == "meta":
        for sc in scenes:
            sc.pmeta = {u: {"ptag": tag(sc.uid + "p" + u)} for u, _, _ in sc.pds}
    loader = None
    path = None
    if rows is not None:
        loader = D.Loader.persistent(ctx.scratch(), batch_size=1, rows_per_file=rows, metadata_fields=fields)
        path = ctx.scratch()
    ev = od.load(ctx, scenes, loader=loader, meta=fields).finalize()
    if first:
        # evaluate everything once before the selection
        with_all = dict(iou_thresholds=[0.5], score_thresholds=[0.25])
        ev.compute_precision_recall(**with_all)
        ev.compute_confusion_matrix(**with_all)
        ev.compute_examples(**with_all)
        ev.compute_confusion_matrix_with_examples(**with_all)
    args = {}
    keep = scenes
    if how in ("param", "filter"):
        keep = [sc for sc in scenes if tags[sc.uid] == "x"]
        if by == "tag":
            args["datums"] = pc.field("tag") == "x"
        else:
            args["datums"] = pc.field("datum_uid").isin([sc.uid for sc in keep] + ["none"])
    else:
        gi = {sc.uid: list(range(len(sc.gts))) for sc in scenes}
        pj = {sc.uid: list(range(len(sc.pds))) for sc in scenes}
        for sc in scenes:
            if how in ("gt", "both") or every:
                ok = {"meta": lambda i: tags[sc.uid + "g" + sc.gts[i][0]] == "x", "datum": lambda i: tags[sc.uid] == "x"}.get(by, lambda i: sc.gts[i][1] == "a")
                gi[sc.uid] = [i for i in gi[sc.uid] if ok(i)]
                args["groundtruths"] = {"meta": pc.field("gtag") == "x", "datum": pc.field("tag") == "x"}.get(by, pc.field("gt_label") == "a")
        if how in ("pd", "both") or every:
            if by == "score":
                cut = ctx.real("cut", 0.0, 1.0, dec=True)
                args["predictions"] = pc.field("pd_score") >= cut
            else:
                args["predictions"] = pc.field("ptag" if by == "meta" else "tag") == "x"
            for sc in scenes:
                ok = {"meta": lambda j: tags[sc.uid + "p" + sc.pds[j][0]] == "x", "datum": lambda j: tags[sc.uid] == "x"}.get(by, lambda j: ctx.decide(sc.pds[j][2][0] >= cut))
                pj[sc.uid] = [j for j in pj[sc.uid] if ok(j)]
        if every:
            args["datums"] = pc.field("tag") == "x"
        keep = [_sub(sc, gi[sc.uid], pj[sc.uid]) for sc in scenes if not every or tags[sc.uid] == "x"]
        keep = [sc for sc in keep if sc.gts or sc.pds]
    info = ev.get_info(**args)
    if how in ("param", "filter"):
        ctx.check(info.number_of_datums == len(keep), "number of datums of the selection")
    ctx.check(info.number_of_groundtruth_annotations == sum(len(sc.gts) for sc in keep), "number of ground truths of the selection")
    ctx.check(info.number_of_prediction_annotations == sum(len(sc.pds) for sc in keep), "number of predictions of the selection")
    extra = {}
    if how == "param":
        src, extra = ev, args
    elif how == "chain":
        src = ev
        try:
            for k in sorted(args):
                src = src.filter(path=ctx.scratch() if rows else None, **{k: args[k]})
        except ctx.mod("exceptions").EmptyCacheError:
            ctx.check(not keep, "a selection with annotations in it is refused")
            return
        ctx.check(bool(keep), "an empty selection yields an evaluator")
    elif not keep:
        try:
            ev.filter(path=path, **args)
        except ctx.mod("exceptions").EmptyCacheError:
            return
        ctx.check(False, "an empty selection yields an evaluator")
    else:
        src = ev.filter(path=path, **args)
    kw = dict(iou_thresholds=[ti], score_thresholds=[ts], **extra)
    out = src.compute_precision_recall(**kw)
    check_counts(ctx, out, keep, [ti], [ts], labels)
    check_cm(ctx, src.compute_confusion_matrix(**kw), keep, [ti], [ts], labels)
    check_examples(ctx, src.compute_examples(**kw), keep, [ti], [ts])
    check_cm_examples(ctx, src.compute_confusion_matrix_with_examples(**kw), keep, [ti], [ts], labels)
    if how != "param":
        i2 = src.info
        ctx.check(i2.number_of_datums == len(keep), "number of datums kept")
        ctx.check(i2.number_of_groundtruth_annotations == sum(len(sc.gts) for sc in keep), "number of ground truths kept")
        ctx.check(i2.number_of_prediction_annotations == sum(len(sc.pds) for sc in keep), "number of predictions kept")
        ctx.check(i2.number_of_labels == len(labels), "label set of the selection")
        ctx.check([k for k, _ in i2.metadata_fields or []] == [k for k, _ in fields], "metadata fields of the selection")
    # ranking metrics: equal to those of an evaluator that only saw the selection
    if keep:
        MT = D.MetricType
        own = od.load(ctx, keep).finalize().compute_precision_recall(iou_thresholds=[ti], score_thresholds=[ts])
        for mt in (MT.AP, MT.AR, MT.PrecisionRecallCurve):
            for m in own[mt]:
                l = m.parameters["label"]
                got = [x for x in out[mt] if x.parameters["label"] == l]
                ctx.check(len(got) == 1, f"one {mt} per label")
                if mt is MT.PrecisionRecallCurve:
                    pairs = {(id(a), id(b)): (a, b) for a, b in zip(got[0].value["precisions"], m.value["precisions"])}
                    ctx.check(and_(*[approx(a, b) for a, b in pairs.values()]), "PR curve of the selection")
                else:
                    ctx.check(approx(got[0].value, m.value), f"{mt} of the selection")
