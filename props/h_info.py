"""What an evaluator says about itself."""
from symx.logic import and_, isum, not_, or_, ssum

from . import h_classification as hc
from . import h_detection as hd
from . import h_segmentation as hs
from . import od, task
from .common import eq, uid
from .h_cache import Q

FIELDS = [("tag", "string"), ("num", "float64"), ("gtag", "string"), ("ptag", "string")]


def loader_for(ctx, mod, store, batch=1):
    M = ctx.mod(mod)
    if store == "mem":
        return M.Loader.in_memory(batch_size=batch, metadata_fields=list(FIELDS)), None
    path = ctx.scratch()
    return M.Loader.persistent(path, batch_size=batch, rows_per_file=ctx.int("per_file", 1, 4), metadata_fields=list(FIELDS)), path


def again(ctx, mod, ev, path, store):
    return ctx.mod(mod).Evaluator.load(path) if store == "reload" else ev


def narrowed(ctx, ev, some, path, **how):
    """the filtered evaluator, None when nothing is selected."""
    if not ctx.decide(or_(False, *some)):
        return None
    if path is not None:
        how["path"] = ctx.scratch()
    return ev.filter(**how)


def selection(ctx, uids, kinds):
    """metadata per datum, an expression over it, and whether a datum satisfies it."""
    pc = ctx.pc
    how = ctx.choose("sel", list(kinds))
    tags = {u: ctx.choose("t" + u, ["x", "y"]) if how in ("tag", "and", "or", "not") else "x" for u in uids}
    nums = {u: ctx.real("n" + u, -2.0, 2.0, dec=True) if how in ("num", "and", "or") else 0.0 for u in uids}
    cut = ctx.real("cut", -2.0, 2.0, dec=True) if how in ("num", "and", "or") else 0.0
    meta = {u: {"tag": tags[u], "num": nums[u]} for u in uids}
    t, n = pc.field("tag") == "x", pc.field("num") >= cut
    expr = {"none": None, "tag": t, "num": n, "and": t & n, "or": t | n, "not": ~t}[how]

    def ok(u):
        a, b = tags[u] == "x", nums[u] >= cut
        return {"none": True, "tag": a, "num": b, "and": and_(a, b), "or": or_(a, b), "not": not a}[how]

    return meta, expr, ok


def fields_ok(ctx, info):
    ctx.check([(k, str(v)) for k, v in info.metadata_fields] in ([(k, v) for k, v in FIELDS], [(k, v.replace("float64", "double")) for k, v in FIELDS]), "metadata fields")


@task(
    "C25",
    lambda tier: Q(
        tier,
        [
            dict(nd=2, store="mem", kinds=["tag", "num"]),
            dict(nd=2, store="reload", kinds=["and"]),
            dict(nd=2, store="file", kinds=["or", "not"]),
            dict(nd=1, store="file", kinds=["none", "num"], crowd=20),
        ],
        [dict(nd=3, store="mem", kinds=["and", "or", "not"]), dict(nd=3, store="reload", kinds=["num", "tag"])],
    ),
    bounds="2-3 classification datums, each scoring any non-empty subset of 2 labels; datum expressions over a string and a symbolic numeric field (single, and, or, not); in memory, on disk with 1-4 rows per file, reloaded; also after 20 concrete datums; also the info of evaluators filtered by these expressions; also predictions of three labels",
)
def classification(ctx, nd, store, kinds, crowd=0):
    C = ctx.mod("classification")
    labels, data = hc.dataset(ctx, nd, 2, "fixed", sparse=True, crowd=crowd)
    meta, expr, ok = selection(ctx, [d[0] for d in data[crowd:]], kinds)
    loader, path = loader_for(ctx, "classification", store)
    loader.add_data([C.Classification(uid=u, groundtruth=gt, predictions=list(order), scores=[sc[l] for l in order], metadata=meta.get(u)) for u, gt, order, sc in data])
    ev = again(ctx, "classification", loader.finalize(), path, store)
    names = hc.used_labels(data)
    for info in (ev.info, ev.get_info()):
        ctx.check(info.number_of_datums == len(data), "number of datums")
        ctx.check(info.number_of_labels == len(names), "number of labels")
        ctx.check(info.number_of_rows == sum(len(d[2]) for d in data), "number of rows")
        fields_ok(ctx, info)
    if expr is not None:
        got = ev.get_info(datums=expr)
        kept = [ok(d[0]) for d in data[crowd:]]
        ctx.check(eq(got.number_of_datums, isum(kept)), "number of selected datums")
        ctx.check(got.number_of_labels == len(names), "number of labels")
        part = narrowed(ctx, ev, kept, path, datums=expr)
        if part is not None:
            ctx.check(eq(part.info.number_of_datums, isum(kept)), "number of datums after filtering")
            ctx.check(part.info.number_of_labels == len(names), "number of labels after filtering")
            ctx.check(eq(part.info.number_of_rows, isum([w for w, d in zip(kept, data[crowd:]) for _ in d[2]])), "number of rows after filtering")
            fields_ok(ctx, part.info)


@task(
    "C25",
    lambda tier: Q(
        tier,
        [
            dict(shapes=[(1, 1), (1, 1)], store="mem", kinds=["and"]),
            dict(shapes=[(2, 1), (0, 1)], store="reload", kinds=["tag"]),
            dict(shapes=[(1, 2), (1, 0), (0, 0)], store="file", kinds=["none", "num"]),
            dict(shapes=[(1, 1)], store="file", kinds=["or"], crowd=20),
            dict(shapes=[(1, 2), (1, 1)], store="file", kinds=["none"], several=True),
        ],
        [dict(shapes=[(2, 2), (1, 1)], store="mem", kinds=["num"]), dict(shapes=[(2, 1), (1, 2)], store="reload", kinds=["or", "not"])],
    ),
    bounds="1-3 detection datums of up to 2 ground truths and 2 predictions, symbolic IoUs, 2 labels; datum expressions over a string and a symbolic numeric field, ground-truth and prediction expressions over every subset; in memory, on disk with 1-4 rows per file, reloaded; also after 20 concrete datums; also the info of evaluators filtered by these expressions",
    routes=od.ROUTES,
)
def detection(ctx, shapes, store, kinds, crowd=0, several=False):
    scenes = hd.scenes_from(ctx, [], crowd=crowd) if crowd else []
    free = []
    for k, (g, p) in enumerate(shapes):
        free.append(od.scene(ctx, uid(k), g, p, glabels=["a", "b"][:g], plabels=["b", "a"][:p], scores=[0.75, 0.25][:p]))
    for s in free if several else []:
        s.pds = [(u, ls + ["c", "d"], ss + [ss[0] / 2, ss[0] / 4]) for u, ls, ss in s.pds]
    scenes = scenes + free
    pc = ctx.pc
    meta, expr, ok = selection(ctx, [s.uid for s in free], kinds)
    gtag, ptag = {}, {}
    marks = ctx.flag("marks")
    for s in free:
        s.meta = meta[s.uid]
        for u, _ in s.gts:
            gtag[s.uid, u] = ctx.choose("g" + s.uid + u, ["x", "y"]) if marks else "y"
        for u, _, _ in s.pds:
            ptag[s.uid, u] = ctx.choose("p" + s.uid + u, ["x", "y"]) if marks else "y"
        s.gmeta = {u: {"gtag": gtag[s.uid, u]} for u, _ in s.gts}
        s.pmeta = {u: {"ptag": ptag[s.uid, u]} for u, _, _ in s.pds}
    loader, path = loader_for(ctx, "object_detection", store)
    ev = again(ctx, "object_detection", od.load(ctx, scenes, loader=loader).finalize(), path, store)
    names = hd.labels_of(scenes)
    seen = [s for s in scenes if s.gts or s.pds]  # a datum without annotations leaves no trace
    for info in (ev.info, ev.get_info()):
        ctx.check(info.number_of_datums == len(seen), "number of datums")
        ctx.check(info.number_of_labels == len(names), "number of labels")
        ctx.check(info.number_of_groundtruth_annotations == sum(len(s.gts) for s in scenes), "number of ground truths")
        ctx.check(info.number_of_prediction_annotations == sum(len(s.pds) for s in scenes), "number of predictions")
        fields_ok(ctx, info)
    args = {}
    if expr is not None:
        args["datums"] = expr
    if marks:
        args["groundtruths"] = pc.field("gtag") == "x"
        args["predictions"] = pc.field("ptag") == "x"
    if args:
        got = ev.get_info(**args)
        sel = [(s, ok(s.uid) if expr is not None else True) for s in free]
        rest = [] if expr is not None else [s for s in scenes if s not in free]
        ctx.check(eq(got.number_of_datums, isum([w for s, w in sel if s.gts or s.pds]) + len(rest)), "number of selected datums")
        ng = isum([w for s, w in sel for u, _ in s.gts if not marks or gtag[s.uid, u] == "x"])
        np_ = isum([w for s, w in sel for u, _, _ in s.pds if not marks or ptag[s.uid, u] == "x"])
        if not marks:
            ng, np_ = ng + sum(len(s.gts) for s in rest), np_ + sum(len(s.pds) for s in rest)
        ctx.check(eq(got.number_of_groundtruth_annotations, ng), "number of selected ground truths")
        ctx.check(eq(got.number_of_prediction_annotations, np_), "number of selected predictions")
        ctx.check(got.number_of_labels == len(names), "number of labels")
        if not marks:
            part = narrowed(ctx, ev, [w for s, w in sel if s.gts or s.pds] + [bool(rest)], path, **args)
            if part is not None:
                ctx.check(eq(part.info.number_of_datums, got.number_of_datums), "number of datums after filtering")
                ctx.check(eq(part.info.number_of_groundtruth_annotations, ng), "number of ground truths after filtering")
                ctx.check(eq(part.info.number_of_prediction_annotations, np_), "number of predictions after filtering")
                ctx.check(part.info.number_of_labels == len(names), "number of labels after filtering")
                fields_ok(ctx, part.info)


@task(
    "C25",
    lambda tier: Q(
        tier,
        [
            dict(shapes=[(1, 2), (1, 1)], gl=["a"], pl=["a", "b"], store="mem", kinds=["and"]),
            dict(shapes=[(1, 2), (1, 1)], gl=["a", "b"], pl=["b"], store="reload", kinds=["tag"]),
            dict(shapes=[(1, 1), (2, 1)], gl=["a"], pl=[], store="file", kinds=["or", "none"]),
            dict(shapes=[(1, 2)], gl=["a"], pl=["a"], store="file", kinds=["num", "not"], fill=300),
        ],
        [dict(shapes=[(1, 2), (1, 2)], gl=["a", "b"], pl=["a", "b"], store="mem", kinds=["num"]), dict(shapes=[(1, 1)] * 3, gl=["a"], pl=["b"], store="reload", kinds=["and", "or"])],
    ),
    bounds="1-3 segmentation datums of 1-2 pixels, up to 2 masks per side, every bitmap; datum expressions over a string and a symbolic numeric field; in memory, on disk with 1-4 rows per file, reloaded; also images of 602 pixels",
)
def segmentation(ctx, shapes, gl, pl, store, kinds, fill=0):
    data = [hs.datum(ctx, uid(k), sh, gl, pl, fill=fill) for k, sh in enumerate(shapes)]
    meta, expr, ok = selection(ctx, [d.uid for d in data], kinds)
    for d in data:
        d.meta = meta[d.uid]
    loader, path = loader_for(ctx, "semantic_segmentation", store)
    ev = again(ctx, "semantic_segmentation", hs.evaluator(ctx, data, loader=loader).finalize(), path, store)
    names = hs.labels_of(data)
    hs.check_info(ctx, ev.info, data, names)
    fields_ok(ctx, ev.info)
    if expr is not None:
        got = ev.get_info(datums=expr)
        w = {d.uid: ok(d.uid) for d in data}
        ctx.check(eq(got.number_of_datums, isum(list(w.values()))), "number of selected datums")
        ctx.check(got.number_of_labels == len(names), "number of labels")

        def px(f):
            return isum([and_(w[d.uid], f(d, q)) for d in data for q in range(d.n)])

        part = narrowed(ctx, ev, list(w.values()), path, datums=expr)
        if part is not None:
            for k in ("datums", "pixels", "groundtruth_pixels", "prediction_pixels", "labels"):
                ctx.check(eq(getattr(part.info, "number_of_" + k), getattr(got, "number_of_" + k)), f"number of {k} after filtering")
            fields_ok(ctx, part.info)
        ctx.check(eq(got.number_of_pixels, px(lambda d, q: True)), "number of selected pixels")
        ctx.check(eq(got.number_of_groundtruth_pixels, px(lambda d, q: not_(hs.has(d.gts, None, q)))), "number of selected ground-truth pixels")
        ctx.check(eq(got.number_of_prediction_pixels, px(lambda d, q: not_(hs.has(d.pds, None, q)))), "number of selected prediction pixels")
