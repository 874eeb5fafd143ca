"""Pagination of examples."""
from symx.logic import and_, iff, or_

from . import h_classification as hc
from . import h_detection as hd
from . import od, task
from .common import uid
from .h_cache import Q, Rows, make_writer, read, same_rows, write


def page(ctx, n, near=0):
    """symbolic offset, and a limit that may be absent."""
    offset = ctx.int("offset", max(0, near - 3), n + 2)
    limit = ctx.int("limit", 1, n + 2) if ctx.flag("has_limit") else None
    return offset, limit


def inside(i, offset, limit):
    return and_(i >= offset, i < offset + limit) if limit is not None else i >= offset


@task(
    "C17",
    lambda tier: Q(
        tier,
        [
            dict(kind="mem", sizes=[1, 2, 1], per=1),
            dict(kind="file", sizes=[1, 2, 1], per=1),
            dict(kind="file", sizes=[2, 1, 1, 1], per=2),
            dict(kind="file", sizes=[1, 1, 1], per=2, modifier=True),
            dict(kind="mem", sizes=[1, 1, 1], per=2, modifier=True),
            dict(kind="mem", sizes=[2, 1, 2], per=1, rev=True),
            dict(kind="file", sizes=[2, 1, 2], per=9, rev=True),
            dict(kind="file", sizes=[1] * 12, per=1, near=11),
            dict(kind="file", sizes=[2, 1, 30, 1, 2], per=4),
            dict(kind="mem", sizes=[3, 1] * 6, per=1, near=6),
        ],
        [
            dict(kind="file", sizes=[1, 2, 1, 3, 1], per=3),
            dict(kind="file", sizes=[1, 1, 2, 1], per=2, modifier=True),
            dict(kind="mem", sizes=[1, 3, 1, 2, 1], per=1, rev=True),
        ],
    ),
    bounds="3-4 keys (5 thorough) of 1-3 rows each, symbolic offset 0..n+2 and limit 1..n+2 or absent, files of 1..9 rows, optional modifier on symbolic values; keys in and out of order inside a file; also 12 keys in 12 files and a key of 30 rows",
)
def paginate(ctx, kind, sizes, per, modifier=False, rev=False, near=0):
    comp = ctx.mod("cache.compute")
    rows = Rows(ctx)
    w = make_writer(ctx, kind, 1, per)
    groups = []
    for n in sizes:
        groups.append(rows.new(n))
    for key, g in enumerate(groups):
        for r in g:
            r["k"] = key
    if modifier:
        for g in groups:
            for r in g[1:]:
                r["v"] = g[0]["v"]
    # a key is never split over two files
    if rev:
        write(ctx, w, "rows", [r for g in reversed(groups) for r in g])
    else:
        for g in groups:
            write(ctx, w, "rows", g)
    reader = w.to_reader()
    offset, limit = page(ctx, len(sizes), near)
    expr = None
    kept = groups
    if modifier:
        expr = ctx.pc.field("v") >= 0.5
        kept = [g for g in groups if ctx.decide(g[0]["v"] >= 0.5)]
    got = read(comp.paginate_index(source=reader, column_key="k", modifier=expr, limit=limit, offset=offset))
    ids = [r["id"] for r in got]
    ctx.check(len(set(ids)) == len(ids), "a row appears twice on one page")
    allowed = set()
    for i, g in enumerate(kept):
        for r in g:
            allowed.add(r["id"])
            ctx.check(iff(inside(i, offset, limit), r["id"] in ids), f"key {r['k']} on the wrong page")
    ctx.check(set(ids) <= allowed, "a row outside the selection")
    for r in got:
        same_rows(ctx, [r], [rows.rows[r["id"]]], "page", columns=("s", "v", "k"))


def _uids(ms, per):
    out = []
    for m in ms:
        u = m.value["datum_id"]
        if u not in out:
            out.append(u)
    return out, all(sum(1 for m in ms if m.value["datum_id"] == u) == per for u in out)


@task(
    "C17",
    lambda tier: Q(
        tier,
        [
            dict(nd=3, rows=None, tags=False),
            dict(nd=3, rows=1, tags=False),
            dict(nd=3, rows=None, tags=True),
            dict(nd=4, rows=4, tags=True),
            dict(nd=12, rows=2, tags=False, near=11),
        ],
        [dict(nd=5, rows=4, tags=True), dict(nd=5, rows=6, tags=False)],
    ),
    bounds="3-4 classification datums (5 thorough) with one symbolic score, symbolic offset and optional limit, every tag subset, in memory and 1-4 rows per file; 2 thresholds; also the last pages of 12 datums",
)
def classification_pages(ctx, nd, rows, tags, near=0):
    C = ctx.mod("classification")
    s = hc.score(ctx, "s")
    data = [(uid(d), "ab"[d % 2], ["a", "b"], {"a": s if d == 1 else 0.75, "b": 0.25}) for d in range(nd)]
    tg = [ctx.choose(f"tag{d}", ["x", "y"]) for d in range(nd)] if tags else ["x"] * nd
    loader = None
    if rows is not None:
        loader = C.Loader.persistent(ctx.scratch(), batch_size=1, rows_per_file=rows, metadata_fields=[("tag", "string")])
    ev = hc.build(ctx, data, meta=tg, loader=loader).finalize()
    offset, limit = page(ctx, nd, near)
    kw = dict(score_thresholds=[0.5, 0.25], hardmax=True)
    if tags:
        kw["datums"] = ctx.pc.field("tag") == "x"
    ms = ev.compute_examples(limit=limit, offset=offset, **kw)
    got, full = _uids(ms, 2)
    ctx.check(full, "one record per datum and threshold")
    kept = [d for d, t in zip(data, tg) if t == "x"]
    sel = []
    for i, d in enumerate(kept):
        ctx.check(iff(inside(i, offset, limit), d[0] in got), f"datum {d[0]} on the wrong page")
        if d[0] in got:
            sel.append(d)
    ctx.check(set(got) == {d[0] for d in sel}, "foreign datum on the page")
    hc.check_examples(ctx, ms, sel, [0.5, 0.25], True)


@task(
    "C17",
    lambda tier: Q(
        tier,
        [
            dict(shapes=[(1, 1), (1, 0), (0, 1)], rows=None, tags=False),
            dict(shapes=[(1, 1), (2, 1), (1, 1)], rows=1, tags=False),
            dict(shapes=[(1, 1), (1, 0), (0, 1)], rows=None, tags=True),
            dict(shapes=[(1, 1), (0, 2), (1, 1), (1, 0)], rows=2, tags=True),
            dict(shapes=[(1, 0)] * 10 + [(1, 1), (0, 1)], rows=1, tags=False, near=11),
        ],
        [dict(shapes=[(1, 1), (0, 2), (1, 1), (1, 0), (2, 0)], rows=3, tags=True)],
    ),
    bounds="3-4 detection datums (5 thorough) of 0-2 annotations per side, symbolic IoUs, symbolic offset and optional limit, every tag subset, in memory and 1-3 rows per file; also the last pages of 12 datums",
    routes=od.ROUTES,
)
def detection_pages(ctx, shapes, rows, tags, near=0):
    D = ctx.mod("object_detection")
    scenes = []
    for k, (g, p) in enumerate(shapes):
        scenes.append(od.scene(ctx, uid(k), g, p, glabels=["a", "b"][:g], plabels=["a", "b"][:p], scores=[0.375 + k * 5 % 8 / 16, 0.3125 + k * 3 % 8 / 16][:p]))
    hd.no_pair_ties(ctx, scenes)
    for sc in scenes:
        sc.meta = {"tag": ctx.choose(f"tag{sc.uid}", ["x", "y"]) if tags else "x"}
    fields = [("tag", "string")]
    loader = None
    if rows is not None:
        loader = D.Loader.persistent(ctx.scratch(), batch_size=1, rows_per_file=rows, metadata_fields=fields)
    ev = od.load(ctx, scenes, loader=loader, meta=fields).finalize()
    offset, limit = page(ctx, len(shapes), near)
    kw = dict(iou_thresholds=[0.5], score_thresholds=[0.25])
    if tags:
        kw["datums"] = ctx.pc.field("tag") == "x"
    ms = ev.compute_examples(limit=limit, offset=offset, **kw)
    got, full = _uids(ms, 1)
    ctx.check(full, "one record per datum")
    kept = [sc for sc in scenes if sc.meta["tag"] == "x"]
    sel = []
    for i, sc in enumerate(kept):
        ctx.check(iff(inside(i, offset, limit), sc.uid in got), f"datum {sc.uid} on the wrong page")
        if sc.uid in got:
            sel.append(sc)
    ctx.check(set(got) == {sc.uid for sc in sel}, "foreign datum on the page")
    hd.check_examples(ctx, ms, sel, [0.5], [0.25])
