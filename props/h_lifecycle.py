"""Creating, loading and deleting caches."""
import os

from symx.logic import and_

from . import h_classification as hc
from . import h_detection as hd
from . import h_segmentation as hs
from . import od, task
from .common import eq
from .h_cache import Q, Rows, read, same_rows, schema, write


def snapshot(root, skip=()):
    """every file below root with its bytes."""
    out = {}
    for base, dirs, files in os.walk(root):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), root) + "/"] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return {k: v for k, v in out.items() if not any(k == s or k.startswith(s + "/") for s in skip)}


FOREIGN = ["notes.txt", "sub/data.bin", "sub/000000.parquet", "000000.parquet.bak", "cfg", ".hidden", "other.json"]


@task(
    "C19",
    lambda tier: Q(
        tier,
        [dict(steps=3), dict(steps=2, foreign=FOREIGN)],
        [dict(steps=4), dict(steps=3, foreign=FOREIGN)],
    ),
    bounds="every history of up to 3 steps (4 thorough) out of create, create with deletion, write+flush, load and delete at one path, in a folder of its own, with a sibling cache and foreign files further up; every history of 2 (3) more steps on a written cache with one of 7 kinds of foreign file inside; row contents and rows per file symbolic",
)
def history(ctx, steps, foreign=None):
    Ca = ctx.mod("cache")
    W, R = Ca.FileCacheWriter, Ca.FileCacheReader
    base = ctx.scratch("base")
    # the cache is the only entry of the folder around it
    around = os.path.join(base, "mine", "only")
    os.makedirs(around)
    path = os.path.join(around, "cache")
    sibling = os.path.join(base, "cache2")
    rows = Rows(ctx)
    per = ctx.int("per", 1, 2)

    def create(p, **kw):
        return W.create(path=p, schema=schema(ctx), batch_size=1, rows_per_file=per, **kw)

    sib = create(sibling)
    write(ctx, sib, "rows", rows.new(1))
    sib.flush()
    with open(os.path.join(base, "keep.parquet"), "w") as f:
        f.write("not ours")
    outside = snapshot(base, skip=("mine/only/cache", "mine/only/cache/"))
    writer, live, planted = None, None, {}
    fname = ctx.choose("foreign", foreign) if foreign else None

    def own():
        """files of the cache directory that belong to the cache."""
        return sorted(k for k in (snapshot(path) if os.path.isdir(path) else {}) if k not in planted)

    plan = ["create", "write"] if foreign else []
    for i in range(len(plan) + steps):
        op = plan[i] if i < len(plan) else ctx.choose(f"op{i}", ["create", "recreate", "write", "load", "delete"])
        before = snapshot(path) if os.path.isdir(path) else None
        if op == "create":
            try:
                w = create(path)
            except FileExistsError:
                ctx.check(before is not None, "an absent path is refused")
                ctx.check(snapshot(path) == before, "a refused creation changed the existing cache")
            else:
                ctx.check(before is None, "an existing path is overwritten")
                writer, live = w, []
        elif op == "recreate":
            try:
                w = create(path, delete_if_exists=True)
            except OSError:
                ctx.check(before is not None and bool(planted), "re-creation of a plain cache is refused")
            else:
                ctx.check(not planted, "foreign files vanished with the cache")
                writer, live = w, []
        elif op == "write":
            if live is None:
                continue
            new = rows.new(1)
            write(ctx, writer, "rows", new)
            writer.flush()
            live = live + new
            if fname and not planted:
                full = os.path.join(path, fname)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, "w") as f:
                    f.write("mine")
                d = os.path.dirname(fname)
                planted = {fname: b"mine", **({d + "/": None} if d else {})}
        elif op == "load":
            try:
                r = R.load(path)
            except OSError:
                ctx.check(live is None, "an existing cache cannot be loaded")
            else:
                ctx.check(live is not None, "a path without a cache is loaded")
                if not planted:
                    ctx.check(r.count_rows() == len(live), "rows after loading")
                    got = read(r.iterate_tables()) if live else []
                    same_rows(ctx, got, live, "loaded cache")
        else:
            try:
                W.delete(path)
            except OSError:
                ctx.check(before is not None and bool(planted), "deleting a plain cache fails")
            else:
                ctx.check(not planted, "foreign files vanished with the cache")
                ctx.check(not os.path.exists(path), "the deleted cache still exists")
        if op in ("recreate", "delete") and before is not None:
            now = snapshot(path) if os.path.isdir(path) else {}
            ctx.check(all(now.get(k, 0) == v for k, v in planted.items()), "a foreign file was removed or changed")
            if op == "delete" or planted:
                ctx.check(own() == [], "own files left behind by a deletion")
                live = writer = None
        ctx.check(snapshot(base, skip=("mine/only/cache", "mine/only/cache/")) == outside, "files outside the cache were touched")


@task(
    "C19",
    [dict()],
    bounds="a path that is absent, a plain file, or a directory of user files without a cache; create, create with deletion, delete and load",
)
def not_a_cache(ctx):
    Ca = ctx.mod("cache")
    W, R = Ca.FileCacheWriter, Ca.FileCacheReader
    base = ctx.scratch("base")
    os.makedirs(base)
    path = os.path.join(base, "p")
    what = ctx.choose("what", ["absent", "file", "empty dir", "user dir"])
    if what == "file":
        with open(path, "w") as f:
            f.write("x")
    elif what != "absent":
        os.makedirs(path)
        if what == "user dir":
            for n in ("000000.parquet", "b.txt"):
                with open(os.path.join(path, n), "w") as f:
                    f.write("x")
    before = snapshot(base)
    op = ctx.choose("op", ["create", "recreate", "delete", "load"])
    batch = ctx.int("batch", 1, 3)
    try:
        if op == "load":
            R.load(path)
        elif op == "delete":
            W.delete(path)
        else:
            W.create(path=path, schema=schema(ctx), batch_size=batch, rows_per_file=1, delete_if_exists=op == "recreate")
    except OSError:
        ctx.check(op == "load" or what != "absent", "an absent path is refused")
        ctx.check(snapshot(base) == before, "a refused operation changed files")
        return
    ctx.check(op != "load", "a path without a cache is loaded")
    if op == "delete":
        ctx.check(snapshot(base) == before, "deleting where there is no cache changed files")
    elif op in ("create", "recreate"):
        ctx.check(what in ("absent",), "an existing path was taken over")
        ctx.check(R.load(path).count_rows() == 0, "the new cache is not empty")


def _cls(ctx, path, v):
    C = ctx.mod("classification")
    s = 0.5 if v else 0.75
    loader = C.Loader.persistent(path)
    hc.build(ctx, [("u0", "a", ["a", "b"], {"a": ctx.real("s", 0.0, 1.0) if not v else s, "b": 0.25})], loader=loader)
    return loader.finalize()


def _det(ctx, path, v):
    D = ctx.mod("object_detection")
    sc = od.scene(ctx, f"d{v}", 1, 1, glabels=["a"], plabels=["a"], scores=[0.5])
    return od.load(ctx, [sc], loader=D.Loader.persistent(path)).finalize()


def _seg(ctx, path, v):
    S = ctx.mod("semantic_segmentation")
    d = hs.datum(ctx, f"d{v}", (1, 1), ["a"], ["a"])
    return hs.evaluator(ctx, [d], loader=S.Loader.persistent(path)).finalize()


@task(
    "C19",
    [dict(mod="classification"), dict(mod="object_detection"), dict(mod="semantic_segmentation")],
    bounds="an evaluator on disk with symbolic contents; building, or filtering, into its path again; loading a missing path",
    routes=od.ROUTES,
)
def evaluators(ctx, mod):
    M = ctx.mod(mod)
    make = {"classification": _cls, "object_detection": _det, "semantic_segmentation": _seg}[mod]
    path = ctx.scratch("ev")
    try:
        M.Evaluator.load(path)
    except OSError:
        pass
    else:
        ctx.check(False, "a missing evaluator is loaded")
    ev = make(ctx, path, 0)
    before = snapshot(path)
    again = ctx.choose("again", ["build", "filter"])
    try:
        if again == "build":
            make(ctx, path, 1)
        else:
            ev.filter(datums=ctx.pc.field("datum_id") >= 0, path=path)
    except FileExistsError:
        pass
    else:
        ctx.check(False, "an existing evaluator is overwritten")
    ctx.check(snapshot(path) == before, "the existing evaluator changed")
    M.Evaluator.load(path)
