"""Cache: write/read, external sort, pagination, lifecycle."""
import os

from symx.logic import and_, iff, implies, isum, ite, not_, or_, ssum

from . import task
from .common import eq


def Q(tier, quick, thorough):
    return quick + (thorough if tier == "thorough" else [])


def schema(ctx):
    pa = ctx.pa
    return pa.schema([("id", pa.int64()), ("v", pa.float64()), ("k", pa.int64()), ("s", pa.string())])


def text(i):
    return [f"s{i}", None, "", f"\u00fc\n{i}"][i % 4] if i else "s0"


class Rows:
    """rows with a concrete identity and symbolic contents."""

    def __init__(self, ctx, lo=-4, hi=4):
        self.ctx, self.rows, self.lo, self.hi = ctx, [], lo, hi

    def new(self, n, fixed=False):
        ctx = self.ctx
        out = []
        for _ in range(n):
            i = len(self.rows)
            if fixed:
                r = {"id": i, "v": (i * 7 % 11) / 2 - 3.0, "k": i * 5 % 9 - 4, "s": text(i)}
            else:
                r = {"id": i, "v": ctx.real(f"v{i}", -8.0, 8.0, dec=True), "k": ctx.int(f"k{i}", self.lo, self.hi), "s": text(i)}
            self.rows.append(r)
            out.append(r)
        return out


def cols(rows):
    return {c: [r[c] for r in rows] for c in ("id", "v", "k", "s")}


def write(ctx, writer, kind, rows):
    pa = ctx.pa
    sch = schema(ctx)
    if kind == "rows":
        writer.write_rows(rows)
    elif kind == "columns":
        writer.write_columns(cols(rows))
    elif kind == "batch":
        writer.write_batch(pa.RecordBatch.from_pylist(rows, schema=sch))
    elif kind == "table":
        writer.write_table(pa.Table.from_pylist(rows, schema=sch))


def read(tables):
    out = []
    for t in tables:
        out += t.to_pylist()
    return out


def same_rows(ctx, got, want, what, columns=("id", "v", "k", "s")):
    ctx.check([r["id"] for r in got] == [r["id"] for r in want], f"{what}: rows or their order differ")
    for a, b in zip(got, want):
        for c in columns:
            if c in ("v", "k"):
                ctx.check(eq(a[c], b[c]), f"{what}: value of column {c}")
            elif c == "s":
                ctx.check(a[c] == b[c], f"{what}: value of column {c}")


OPS = [("rows", 1), ("rows", 2), ("columns", 1), ("batch", 2), ("table", 1), ("table", 2), ("flush", 0)]


def make_writer(ctx, kind, batch, per_file, compression="snappy", name=None):
    Ca = ctx.mod("cache")
    if kind == "mem":
        return Ca.MemoryCacheWriter.create(schema=schema(ctx), batch_size=batch)
    return Ca.FileCacheWriter.create(path=ctx.scratch(name), schema=schema(ctx), batch_size=batch, rows_per_file=per_file, compression=compression)


@task(
    "C15",
    lambda tier: Q(
        tier,
        [
            dict(kind="mem", ops=3, sizes=True),
            dict(kind="file", ops=2, sizes=True),
            dict(kind="file", ops=3, sizes=True, only=["rows1", "rows2", "table1", "flush0"]),
            dict(kind="file", ops=4, sizes=True, only=["rows1", "rows2"]),
            dict(kind="mem", ops=2, sizes=True, only=["rows1", "batch2", "table1", "flush0"], prelude=[1] * 13 + [30]),
            dict(kind="file", ops=2, sizes=True, only=["rows1", "batch2", "table1", "flush0"], prelude=[1] * 13 + [30]),
            dict(kind="file", ops=3, sizes=True, only=["rows1", "table1"], empty=True),
            dict(kind="file", ops=2, sizes=True, only=["rows1", "table1"], names=["c[1]", "c*d", "{c}", "c d", "_c", ".c", "0", "c?"]),
        ],
        [
            dict(kind="mem", ops=4, sizes=True),
            dict(kind="file", ops=3, sizes=True),
            dict(kind="file", ops=5, sizes=True, only=["rows1", "rows2"]),
            dict(kind="file", ops=4, sizes=True, only=["rows1", "columns1", "table2", "flush0"]),
        ],
    ),
    bounds="every history of up to 3 (4 thorough) writes out of write_rows (1 or 2 rows), write_columns, write_batch, write_table and flush; batch size and rows per file symbolic in 1..5; row contents symbolic; directory names with special characters; memory and file caches; also with empty writes in between and after 43 concrete rows in 14 writes",
)
def roundtrip(ctx, kind, ops, sizes, only=None, names=None, prelude=(), empty=False):
    Ca = ctx.mod("cache")
    batch, per_file = ctx.int("batch", 1, 5), ctx.int("per_file", 1, 5)
    rows = Rows(ctx)
    table_sizes = []
    name = ctx.choose("name", names) if names else None
    choices = [o for o in OPS if only is None or f"{o[0]}{o[1]}" in only]
    w = make_writer(ctx, kind, batch, per_file, name=name)
    biggest = 0
    for n in prelude:
        write(ctx, w, "rows", rows.new(n, fixed=True))
        biggest = max(biggest, n)
    for i in range(ops):
        if empty:
            write(ctx, w, ctx.choose(f"empty{i}", ["rows", "table", "none"]), [])
        op, n = ctx.choose(f"op{i}", choices)
        if op == "flush":
            w.flush()
        else:
            write(ctx, w, op, rows.new(n))
            if op != "table":
                biggest = max(biggest, n)
            table_sizes.append(n)
    w.flush()
    want = rows.rows
    ctx.check(eq(w.count_rows(), len(want)), "row count of the flushed writer")
    readers = [("reader", w.to_reader())]
    if kind == "file":
        readers.append(("reloaded reader", Ca.FileCacheReader.load(w.path)))
    for what, r in readers:
        ctx.check(eq(r.count_rows(), len(want)), f"{what}: row count")
        tables = list(r.iterate_tables())
        same_rows(ctx, read(tables), want, what)
        ctx.check(eq(r.batch_size, batch), f"{what}: batch size")
        ctx.check(r.schema.names == ["id", "v", "k", "s"], f"{what}: schema")
        if kind == "file":
            ctx.check(eq(r.rows_per_file, per_file), f"{what}: rows per file")
            ctx.check(r.count_tables() == len(tables), f"{what}: number of files")
            for t in tables:
                ctx.check(
                    or_(t.num_rows <= (per_file - 1) + (batch - 1) + biggest, t.num_rows in (1, 2) and any(x == t.num_rows for x in table_sizes)),
                    f"{what}: a file holds more rows than configured",
                )
    # the other ways of reading agree
    r = readers[-1][1]
    bs = ctx.choose("bs", [1, 2]) if ops < 3 else 2
    got = []
    for it in r.iterate_fragment_batch_iterators(batch_size=bs):
        for b in it:
            ctx.check(b.num_rows <= bs, "a batch is larger than requested")
            got += b.to_pylist()
    same_rows(ctx, got, want, "fragment batches")
    got = []
    for arr in r.iterate_arrays(numeric_columns=["k", "id", "v"]):
        got += [{"k": arr[i, 0], "id": int(arr[i, 1]), "v": arr[i, 2]} for i in range(arr.shape[0])]
    same_rows(ctx, got, want, "arrays", columns=("v", "k"))
    got = []
    for t, arr in r.iterate_tables_with_arrays(columns=["s"], numeric_columns=["v", "id"]):
        for i, x in enumerate(t.to_pylist()):
            got.append({"s": x["s"], "v": arr[i, 0], "id": int(arr[i, 1])})
    same_rows(ctx, got, want, "tables with arrays", columns=("s", "v"))


@task(
    "C15",
    lambda tier: Q(
        tier,
        [dict(kind="mem", n=3, per=2), dict(kind="file", n=3, per=2), dict(kind="file", n=3, per=1)],
        [dict(kind="file", n=4, per=2)],
    ),
    bounds="3 (4 thorough) rows with symbolic values, filter on a symbolic cut, 1-2 rows per file",
)
def filtered_read(ctx, kind, n, per):
    pc = ctx.pc
    rows = Rows(ctx)
    w = make_writer(ctx, kind, per, per)
    for _ in range(n):
        write(ctx, w, "rows", rows.new(1))
    r = w.to_reader()
    cut = ctx.real("cut", -8.0, 8.0, dec=True)
    how = ctx.choose("how", ["v", "k", "both"])
    if how == "v":
        expr, sel = pc.field("v") >= cut, lambda x: x["v"] >= cut
    elif how == "k":
        expr, sel = pc.field("k") < 1, lambda x: x["k"] < 1
    else:
        expr, sel = (pc.field("v") < cut) | (pc.field("k") == 2), lambda x: or_(x["v"] < cut, eq(x["k"], 2))
    got = read(r.iterate_tables(filter=expr))
    want = [x for x in rows.rows if ctx.decide(sel(x))]
    same_rows(ctx, got, want, "filtered tables")
    got = []
    for arr in r.iterate_arrays(numeric_columns=["id", "v"], filter=expr):
        got += [{"id": int(arr[i, 0]), "v": arr[i, 1]} for i in range(arr.shape[0])]
    same_rows(ctx, got, want, "filtered arrays", columns=("v",))
    got = []
    for t, arr in r.iterate_tables_with_arrays(columns=["s"], numeric_columns=["v", "id"], filter=expr):
        for i, x in enumerate(t.to_pylist()):
            got.append({"s": x["s"], "v": arr[i, 0], "id": int(arr[i, 1])})
    same_rows(ctx, got, want, "filtered tables with arrays", columns=("s", "v"))


# ---------------------------------------------------------------- C16 sort
def ordered(a, b, sorting):
    """row a may come before row b."""
    c = True
    for col, direction in reversed(sorting):
        x, y = (a[col], b[col]) if direction == "ascending" else (b[col], a[col])
        c = or_(x < y, and_(x <= y, c))
    return c


SORTS = {
    "vd": [("v", "descending")],
    "va": [("v", "ascending")],
    "kd_va": [("k", "descending"), ("v", "ascending")],
    "vd_kd": [("v", "descending"), ("k", "descending")],
    "ka_vd": [("k", "ascending"), ("v", "descending")],
    "id_d": [("id", "descending")],
}


@task(
    "C16",
    lambda tier: Q(
        tier,
        [
            dict(src="file", sink="file", writes=[1, 1, 1], per=1, sort="vd"),
            dict(src="file", sink="file", writes=[1, 2], per=1, sort="ka_vd"),
            dict(src="file", sink="file", writes=[2, 1], per=2, sort="vd_kd"),
            dict(src="file", sink="mem", writes=[1, 2], per=1, sort="va"),
            dict(src="file", sink="mem", writes=[2, 1], per=1, sort="ka_vd"),
            dict(src="mem", sink="file", writes=[1, 1, 1], per=1, sort="vd_kd"),
            dict(src="mem", sink="mem", writes=[2, 1], per=1, sort="kd_va"),
            dict(src="file", sink="file", writes=[3], per=1, sort="vd_kd"),
            dict(src="file", sink="file", writes=[2, 2], per=1, sort="vd"),
            dict(src="file", sink="mem", writes=[2, 2], per=2, sort="vd"),
            dict(src="file", sink="file", writes=[1], per=1, sort="vd", crowd=[1] * 12),
            dict(src="file", sink="file", writes=[1, 1], per=3, sort="ka_vd", crowd=[3, 2, 3, 1]),
            dict(src="file", sink="mem", writes=[1], per=4, sort="kd_va", crowd=[4, 4, 4]),
            dict(src="file", sink="file", writes=[1], per=30, sort="vd_kd", crowd=[30, 25]),
            dict(src="file", sink="file", writes=[1, 1, 1], per=1, sort="id_d"),
            dict(src="file", sink="file", writes=[], per=1, sort="vd"),
            dict(src="mem", sink="file", writes=[], per=1, sort="vd"),
        ],
        [
            dict(src="file", sink="file", writes=[1, 1, 1, 1], per=1, sort="vd"),
            dict(src="file", sink="file", writes=[3, 2], per=3, sort="vd"),
            dict(src="file", sink="file", writes=[2, 2], per=1, sort="ka_vd"),
            dict(src="file", sink="mem", writes=[2, 2], per=1, sort="vd_kd"),
            dict(src="mem", sink="file", writes=[2, 2], per=1, sort="kd_va"),
        ],
    ),
    bounds="3-4 rows (5 thorough) with symbolic float and integer keys (all tie patterns) split over 1-4 files, six key/direction combinations, 1-2 symbolic rows among 9-55 concrete ones in up to 13 files, an empty source, merge batch size symbolic 1..3, sink batch size and rows per file symbolic 1..3, memory and file sources and sinks",
)
def sorting(ctx, src, sink, writes, per, sort, crowd=()):
    Ca = ctx.mod("cache")
    rows = Rows(ctx)
    w = make_writer(ctx, src, 1, per)
    for n in crowd:
        write(ctx, w, "rows", rows.new(n, fixed=True))
    for n in writes:
        write(ctx, w, "rows", rows.new(n))
    w.flush()
    r = w.to_reader()
    sb, sp = ctx.int("sink_batch", 1, 3), ctx.int("sink_rows", 1, 3)
    out = make_writer(ctx, sink, sb, sp)
    bs = ctx.choose("bs", [1, 2, 3])
    spec = SORTS[sort]
    Ca.sort(source=r, sink=out, batch_size=bs, sorting=[tuple(x) for x in spec])
    # the sink is complete once sort has returned
    got = read((out.to_reader() if sink == "mem" else Ca.FileCacheReader.load(out.path)).iterate_tables())
    ctx.check(sorted(x["id"] for x in got) == list(range(len(rows.rows))), "the sink does not hold every row exactly once")
    for x in got:
        y = rows.rows[x["id"]]
        ctx.check(and_(eq(x["v"], y["v"]), eq(x["k"], y["k"]), x["s"] == y["s"]), "a row changed while sorting")
    for a, b in zip(got, got[1:]):
        ctx.check(ordered(rows.rows[a["id"]], rows.rows[b["id"]], spec), "rows out of order")
    same_rows(ctx, read(w.to_reader().iterate_tables()), rows.rows, "the source after sorting")


@task(
    "C16",
    lambda tier: Q(
        tier,
        [dict(kind="mem", writes=[1, 2], per=1), dict(kind="file", writes=[2, 2], per=2), dict(kind="file", writes=[3], per=3)],
        [dict(kind="file", writes=[3, 1], per=3), dict(kind="mem", writes=[4], per=1)],
    ),
    bounds="local sort_by over 3-4 rows, symbolic keys, one or two files",
)
def local_sort(ctx, kind, writes, per):
    rows = Rows(ctx)
    w = make_writer(ctx, kind, 1, per)
    groups = []
    for n in writes:
        g = rows.new(n)
        write(ctx, w, "rows", g)
        groups.append([r["id"] for r in g])
    spec = SORTS["vd_kd"]
    w.sort_by([tuple(x) for x in spec])
    tables = [t.to_pylist() for t in w.to_reader().iterate_tables()]
    if kind == "mem":
        groups = [[r["id"] for r in rows.rows]]
    ctx.check([sorted(r["id"] for r in t) for t in tables] == groups, "a local sort moved rows between files")
    for t in tables:
        for x in t:
            y = rows.rows[x["id"]]
            ctx.check(and_(eq(x["v"], y["v"]), eq(x["k"], y["k"]), x["s"] == y["s"]), "a row changed while sorting")
        for a, b in zip(t, t[1:]):
            ctx.check(ordered(rows.rows[a["id"]], rows.rows[b["id"]], spec), "rows out of order")
