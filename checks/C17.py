from lib import mc, ds, envsetup, objstore
import datetime, decimal, hashlib, io, itertools, json, os, shutil, sys, types
import numpy as np
import pyarrow as pa, pyarrow.parquet as pq
import litdata
import litdata.streaming.item_loader as il
import litdata.utilities.parquet as up
from litdata import StreamingDataset, StreamingDataLoader, index_parquet_dataset
from litdata.streaming.item_loader import ParquetLoader

if hasattr(il, "_FORCE_DOWNLOAD_TIME"): il._FORCE_DOWNLOAD_TIME = 0.06
if hasattr(il, "_MAX_WAIT_TIME"): il._MAX_WAIT_TIME = 20
MODES = [(pre, low) for pre in (False, True) for low in (True, False)]


def write(path, groups, start=0, columns=None):
    """A parquet file whose row groups have the given sizes."""
    n = sum(groups)
    cols = columns(start, n) if columns else {"i": pa.array(range(start, start + n), pa.int64()), "s": pa.array([f"v{r}" if r % 3 else None for r in range(start, start + n)], pa.string()),
                                              "f": pa.array([r / 4 for r in range(start, start + n)], pa.float64())}
    t = pa.table(cols)
    k = 0
    with pq.ParquetWriter(path, t.schema) as w:
        for g in groups:
            w.write_table(t.slice(k, g), row_group_size=max(g, 1)); k += g
    assert [pq.ParquetFile(path).metadata.row_group(i).num_rows for i in range(pq.ParquetFile(path).num_row_groups)] == [g for g in groups if g], groups
    return t.to_pylist()


def norm(v):
    if isinstance(v, dict): return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [norm(x) for x in v]
    return v


def make(ctx, layout, columns=None):
    """layout: (file name, row groups) pairs. Returns folder and rows, ordered by file name."""
    p = ctx.scratch("d"); rows = {}
    k = 0
    for name, groups in layout:
        rows[name] = write(os.path.join(p, name), groups, k, columns); k += sum(groups)
    return p, [norm(r) for n in sorted(rows) for r in rows[n]]


def openit(ctx, p, mode, remote=False, **kw):
    envsetup.isolate(ctx.scratch("home"))
    if remote: kw.update(cache_dir=ctx.scratch("cache"))
    return StreamingDataset(f"local:{p}" if remote else p, item_loader=ParquetLoader(*mode), **kw)


def rows_of(d):
    out = []
    it = iter(d)
    while True:
        try: out.append(norm(next(it)))
        except StopIteration: return out


def check(what, got, want):
    if got != want:
        bad = [i for i, (a, b) in enumerate(zip(got, want)) if a != b]
        raise mc.Violation(f"{what}: {len(got)} rows, expected {len(want)}; first difference at {bad[:1]}: {got[bad[0]] if bad else None} for {want[bad[0]] if bad else None}")


def layout(case, ctx):
    """Every layout: sequentially, by index, backwards; read in place and through a cache."""
    files, mode, remote = case
    p, want = make(ctx, files)
    what = f"files {files}, (pre_load_chunk, low_memory)={mode}{', through a cache' if remote else ''}"
    index_parquet_dataset(p, num_workers=2)
    if not want:
        ctx.outcome("empty"); return
    d = openit(ctx, p, mode, remote, shuffle=False)
    if len(d) != len(want): raise mc.Violation(f"{what}: length {len(d)}, the files hold {len(want)} rows")
    check(what + ", sequentially", rows_of(d), want)
    check(what + ", a second time", rows_of(d), want)
    check(what + ", by index", [norm(d[i]) for i in range(len(want))], want)
    d2 = openit(ctx, p, mode, remote, shuffle=False)
    check(what + ", backwards", [norm(d2[i]) for i in reversed(range(len(want)))], want[::-1])
    ctx.step(4); ctx.state(case); ctx.outcome((len(want), mode))
    if sorted(f for f in os.listdir(p) if f.endswith(".parquet")) != sorted(n for n, _ in files): raise mc.Violation(f"{what}: the files of the dataset were changed")
    ds.stop_threads()


def access(case, ctx):
    """Every access sequence of a depth."""
    files, mode, remote, seqs = case
    p, want = make(ctx, files)
    index_parquet_dataset(p)
    for seq in seqs:
        d = openit(ctx, p, mode, remote, shuffle=False, **(dict(max_cache_size=1) if remote == "small" else {}))
        for k, i in enumerate(seq):
            got = norm(d[i])
            if got != want[i]: raise mc.Violation(f"files {files}, (pre_load_chunk, low_memory)={mode}, remote={remote}: access {k} of {seq} gives {got}, expected {want[i]}")
            ctx.step()
        ctx.state((files, mode, remote, seq))
        ds.stop_threads()
    ctx.outcome((files, mode))


D = datetime.datetime(2024, 3, 1, 12, 30, 15, 123456)
COLUMNS = {
    "int8": lambda a, n: pa.array([(a + k) % 100 - 50 for k in range(n)], pa.int8()),
    "uint64": lambda a, n: pa.array([2**63 + a + k for k in range(n)], pa.uint64()),
    "int32n": lambda a, n: pa.array([None if k % 2 else a + k for k in range(n)], pa.int32()),
    "float32": lambda a, n: pa.array([0.5 * (a + k) for k in range(n)], pa.float32()),
    "bool": lambda a, n: pa.array([[True, False, None][k % 3] for k in range(n)], pa.bool_()),
    "string": lambda a, n: pa.array(["", "é", None, "x" * 50][: 4] * n, pa.string())[:n],
    "large": lambda a, n: pa.array([f"l{a + k}" for k in range(n)], pa.large_string()),
    "binary": lambda a, n: pa.array([bytes([k % 256, 0, 255]) for k in range(n)], pa.binary()),
    "list": lambda a, n: pa.array([list(range(k % 3)) if k % 4 else None for k in range(n)], pa.list_(pa.int64())),
    "lists": lambda a, n: pa.array([[[k], []] for k in range(n)], pa.list_(pa.list_(pa.int32()))),
    "struct": lambda a, n: pa.array([{"x": a + k, "y": f"{k}"} for k in range(n)], pa.struct([("x", pa.int64()), ("y", pa.string())])),
    "dict": lambda a, n: pa.array(["a", "b", "a"] * n, pa.string())[:n].dictionary_encode(),
    "ts": lambda a, n: pa.array([D + datetime.timedelta(seconds=a + k) for k in range(n)], pa.timestamp("us")),
    "date": lambda a, n: pa.array([D.date() + datetime.timedelta(days=k) for k in range(n)], pa.date32()),
    "decimal": lambda a, n: pa.array([decimal.Decimal(f"{a + k}.25") for k in range(n)], pa.decimal128(20, 2)),
    "null": lambda a, n: pa.array([None] * n, pa.int64()),
}


def columns(case, ctx):
    names, mode, groups = case
    p, want = make(ctx, [("b.parquet", groups), ("a.parquet", groups[::-1])], lambda a, n: {f"c{k}": COLUMNS[x](a, n) for k, x in enumerate(names)})
    index_parquet_dataset(p)
    d = openit(ctx, p, mode)
    check(f"columns {names} {mode} {groups}", rows_of(d), want)
    check(f"columns {names} {mode} {groups} by index", [norm(d[i]) for i in range(len(want))], want)
    ctx.step(2); ctx.state(case); ctx.outcome(names)
    ds.stop_threads()


def order(case, ctx):
    """The order in which the folder lists its files doesn't matter, nor the number of indexing workers."""
    names, perm, workers = case
    p, want = make(ctx, [(n, (2, 1)) for n in names])
    listdir, scandir = os.listdir, os.scandir
    def arranged(x): return sorted(x, key=lambda e: ([perm.index(names.index(getattr(e, "name", e)))] if getattr(e, "name", e) in names else [99]))
    os.listdir = lambda q=".": arranged(listdir(q))
    class Scan(list):
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def close(self): pass
    os.scandir = lambda q=".": Scan(arranged(scandir(q)))
    try: index_parquet_dataset(p, num_workers=workers)
    finally: os.listdir, os.scandir = listdir, scandir
    have = [c["filename"] for c in ds.read_index(p)["chunks"]]
    if have != sorted(names): raise mc.Violation(f"files listed as {[names[i] for i in perm]}: indexed as {have}, expected {sorted(names)}")
    check(f"{case}", rows_of(openit(ctx, p, (False, True))), want)
    ctx.step(); ctx.state(case)
    ds.stop_threads()


def patterns(case, ctx):
    """A wildcard selects files; files of other types are refused or ignored; re-indexing sees the current files."""
    kind, arg, mode = case
    lay = [("a1.parquet", (2,)), ("a2.parquet", (1, 2)), ("b1.parquet", (3,)), ("c.parquet", (1,))]
    p, want = make(ctx, lay)
    open(os.path.join(p, "notes.txt"), "w").close(); os.makedirs(os.path.join(p, "sub")); shutil.copy(os.path.join(p, "c.parquet"), os.path.join(p, "sub", "z.parquet"))
    if kind == "glob":
        import fnmatch
        index_parquet_dataset(p)
        names = [n for n, _ in lay]
        rows = {}; k = 0
        for n, g in lay: rows[n] = want[k:k + sum(g)]; k += sum(g)
        sel = [r for n in names if fnmatch.fnmatch(n, arg) for r in rows[n]]
        envsetup.isolate(ctx.scratch("home"))
        try: d = StreamingDataset(os.path.join(p, arg), item_loader=ParquetLoader(*mode)); got = rows_of(d); n = len(d)
        except AssertionError: got, n = [], 0
        check(f"pattern {arg}", got, sel)
        if n != len(sel): raise mc.Violation(f"pattern {arg}: length {n}, expected {len(sel)}")
    elif kind == "mixed":
        pq.write_table(pa.table({"i": ["other"], "s": ["x"], "f": [1]}), os.path.join(p, arg))
        try: index_parquet_dataset(p)
        except Exception: ctx.outcome("refused")
        else: raise mc.Violation(f"a file with other column types ({arg}) isn't refused")
        if os.path.exists(os.path.join(p, "index.json")): raise mc.Violation("refused, but there is an index")
    elif kind == "again":
        index_parquet_dataset(p)
        if "add" in arg: want = want + [norm(r) for r in write(os.path.join(p, "d.parquet"), (2, 2), 50)]
        if "del" in arg: os.remove(os.path.join(p, "a1.parquet")); want = want[2:]
        if "new" in arg: want = want[:-1] + [norm(r) for r in write(os.path.join(p, "c.parquet"), (1, 3), 80)] if "add" not in arg else want
        if "crash" in arg:
            dump = json.dump
            def dying(o, f, **kw): s = json.dumps(o, **kw); f.write(s[: len(s) // 2]); f.flush(); raise KeyboardInterrupt()
            up.json.dump = dying
            try: index_parquet_dataset(p)
            except KeyboardInterrupt: pass
            finally: up.json.dump = dump
        index_parquet_dataset(p)
        d = openit(ctx, p, mode)
        check(f"indexed again after {arg}", rows_of(d), want)
    ctx.step(); ctx.state(case)
    ds.stop_threads()


class Fs:
    """The file system interface of fsspec and huggingface_hub on the object store."""
    def __init__(self, st, scheme, perm, kw): self.st, self.scheme, self.perm, self.kw = st, scheme, perm, kw
    def _u(self, p): return p if "://" in p else f"{self.scheme}://{p}"
    def ls(self, path, detail=True, **kw):
        base = self._u(path).rstrip("/") + "/"
        out = {}
        for u in self.st.urls(base):
            head, _, rest = u[len(base):].partition("/")
            name = (base + head)[len(self.scheme) + 3:]
            out[name] = {"name": name, "type": "directory" if rest else "file", "size": 0 if rest else len(self.st.get(u))}
        out = [out[k] for k in sorted(out)]
        if self.perm: out = out[::-1]
        return out if detail else [e["name"] for e in out]
    def find(self, path, **kw): return [u[len(self.scheme) + 3:] for u in self.st.urls(self._u(path).rstrip("/") + "/")]
    def open(self, path, mode="rb", **kw):
        if "r" in mode: return io.BytesIO(self.st.get(self._u(path)))
        st, u = self.st, self._u(path)
        class W(io.BytesIO):
            def close(w):
                if not w.closed: st.put(u, w.getvalue())
                super().close()
        return W()
    def exists(self, path): return self.st.has(self._u(path))


def cloud(case, ctx):
    """s3, gs and hf: indexed remotely, streamed through the downloaders."""
    scheme, files, mode, perm, opts, glob = case
    home = ctx.scratch("home"); envsetup.isolate(home)
    oldhome = os.environ.get("HOME"); os.environ["HOME"] = home
    p, want = make(ctx, files)
    st = objstore.MemStore(2); objstore.install(st)
    base = f"{scheme}://" + ("datasets/org/repo/data" if scheme == "hf" else "bucket/data")
    st.put_tree(base, p)
    st.put(base + "2/z.parquet", b"neighbour"); st.put(base + "/sub/y.parquet", b"deeper")
    given = []
    import fsspec
    orig = fsspec.filesystem
    def filesystem(protocol, *a, **kw):
        given.append((protocol, a, kw)); return Fs(st, protocol, perm, kw)
    fsspec.filesystem = filesystem
    import huggingface_hub as hub
    hubfs, hubget = hub.HfFileSystem, hub.hf_hub_download
    hub.HfFileSystem = lambda *a, **kw: Fs(st, "hf", perm, kw)
    def hf_get(repo_id, filename, cache_dir=None, repo_type=None, **kw):
        q = os.path.join(cache_dir or home, "dl"); os.makedirs(q, exist_ok=True); q = os.path.join(q, os.path.basename(filename))
        with open(q, "wb") as h: h.write(st.get(f"hf://datasets/{repo_id}/{filename}"))
        return q
    hub.hf_hub_download = hf_get
    cached = up._HF_HUB_AVAILABLE, up._FSSPEC_AVAILABLE
    try:
        what = f"{scheme}: files {files}, {mode}, listing {perm!r}, options {opts}"
        if scheme == "hf":
            d = StreamingDataset(base + (f"/{glob}" if glob else ""), item_loader=ParquetLoader(*mode), cache_dir=ctx.scratch("cache"))
        else:
            index_parquet_dataset(base, storage_options=dict(opts), num_workers=2)
            if given and not any(kw == dict(opts) and not a for _, a, kw in given): raise mc.Violation(f"{what}: the storage options were passed as {given}")
            d = StreamingDataset(base + (f"/{glob}" if glob else ""), item_loader=ParquetLoader(*mode), cache_dir=ctx.scratch("cache"))
        if len(d) != len(want): raise mc.Violation(f"{what}: length {len(d)}, expected {len(want)}")
        check(what, rows_of(d), want)
        check(what + " backwards", [norm(d[i]) for i in reversed(range(len(want)))], want[::-1])
        ctx.step(2); ctx.state(case); ctx.outcome(scheme)
    finally:
        fsspec.filesystem, hub.HfFileSystem, hub.hf_hub_download = orig, hubfs, hubget
        if oldhome is None: os.environ.pop("HOME")
        else: os.environ["HOME"] = oldhome
        ds.stop_threads()


def loader(case, ctx):
    """Ranks and workers together deliver every row once."""
    files, mode, world, nw, shuffle = case
    p, want = make(ctx, files)
    index_parquet_dataset(p)
    got = []
    for r in range(world):
        with ds.dist(world, r):
            for w in range(max(1, nw)):
                d = openit(ctx, p, mode, shuffle=shuffle, drop_last=False)
                with ds.worker(nw, w, d): got += rows_of(d)
                ds.stop_threads()
    a, b = sorted(r["i"] for r in got), [r["i"] for r in want]
    extra = (-len(want)) % world
    rest = list(a)
    for i in b:
        if i not in rest: raise mc.Violation(f"{case}: row {i} isn't delivered")
        rest.remove(i)
    ctx.outcome(len(rest)); ctx.state(case); ctx.step()
    byi = {r["i"]: r for r in want}
    if any(r != byi.get(r["i"]) for r in got): raise mc.Violation(f"{case}: a row has other values")
    if len(rest) > extra + world * max(1, nw): raise mc.Violation(f"{case}: rows {rest} are delivered again")


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C17", rule="every list of row-group layouts up to a size x loading mode, read sequentially, by index and backwards; every access sequence up to a length; every order in which the storage lists the files",
                 bounds=f"1-3 files of 0-3 row groups of 1-3 rows, 16 column types in pairs, access sequences to length {3 if quick else 4}, local folders, caches, s3, gs and hf")
    gs = [g for n in range(0, 4) for g in itertools.product((1, 2, 3), repeat=n)]
    some = [(), (1,), (3,), (1, 2), (2, 1), (3, 1, 2)]
    one = [((("a.parquet", g),), m, r) for g in gs for m in MODES for r in (False, True) if g]
    two = [((("b.parquet", g), ("a.parquet", h)), m, r) for g in some for h in some for m in MODES for r in (False, True)]
    three = [((("10.parquet", g), ("9.parquet", h), ("1.parquet", k)), m, r) for g, h, k in itertools.product([(), (1,), (2, 1)], repeat=3) for m in MODES for r in ((False,) if quick else (False, True))]
    if quick: one = [x for x in one if len(x[0][0][1]) < 3 or x[0][0][1] in ((1, 2, 3), (3, 1, 2), (2, 1, 1))]
    c.phase("layouts", one + two + three, layout)
    fs = (("a.parquet", (1, 2)), ("b.parquet", (2,)))
    n = 3 if quick else 4
    c.phase("access", [(fs, m, r, tuple(list(itertools.product(range(5), repeat=n))[k::16])) for m in MODES for r in ((False, "cache", "small") if not quick else (False, "small")) for k in range(16)], access)
    names = list(COLUMNS)
    c.phase("columns", [((a,), m, g) for a in names for m in MODES for g in ((3, 1), (4,), (1, 1, 5))] + [((a, b), m, (2, 3)) for a in names for b in names for m in MODES[:2 if quick else 4]], columns)
    nm = ("b.parquet", "a.parquet", "c.parquet")
    c.phase("order", [(nm[:k], pm, w) for k in (2, 3) for pm in itertools.permutations(range(k)) for w in (1, 2, 4)] + [(("10.parquet", "9.parquet", "A.parquet"), pm, 2) for pm in itertools.permutations(range(3))], order)
    c.phase("patterns", [("glob", g, m) for g in ("*.parquet", "a*.parquet", "a?.parquet", "?1.parquet", "c.parquet", "[ab]2.parquet", "d*.parquet") for m in MODES] + [("mixed", f, None) for f in ("0.parquet", "z.parquet")] +
            [("again", a, m) for a in ("", "add", "del", "new", "add del", "crash", "add crash", "new crash") for m in MODES[:2]], patterns)
    sets = [fs, (("b.parquet", (2, 1)), ("a.parquet", (1,)), ("c.parquet", (3,))), (("x.parquet", (1, 1, 2)),)]
    c.phase("cloud", [(s, f, m, pm, o, None) for s in ("s3", "gs", "hf") for f in sets for m in MODES for pm in ("", "x") for o in ((), (("key", "v"),)) if not (s == "hf" and o)] +
            [(s, fs, m, "", (), "*.parquet") for s in ("s3", "gs", "hf") for m in MODES[:2]], cloud)
    c.phase("loaders", [(f, m, w, n, s) for f in sets for m in MODES[:2] for w in (1, 2) for n in (0, 1, 2) for s in (False, True)], loader)
    return c
