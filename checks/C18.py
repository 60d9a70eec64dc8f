from lib import mc, ds, envsetup, objstore, opt, readers, sched
import itertools, json, os, shutil
import litdata
from litdata import StreamingDataset, optimize
from litdata.streaming.item_loader import TokensLoader, ParquetLoader
from litdata.streaming.resolver import Dir
import litdata.utilities.dataset_utilities as du
import litdata.streaming.item_loader as il

if hasattr(il, "_FORCE_DOWNLOAD_TIME"): il._FORCE_DOWNLOAD_TIME = 0.06
if hasattr(il, "_MAX_WAIT_TIME"): il._MAX_WAIT_TIME = 20

# name: (chunks, first sample, compression, with a time stamp)
FORMS = {"a": ((2, 1), 0, None, True), "a2": ((2, 1), 100, None, True), "b": ((1, 1, 2), 200, None, True), "z": ((2, 1), 300, "zstd", True), "z2": ((2, 1), 400, "zstd", True), "one": ((3,), 500, None, True),
         "old": ((2, 1), 600, None, False), "old2": ((2, 2), 700, None, False), "oldz": ((1, 2), 800, "zstd", False)}


class Stale(Exception): """Cannot go on: the cache holds an older version (a known finding)."""


class World:
    """Locations, the datasets stored there and a reader's cache folder."""
    def __init__(self, ctx, scheme, cache):
        self.ctx, self.scheme, self.cache = ctx, scheme, cache
        self.root = os.path.realpath(ctx.scratch("w"))
        self.st = objstore.MemStore(); objstore.install(self.st)
        self.cachedir = ctx.scratch("cache")
        if hasattr(du, "_DEFAULT_CACHE_DIR"): du._DEFAULT_CACHE_DIR = os.path.join(self.cachedir, "default") if cache == "default" else os.path.join(self.cachedir, "unused")
        self.now = {}   # location -> (expected samples, files)
        self.n = 0
        self.last = {}  # location -> the dataset that was read there last, and whether it has a time stamp
    def loc(self, name):
        if self.scheme == "local": return "local:" + os.path.join(self.root, "L", name)
        if "://" in name: return name
        return f"{self.scheme}://bucket/{name}"
    def remove(self, name):
        """Its own files only: another location may lie below it."""
        if self.scheme == "local":
            p = os.path.join(self.root, "L", name)
            for f in os.listdir(p) if os.path.isdir(p) else (): os.path.isfile(os.path.join(p, f)) and os.remove(os.path.join(p, f))
        else:
            base = self.loc(name).rstrip("/") + "/"
            for u in self.st.urls(base): "/" not in u[len(base):] and self.st.delete(u)
    def store(self, name, folder):
        self.remove(name)
        if self.scheme == "local": shutil.copytree(folder, os.path.join(self.root, "L", name), dirs_exist_ok=True)
        else: self.st.put_tree(self.loc(name), folder)
    def write(self, name, form, stamp=None):
        vec, start, comp, timed = FORMS[form]
        self.n += 1
        d = os.path.join(self.root, f"v{self.n}")
        ds.write_layout(d, vec, start=start, compression=comp)
        ix = ds.read_index(d)
        if not timed: ix.pop("updated_at", None)
        elif stamp: ix["updated_at"] = stamp
        with open(os.path.join(d, "index.json"), "w") as f: json.dump(ix, f, sort_keys=True)
        self.store(name, d)
        self.now[name] = (list(range(start, start + sum(vec))), d)
        return d
    def restore(self, name, state):
        self.store(name, state[1]); self.now[name] = state
    def open(self, name, given=None):
        kw = {"path": {"cache_dir": self.cachedir}, "dir": {"cache_dir": Dir(path=self.cachedir)}, "default": {}}[self.cache]
        return StreamingDataset(given or self.loc(name), **kw)
    def read(self, name, kind, what, given=None):
        """Datasets without a time stamp one after the other cannot be told apart: a known finding, and nothing else."""
        mine = (name, tuple(self.now[name][0]), self.now[name][1])
        timed = "updated_at" in ds.read_index(self.now[name][1])
        before = self.last.get(name)
        self.last[name] = (mine, timed)
        try: self.read_now(name, kind, what, given)
        except mc.Violation as e:
            if before and not timed and not before[1] and before[0] != mine: self.ctx.known_or_raise(str(e), "no-time-stamp"); self.last[name] = before; raise Stale
            raise
    def read_now(self, name, kind, what, given=None):
        want = self.now[name][0]
        try:
            d = self.open(name, given)
            n = len(d)
            idx = {"full": range(n), "first": [0], "last": [n - 1], "iter": None, "none": [], "len": []}[kind]
            if idx is None:
                it = iter(d); got = [ds.dec(next(it))]; exp = want[:1]
            else: got = [ds.dec(d[i]) for i in idx]; exp = [want[i] for i in idx if i < len(want)]
        except Exception as e: raise mc.Violation(f"{what}: reading raises {e!r}")
        finally: ds.stop_threads()
        if n != len(want): raise mc.Violation(f"{what}: length {n}, the location holds {len(want)} samples")
        if got != exp: raise mc.Violation(f"{what}: reads {got}, the location holds {want}")
        self.ctx.step(); self.ctx.execs += 1
    def cached(self, name, what, given=None):
        """Once read completely, the dataset is served from the cache: its chunks aren't needed any more."""
        self.read(name, "full", what, given)
        chunks = [f for f in os.listdir(self.now[name][1]) if f != "index.json"]
        keep = {}
        base = os.path.join(self.root, "L", name)
        for f in chunks:
            if self.scheme == "local": os.rename(os.path.join(base, f), os.path.join(self.root, "away." + f))
            else: u = self.loc(name).rstrip("/") + "/" + f; keep[u] = self.st.get(u); self.st.delete(u)
        try: self.read(name, "full", what + ", read again without the remote chunks", given)
        finally:
            for f in chunks:
                if self.scheme == "local": os.rename(os.path.join(self.root, "away." + f), os.path.join(base, f))
            for u in keep: self.st.put(u, keep[u])


def histories(case, ctx):
    scheme, cache, ops = case
    w = World(ctx, scheme, cache)
    saved = {}
    for k, op in enumerate(ops):
      what = f"{scheme}, cache_dir={cache}: {ops[:k + 1]}"
      try:
        if op[0] == "write": w.write("ds", op[1]); saved[op[1]] = w.now["ds"]
        elif op[0] == "restore": w.restore("ds", saved[op[1]])
        elif op[0] == "cached": w.cached("ds", what)
        else: w.read("ds", op[1], what)
      except Stale: break
    ctx.state(case); ctx.outcome(tuple(o[0] for o in ops)); ctx.sample(what)


NAMES = ["ds", "ds2", "ds/sub", "d/s", "DS", "ds ", "other/ds"]
def locations(case, ctx):
    """Two locations, read in turns; the time stamps may be equal."""
    scheme, cache, a, b, fa, fb, same, form = case
    w = World(ctx, scheme, cache)
    what = f"{scheme}, cache_dir={cache}: {a!r} holds {fa}, {b!r} holds {fb}, stamps {'equal' if same else 'different'}, {form}"
    da = w.write(a, fa, "1000.5" if same else None)
    w.write(b, fb, "1000.5" if same else None)
    if a == "ds" and b == "ds/sub": pass  # objects of b lie below a, but are not listed in a's index
    turns = [a, b, a, b] if form == "turns" else [b, a, a, b]
    for i, n in enumerate(turns):
        w.read(n, "full" if i != 1 else "first", f"{what}: read {turns[:i + 1]}")
    w.cached(b, what)
    # reading b must not have disturbed what a has cached
    w.read(a, "full", what)
    w.cached(a, what)
    w.write(b, "one" if fb != "one" else "b")
    w.read(b, "full", what + ", b written again")
    chunks = [u for u in (w.st.urls(w.loc(a) + "/") if scheme != "local" else []) if "chunk-" in u and "/" not in u[len(w.loc(a)) + 1:]]
    for u in chunks: w.st.delete(u)
    w.read(a, "full", what + ", b written again, a without its remote chunks")
    ctx.state(case); ctx.outcome((scheme, same))


def pipeline_fn(x): return ds.enc(x)
def two_fn(x):
    yield ds.enc(x); yield ds.enc(x + 1000)


def pipeline(case, ctx):
    """The location is regenerated by optimize itself."""
    scheme, ops = case
    root = os.path.realpath(ctx.scratch("p"))
    st = objstore.Store(os.path.join(root, "store")); objstore.install(st)
    loc = f"{scheme}://bucket/out" if scheme != "local" else os.path.join(root, "out")
    cache = os.path.join(root, "cache")
    want = []
    for k, (mode, lo, hi, size, comp, rd) in enumerate(ops):
        what = f"{scheme}: optimize runs {ops[:k + 1]}"
        def prog():
            objstore.install(st)
            optimize(two_fn if hi - lo == 1 else pipeline_fn, list(range(lo, hi)), loc, num_workers=2, chunk_size=size, mode=mode, compression=comp)
        r = opt.run(os.path.join(root, "home"), prog)
        ctx.step(r["steps"]); ctx.execs += 1
        if not opt.ok(r): raise mc.Violation(f"{what}: {opt.short(r)}\n{r['tb'][-1500:]}")
        new = [x for i in range(lo, hi) for x in ((i, i + 1000) if hi - lo == 1 else (i,))]
        want = (want if mode == "append" else []) + new
        try:
            d = StreamingDataset(loc if scheme != "local" else "local:" + loc, cache_dir=cache)
            got = [ds.dec(d[i]) for i in (range(len(d)) if rd == "full" else [0])]
            n = len(d)
        except Exception as e: raise mc.Violation(f"{what}: reading raises {e!r}, expected {want}")
        finally: ds.stop_threads()
        if n != len(want) or got != want[:len(got)]: raise mc.Violation(f"{what}: reads {got} of {n}, expected {want}")
    ctx.state(case); ctx.outcome((scheme, len(want)))


# ---- several readers start after an update ----------------------------------------------------------------------------
def starts(case, ctx):
    """Readers (ranks of one machine) that start side by side on a cache folder of the previous version."""
    scheme, old, new, count, kinds, bound, part = case
    root = os.path.realpath(ctx.scratch("s"))
    st = objstore.Store(os.path.join(root, "store"))
    data = os.path.join(root, "data"); os.makedirs(data)
    loc = "s3://bucket/ds" if scheme == "s3" else "local:" + os.path.join(data, "ds")
    trees = {}
    for f in (old, new):
        vec, start, comp, timed = FORMS[f]
        d = trees[f] = os.path.join(root, "v" + f); ds.write_layout(d, vec, start=start, compression=comp)
    def put(f):
        if scheme == "s3":
            for u in st.urls("s3://bucket/ds/"): st.delete(u)
            st.put_tree(loc, trees[f])
        else:
            shutil.rmtree(os.path.join(data, "ds"), ignore_errors=True); shutil.copytree(trees[f], os.path.join(data, "ds"))
    objstore.install(st)
    stale = os.path.join(root, "stale")
    put(old)
    d = StreamingDataset(loc, cache_dir=stale); [d[i] for i in range(len(d))]; ds.stop_threads()
    if kinds == "empty": shutil.rmtree(stale)
    put(new)
    vec, start, _, _ = FORMS[new]
    want = list(range(start, start + sum(vec)))
    k = [0]
    def one(prefix):
        k[0] += 1
        cache = os.path.join(root, f"c{k[0]}")
        if os.path.exists(stale): shutil.copytree(stale, cache)
        home = os.path.join(root, f"h{k[0]}")
        setup = readers.setup_child(home, st)
        def reader():
            d = StreamingDataset(loc, cache_dir=cache)
            return [ds.dec(d[i]) for i in range(len(d))] if kinds != "lens" else list(range(start, start + len(d)))
        def proc(i):
            got = reader()
            if got != want: raise RuntimeError(f"reads {got}")
        def main():
            import multiprocessing
            ps = [multiprocessing.Process(target=proc, args=(i,)) for i in range(count)]
            for p in ps: p.start()
            for p in ps: p.join()
            if any(p.exitcode for p in ps): raise RuntimeError("a reader failed")
        r = sched.execute(setup, main, prefix=prefix, preempt=("f",), files=True, watch=cache, threads=readers.thread_classes(), hang_after=2000)
        ctx.step(r["steps"]); ctx.execs += 1
        what = f"{count} readers start on {scheme} after {old} was replaced by {new} ({kinds}), schedule {list(prefix)}"
        if r["status"] in ("died", "diverged"): raise RuntimeError(f"{what}: {r['status']} {r['detail']}")
        if not opt.ok(r) or any(t[2] not in (0, None) for t in r["tasks"]): raise mc.Violation(f"{what}: {opt.short(r)}\n{r['tb'][-1500:]}")
        shutil.rmtree(cache, ignore_errors=True); shutil.rmtree(home, ignore_errors=True)
        return r
    m, complete = sched.explore(one, bound, on=lambda p, r: None, part=part)
    ctx.state(case); ctx.outcome((scheme, count)); ctx.sample(f"{case[:5]}: {m} schedules with at most {bound} deviations")


# ---- parquet files ----------------------------------------------------------------------------------------------------
def parquet(case, ctx):
    """Parquet files replaced between two uses: indexed again (or, in a Hugging Face repository, by the reader itself)."""
    scheme, first, second, mode, r1 = case
    from checks import C17
    import fsspec, huggingface_hub as hub
    home = ctx.scratch("home"); envsetup.isolate(home)
    os.environ["HOME"] = home
    st = objstore.MemStore(2); objstore.install(st)
    base = f"{scheme}://" + ("datasets/org/repo/data" if scheme == "hf" else "bucket/data")
    old = fsspec.filesystem, hub.HfFileSystem, hub.hf_hub_download
    fsspec.filesystem = lambda protocol, *a, **kw: C17.Fs(st, protocol, "", kw)
    hub.HfFileSystem = lambda *a, **kw: C17.Fs(st, "hf", "", kw)
    def hf_get(repo_id, filename, cache_dir=None, repo_type=None, **kw):
        q = os.path.join(cache_dir or home, "dl"); os.makedirs(q, exist_ok=True); q = os.path.join(q, os.path.basename(filename))
        with open(q, "wb") as h: h.write(st.get(f"hf://datasets/{repo_id}/{filename}"))
        return q
    hub.hf_hub_download = hf_get
    cache = ctx.scratch("cache")
    try:
        for k, (files, how) in enumerate(((first, r1), (second, "full"))):
            d = ctx.scratch(f"v{k}"); rows = []; n = 100 * k
            for name, groups in files:
                rows += [C17.norm(r) for r in C17.write(os.path.join(d, name), groups, n)]; n += sum(groups)
            for u in list(st.urls(base + "/")): st.delete(u)
            st.put_tree(base, d)
            if scheme != "hf": litdata.index_parquet_dataset(base, num_workers=1)
            what = f"parquet files {files} at {base}, {'replacing ' + str(first) if k else 'first'}, mode {mode}, read {how}"
            try:
                x = StreamingDataset(base, item_loader=ParquetLoader(*mode), cache_dir=cache)
                got = C17.rows_of(x) if how == "full" else [C17.norm(x[0])] if how == "first" else []
                if how == "full" and len(x) != len(rows): got = f"{len(x)} rows: {got}"
            except Exception as e:
                if k and scheme == "hf": return ctx.known_or_raise(f"{what}: reading raises {e!r}", "hf-index")
                raise mc.Violation(f"{what}: reading raises {e!r}")
            if got != {"full": rows, "first": rows[:1], "none": []}[how]:
                e = f"{what}: got {got}, expected {rows}"
                if k and scheme == "hf": return ctx.known_or_raise(e, "hf-index")
                raise mc.Violation(e)
            ctx.step(); ctx.execs += 1
        ctx.state(case); ctx.outcome((scheme, r1))
    finally:
        fsspec.filesystem, hub.HfFileSystem, hub.hf_hub_download = old
        ds.stop_threads()


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C18", rule="every history of writes and reads over the forms and kinds of reads, up to the depth; pairs of locations; all schedules, with at most `bound` deviations, of readers that start after an update",
                 bounds=f"{len(FORMS)} dataset forms, {len(NAMES)} location names, 3 storage kinds, depth {5 if quick else 7}; {1 if quick else 2} deviations",
                 assumptions=["two versions written one after the other carry different time stamps, or (old datasets without a stamp) different indexes", "a version is complete before the next reader starts"])
    F = list(FORMS)
    cases = []
    setups = [(s, k) for s in ("s3", "local", "gs") for k in ("path", "dir", "default")]
    i = 0
    for a, b in itertools.product(F, F):
        if a == b and a.startswith("old"): continue  # indistinguishable
        for r1, r2 in itertools.product(("full", "first", "iter", "none"), ("full", "last", "iter")):
            i += 1
            if quick and a.startswith("old") and b.startswith("old") and (r1, r2) != ("full", "full"): continue
            for s in setups if not quick else [setups[i % len(setups)]]:
                cases.append((*s, (("write", a), ("read", r1), ("write", b), ("read", r2), ("cached",))))
    three = ("a", "a2", "z", "old") if quick else F
    for a, b, d in itertools.product(three, three, three):
        if any(x == y and x.startswith("old") for x, y in ((a, b), (b, d))): continue
        for r in (("full", "first"), ("iter", "full"), ("none", "none")):
            i += 1
            if quick and [a, b, d].count("old") > 1 and r[0] != "full": continue
            cases.append((*setups[i % len(setups)], (("write", a), ("read", r[0]), ("write", b), ("read", r[1]), ("write", d), ("read", "full"), ("cached",))))
            if b != a: cases.append((*setups[(i + 4) % len(setups)], (("write", a), ("read", r[0]), ("write", b), ("read", r[1]), ("restore", a), ("read", "full"), ("cached",))))
    c.phase("histories", cases, histories)
    cases = [(s, k, a, b, fa, fb, same, form) for s in ("s3", "local", "gs") for k in ("path", "default") for a, b in itertools.permutations(NAMES, 2) for fa, fb in (("a", "a2"), ("z", "z2"), ("a", "z"), ("b", "one")) for same in (True, False) for form in ("turns", "back")
             if not quick or (len(a) + len(b) + len(s) + len(k) + F.index(fb) + same + len(form)) % 8 == 0]
    # the same path on several providers and in several buckets
    urls = [f"{s}://{b}/{n}" for s in ("s3", "gs", "azure") for b in ("bucket", "bucket2") for n in ("ds",)] + ["s3://bucket/bucket2/ds", "s3://bucket//ds", "gs://Bucket/ds"]
    cases += [("s3", k, a, b, fa, fb, same, form) for k in ("path", "default") for a, b in itertools.permutations(urls, 2) for fa, fb in (("a", "a2"), ("b", "one")) for same in (True, False) for form in ("turns", "back")
              if not quick or (urls.index(a) + 2 * urls.index(b) + same + len(form) + len(fa + fb) + len(k)) % 8 == 0]
    c.phase("locations", cases, locations)
    modes = [("overwrite", 0, 3, 2, None), ("overwrite", 10, 12, 2, None), ("append", 20, 21, 2, None), ("append", 30, 34, 2, None), ("overwrite", 40, 43, 2, "zstd")]
    cases = [(s, (a[:5] + (r,), b[:5] + ("full",), *(() if quick else ((d[:5] + ("full",),)))) ) for s in ("s3", "local") for a in modes for b in modes for d in (modes if not quick else modes[:1]) for r in ("full", "first")
             if not ("append" == b[0] and a[4] != b[4]) and a[0] == "overwrite" and (quick or d[0] != "append" or d[4] == (b[4]))]
    c.phase("pipeline", cases, pipeline)
    L = [(("a.parquet", (2,)), ("b.parquet", (1, 1))), (("a.parquet", (2,)),), (("a.parquet", (1, 2)), ("b.parquet", (1,)), ("c.parquet", (2,))), (("x.parquet", (3,)),)]
    cases = [(s, a, b, m, r) for s in ("s3", "gs", "hf") for a in L for b in L for m in ((False, True), (True, False), (False, False)) for r in ("full", "first", "none")
             if not quick or (s != "hf" or a == b or L.index(a) + L.index(b) == 3) and (L.index(a) + L.index(b) + len(r) + m[0] + 2 * m[1]) % 3 == 0]
    c.phase("parquet", cases, parquet)
    b = 1 if quick else 2
    k = 2 if quick else 16
    cases = [(s, o, n, r, kind, b, (i, k)) for s in ("local", "s3") for o, n in (("a", "a2"), ("z", "b")) for r in (2, 3) for kind in ("full", "lens", "empty") for i in range(k) if (r == 2 or not quick) and (s == "local" or o == "a")]
    c.phase("starts", cases, starts)
    return c
