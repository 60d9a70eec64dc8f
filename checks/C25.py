from lib import mc, ds, envsetup, opt
import collections, concurrent.futures as cf, itertools, os, shutil, threading
import pyarrow as pa, pyarrow.parquet as pq
import litdata.processing.functions as fns
from litdata.processing.readers import ParquetReader


class Crash(BaseException): pass


def table(rows, tag):
    return pa.table({"i": pa.array(rows, pa.int64()), "s": [f"{tag}{r}" if r % 3 else None for r in rows], "l": [[r] * (r % 3) for r in rows]})


class Files:
    """Parquet files and what they hold."""
    def __init__(self, root): self.root, self.rows, self.n = root, {}, 0

    def put(self, name, n, group=2):
        p = os.path.join(self.root, name); os.makedirs(os.path.dirname(p), exist_ok=True)
        t = table(range(self.n, self.n + n), name); self.n += n
        pq.write_table(t, p, row_group_size=group)
        # a file that replaces another one is newer
        os.utime(p, ns=(self.n * 10**9 + len(self.rows), 10**18 + self.n * 10**9))
        self.rows[name] = t.to_pylist()

    def path(self, name): return os.path.join(self.root, name)


def shards(files, order, cache, rows, ctx, what, reader=None):
    r = reader or ParquetReader(cache, num_rows=rows)
    items = r.remap_items([files.path(n) for n in order], 2)
    got = []
    for it in items:
        # map and optimize hand the file object to the function of the user
        f = r.read(it)
        part = f.read().to_pylist()
        if len(part) > rows: raise mc.Violation(f"{what}: a shard of {len(part)} rows, at most {rows} were requested")
        got += part
        ctx.step()
    want = [x for n in order for x in files.rows[n]]
    if got != want: raise mc.Violation(f"{what}: presents rows {[(x['i'], x['s']) for x in got]}, expected {[(x['i'], x['s']) for x in want]}")
    return items


def parquet(case, ctx):
    """Every placement of files x row counts x shard size; the shards are also read by another reader, in reverse order."""
    names, counts, rows, group = case
    root = ctx.scratch("p"); files = Files(root)
    for n, k in zip(names, counts): files.put(n, k, group)
    what = f"files {dict(zip(names, counts))}, num_rows={rows}"
    cache = os.path.join(root, "cache")
    items = shards(files, names, cache, rows, ctx, what)
    again = shards(files, names[::-1], cache, rows, ctx, what + ", reversed")
    if collections.Counter(items) != collections.Counter(again): raise mc.Violation(f"{what}: the shards of the second reader differ")
    other = ParquetReader(cache, num_rows=rows)
    byitem = {}
    for it in reversed(items): byitem[it] = other.read(it).read().to_pylist()
    if [x for it in items for x in byitem[it]] != [x for n in names for x in files.rows[n]]: raise mc.Violation(f"{what}: another reader gets other rows")
    if sorted(f for d, _, ff in os.walk(root) for f in ff if not d.startswith(cache)) != sorted(os.path.basename(n) for n in names): raise mc.Violation(f"{what}: the input folder was changed")
    ctx.state(case); ctx.outcome(len(items))


def history(case, ctx):
    """Files are replaced, settings change and runs are interrupted between the uses of one cache folder."""
    root = ctx.scratch("p"); files = Files(root); cache = os.path.join(root, "cache")
    files.put("a/x.parquet", 3)
    reader = None
    for k, op in enumerate(case):
        what = f"history {case}, step {k} {op}"
        if op[0] == "put": files.put(op[1], op[2])
        elif op[0] == "use": shards(files, sorted(files.rows), cache, op[1], ctx, what)
        elif op[0] == "crash":
            # the op[1]-th shard is only written up to half when the process dies
            left = [op[1]]
            orig = pq.write_table
            def dying(t, where, *a, **kw):
                left[0] -= 1
                orig(t, where, *a, **kw)
                if left[0] == 0:
                    if isinstance(where, (str, os.PathLike)): os.truncate(where, os.path.getsize(where) // 2)
                    raise Crash()
            pq.write_table = dying
            try: ParquetReader(cache, num_rows=2).remap_items([files.path(n) for n in sorted(files.rows)], 1)
            except Crash: ctx.outcome("crash")
            finally: pq.write_table = orig
    ctx.state(case)


# ---- walk

class Pool:
    """Executor whose tasks complete when chosen."""
    made = []
    def __init__(self, max_workers=None, *a, **kw): self.max_workers = max_workers; self.pending = []; Pool.made.append(self)
    def submit(self, fn, *a, **kw):
        f = cf.Future(); self.pending.append((f, fn, a, kw)); Pool.peak = max(Pool.peak, len(self.pending)); return f
    def run(self, k):
        f, fn, a, kw = self.pending.pop(k)
        f.set_running_or_notify_cancel()
        try: f.set_result(fn(*a, **kw))
        except BaseException as e: f.set_exception(e)
        return f
    def map(self, fn, *its, **kw): return [self.run(len(self.pending) - 1).result() for x in zip(*its) if self.submit(fn, *x)]
    def __enter__(self): return self
    def __exit__(self, *a):
        while self.pending: self.run(0)
    def shutdown(self, wait=True, **kw):
        while self.pending: self.run(0)


def choices(prog):
    """Run prog(choose) under every sequence of choices."""
    stack = [[]]
    while stack:
        prefix = stack.pop()
        trace = []
        def choose(n):
            i = len(trace)
            k = prefix[i] if i < len(prefix) else 0
            trace.append((k, n))
            return k
        yield prog(choose), trace
        for i in range(len(prefix), len(trace)):
            for k in range(1, trace[i][1]): stack.append([t[0] for t in trace[:i]] + [k])


def trees(n):
    """Every folder tree of n entries: a tree is a sorted tuple of entries, an entry is "f" (file), "l" (broken link) or a tree."""
    memo = {}
    def size(k):
        if k not in memo: memo[k] = [("f",), ("l",)] * (k == 1) + [("d", t) for t in forest(k - 1)]
        return memo[k]
    def forest(k, most=None):
        # multisets of entries of total size k
        if k == 0: return [()]
        out = set()
        for first in range(1, k + 1):
            for e in size(first):
                for rest in forest(k - first): out.add(tuple(sorted((e, *rest), key=repr)))
        return sorted(out, key=repr)
    return forest(n)


def plant(path, tree):
    os.makedirs(path, exist_ok=True)
    for i, e in enumerate(tree):
        p = os.path.join(path, f"{e[0]}{i}")
        if e[0] == "f": open(p, "w").close()
        elif e[0] == "l": os.symlink("nowhere", p)
        else: plant(p, e[1])


def walking(case, ctx):
    """Every order in which the listing requests complete."""
    tree, workers, linked, cap = case
    root = ctx.scratch("t"); top = os.path.join(root, "top"); plant(top, tree)
    if linked:
        plant(os.path.join(root, "far"), (("f",), ("d", (("f",),))))
        os.symlink(os.path.join(root, "far"), os.path.join(top, "link"))
    want = sorted((d, sorted(a), sorted(b)) for d, a, b in os.walk(top, followlinks=True))
    orig = cf.ThreadPoolExecutor, cf.as_completed, cf.wait, cf.Future.result
    Pool.peak = 0

    def prog(choose):
        def finish(fs, among):
            """Completes one of the given futures, or of all the pending ones."""
            pool = next(p for p in Pool.made if any(x[0] in among for x in p.pending))
            cand = [i for i, x in enumerate(pool.pending) if x[0] in among]
            return pool.run(cand[choose(len(cand)) if len(cand) > 1 else 0])
        def as_completed(fs, timeout=None):
            fs = set(fs)
            done = [f for f in fs if f.done()]
            while fs:
                f = done.pop() if done else finish(fs, fs)
                fs.discard(f); yield f
        def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
            fs = set(fs)
            while not all(f.done() for f in fs) and not (return_when != "ALL_COMPLETED" and any(f.done() for f in fs)): finish(fs, fs)
            return collections.namedtuple("D", "done not_done")({f for f in fs if f.done()}, {f for f in fs if not f.done()})
        def result(self, timeout=None):
            while not self.done(): finish({self}, {self})
            return orig[3](self, timeout)
        Pool.made = []
        cf.ThreadPoolExecutor, cf.as_completed, cf.wait, cf.Future.result = Pool, as_completed, wait, result
        fns_had = {n: getattr(fns, n) for n in ("ThreadPoolExecutor", "as_completed", "wait") if hasattr(fns, n)}
        for n in fns_had: setattr(fns, n, getattr(cf, n))
        try: return [(d, sorted(a), sorted(b)) for d, a, b in itertools.islice(fns.walk(top, max_workers=workers), 200)]
        except Exception as e: return e
        finally:
            cf.ThreadPoolExecutor, cf.as_completed, cf.wait, cf.Future.result = orig
            for n, v in fns_had.items(): setattr(fns, n, v)

    for n, (got, trace) in enumerate(choices(prog)):
        ctx.execs += 1; ctx.step()
        what = f"walk of {tree} (linked folder: {linked}) with max_workers={workers}, completions {[t[0] for t in trace]}"
        if isinstance(got, Exception): raise mc.Violation(f"{what}: {got!r}")
        if sorted(got) != want: raise mc.Violation(f"{what}: yields {[(os.path.relpath(d, top), a, b) for d, a, b in got]}, expected {[(os.path.relpath(d, top), a, b) for d, a, b in want]}")
        seen = set()
        for d, a, b in got:
            if d != top and os.path.dirname(d) not in seen: raise mc.Violation(f"{what}: {os.path.relpath(d, top)} comes before its parent")
            seen.add(d)
        ctx.state((tree, linked, workers, tuple(d for d, _, _ in got)))
        if n >= cap: ctx.capped = True; break
    ctx.outcome(len(want))


def whole(case, ctx):
    """map and optimize with the reader: every row reaches the function once."""
    names, counts, rows, workers, nodes = case
    root = os.path.realpath(ctx.scratch("w")); files = Files(os.path.join(root, "in")); out = os.path.join(root, "out")
    for n, k in zip(names, counts): files.put(n, k)
    def fn(p):
        for x in p.read().to_pylist(): yield x["i"]
    main = lambda: fns.optimize(fn, [files.path(n) for n in names], out, chunk_size=2, num_workers=workers, reader=ParquetReader(os.path.join(root, "cache"), num_rows=rows))
    r = opt.run(os.path.join(root, "h"), opt.on_nodes(main, root, nodes) if nodes > 1 else main)
    if not opt.ok(r): raise mc.Violation(f"{case}: {opt.short(r)}")
    got = opt.read(out)
    want = [x["i"] for n in names for x in files.rows[n]]
    if got != want: raise mc.Violation(f"{case}: the function was given rows {got}, expected {want}")
    ctx.step(); ctx.state(case)


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C25", rule="every list of row counts x shard size x placement of the files; every history of uses, replaced files and interrupted runs up to a depth; every folder tree up to a size x every order in which the listing requests complete",
                 bounds=f"1-3 files of 0-5 rows, shards of 1-7 rows; histories to depth {3 if quick else 4}; trees of up to {4 if quick else 6} entries, 1-3 listing workers, all completion orders")
    places = [("a/x.parquet",), ("a/x.parquet", "b/x.parquet"), ("a/x.parquet", "a/y.parquet"), ("x.parquet", "a/x.parquet"), ("a/b/x.parquet", "b/x.parquet", "a_b/x.parquet"), ("a/2_x.parquet", "a/x.parquet")]
    cases = [(p, ks, r, g) for p in places for ks in itertools.product((0, 1, 2, 3, 5) if len(p) < 3 else (1, 2, 4), repeat=len(p)) for r in ((1, 2, 3, 7) if quick else (1, 2, 3, 4, 5, 7)) for g in ((2,) if quick else (1, 2, 100))]
    c.phase("parquet", cases, parquet)
    ops = [("put", "a/x.parquet", 3), ("put", "a/x.parquet", 5), ("put", "b/x.parquet", 3), ("use", 2), ("use", 3), ("crash", 1), ("crash", 2)]
    c.phase("histories", [h + (("use", 2),) for n in range(1, 4 if quick else 5) for h in itertools.product(ops, repeat=n)], history)
    shapes = [t for n in range(0, 5 if quick else 7) for t in trees(n)]
    c.phase("walk", [(t, w, False, 3000) for t in shapes for w in (1, 2, 3)] + [(t, 2, True, 3000) for t in shapes if len(repr(t)) < 40] +
            [((("d", ()),) * 4, w, False, 3000) for w in (1, 2)] + [((("d", (("d", ()), ("d", ()))), ("d", ()), ("d", ())), w, False, 3000) for w in (1, 2)], walking)
    opt.warm()
    c.phase("whole", [(p, ks, r, w, n) for p in places[:4] for ks in itertools.product((1, 3), repeat=len(p)) for r in (1, 2) for w in (1, 2) for n in (1, 2)], whole)
    return c
