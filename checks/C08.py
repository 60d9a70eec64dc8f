from lib import mc, ds, envsetup, objstore, opt, readers, sched
import os, shutil

# name: (samples per chunk, compression, block size of tokens, scheme, parquet loader options)
DATA = {
    "plain":  ((1, 1, 1), None, None, "local", None),
    "zstd":   ((1, 1, 1), "zstd", None, "local", None),
    "tokens": ((1, 1, 1), None, 2, "local", None),
    "tokensz": ((1, 1), "zstd", 2, "local", None),
    "parquet": ((2, 1), None, None, "local", (True, True)),
    "parqueth": ((2, 1), None, None, "local", (False, False)),
    "s3":     ((1, 1), None, None, "s3", None),
    "s3z":    ((1, 1), "zstd", None, "s3", None),
    "gs":     ((1, 1), None, None, "gs", None),
    "azure":  ((1, 1), "zstd", None, "azure", None),
    "two":    ((2, 1), None, None, "local", None),
    "pairs":  ((2, 2), None, None, "local", None),
}


def interleave(case, ctx):
    """All schedules of some readers, with at most `bound` deviations: another task goes on, or the task is held up for some seconds."""
    name, lists, opts, bound, delays, part = case
    vec, comp, tokens, scheme, pq = DATA[name]
    opts = dict(opts)
    root = os.path.realpath(ctx.scratch("r"))
    data = readers.Data(os.path.join(root, "d"), vec, comp, scheme=scheme, tokens=tokens, parquet=pq)
    big = max(data.bytes + data.disk)
    limit = opts.pop("limit", None)
    if limit: opts["max_cache_size"] = max(1, int(limit * big))
    k, longest = [0], [0]
    def one(prefix):
        k[0] += 1
        cache, home = os.path.join(root, f"c{k[0]}"), os.path.join(root, f"h{k[0]}")
        r = readers.run(data, cache, home, readers.program(data, cache, lists, **opts), prefix=prefix, preempt=("f",), delays=delays, hang_after=3000)
        shutil.rmtree(cache, ignore_errors=True); shutil.rmtree(home, ignore_errors=True)
        ctx.execs += 1; ctx.step(r["steps"]); longest[0] = max(longest[0], r["vt"])
        what = f"{name} {DATA[name]}: readers of {lists}, {opts}, schedule {[(i, c) for i, c in enumerate(prefix) if c]}"
        if r["status"] in ("died", "diverged"): raise RuntimeError(f"{what}: {r['status']} {r['detail']}")
        if not opt.ok(r): raise mc.Violation(f"{what}: {opt.short(r)}\n{r['tb'][-800:]}")
        bad = [t for t in r["tasks"] if t[3]]
        if bad: raise mc.Violation(f"{what}: {bad}")
        return r
    n, complete = sched.explore(one, bound, part=part)
    ctx.state(case); ctx.outcome((name, len(lists), round(longest[0] / 30)))
    ctx.sample(f"{case[:5]}: {n} schedules with at most {bound} deviations, up to {longest[0]:.0f} (virtual) seconds")


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C08", rule="all schedules of the readers and their download threads with at most `bound` deviations from the default one; at every operation on the cache folder (files, locks, halves of copies) another task may go on, or the running one may be held up for 1.5 or 40 seconds of virtual time",
                 bounds=f"2-3 readers (by index, or the ranks of an epoch), 2-3 chunks, {len(DATA)} datasets, {1 if quick else '1-2'} deviations",
                 assumptions=["operations between two file, lock, queue or sleep operations are atomic", "tasks run in turn by default; time passes when all of them wait"])
    A, B3, E = ([0, 1, 2], [2, 0, 1]), ([0, 1], [1, 0], [0, 1]), ("iter", "iter")
    L1, L2, LT, N = (("limit", 1),), (("limit", 2),), (("limit", 0.01),), ()
    D = (1.5, 40.0)
    q = [("plain", A, L1), ("zstd", A, L1), ("tokens", A, L1), ("plain", ([0, 1, 0], [1, 0, 1]), LT), ("parquet", ([0, 2], [2, 0]), L1), ("plain", E, L1), ("zstd", E, N), ("tokensz", ([0, 1], [1, 0]), L1),
         ("s3z", ([0, 1, 0], [0, 1]), L1), ("two", ([0, 2, 1], [1, 2, 0]), L1)]
    t = [(d, l, o) for d in DATA for l in (A, ([0, 1, 0], [1, 0, 1]), ([0, 1, 0], [0, 1]), B3, E, ("iter", "iter", "iter")) for o in (L1, L2, LT, N, L1 + (("max_pre_download", 1),), L1 + (("max_pre_download", 3),), L1 + (("shuffle", True),), L1 + (("late", (0, 0.5, 1)),))
         if max([max(x) for x in l if x != "iter"] + [0]) < sum(DATA[d][0])]
    cases = [(d, l, o, 1, D, (i, k)) for d, l, o in (q if quick else t) for k in (4 if quick else 2,) for i in range(k)]
    c.phase("interleave", cases, interleave)
    if not quick:
        c.phase("deeper", [(d, l, o, 2, (1.5,), (i, 64)) for d, l, o in q for i in range(64)], interleave, timeout=3000)
    return c
