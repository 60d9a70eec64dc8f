from lib import mc, ds, envsetup, objstore, opt, readers, sched
import hashlib, os, re, shutil
import litdata

ROPEN, RWALK = open, os.walk

# name: (samples per chunk, compression, block size of tokens, scheme, parquet loader options)
DATA = {
    "plain":  ((1, 1, 1), None, None, "local", None),
    "zstd":   ((1, 1), "zstd", None, "local", None),
    "tokens": ((1, 1, 1), None, 2, "local", None),
    "tokensz": ((1, 1), "zstd", 2, "local", None),
    "s3":     ((1, 1), None, None, "s3", None),
    "s3z":    ((1, 1), "zstd", None, "s3", None),
    "gs":     ((1, 1), None, None, "gs", None),
    "gsz":    ((1, 1), "zstd", None, "gs", None),
    "azure":  ((1, 1), None, None, "azure", None),
    "parquet": ((2, 1), None, None, "local", (True, True)),
    "parqueth": ((2, 1), None, None, "local", (False, False)),
}
PROGRAMS = {
    "forward": ([0, 1, 2], {}),
    "back":    ([2, 1, 0, 2], {}),
    "bound":   ([0, 1, 0, 2, 1], dict(limit=1)),
    "epoch":   ("iter", {}),
    "epochb":  ("iter", dict(limit=1)),
}


def tree(top):
    out = {}
    for d, dd, ff in RWALK(top):
        if not dd and not ff: out[os.path.relpath(d, top) + "/"] = None
        for f in ff:
            try:
                with ROPEN(os.path.join(d, f), "rb") as h: out[os.path.relpath(os.path.join(d, f), top)] = h.read()
            except FileNotFoundError: pass
    return out


def put(top, files):
    os.makedirs(top, exist_ok=True)
    for k, v in files.items():
        p = os.path.join(top, k)
        if v is None: os.makedirs(p, exist_ok=True); continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with ROPEN(p, "wb") as f: f.write(v)


def key(t): return hashlib.sha1(repr(sorted((re.sub(r"\.\d+\.\d+\.tmp$", ".tmp", re.sub(r"\.[0-9a-f]{8}$", ".part", k)), v) for k, v in t.items())).encode()).hexdigest()


class World:
    def __init__(self, ctx, name):
        self.vec, comp, tokens, scheme, pq = DATA[name]
        self.root = os.path.realpath(ctx.scratch("w"))
        self.ctx, self.name, self.k = ctx, name, 0
        self.data = readers.Data(os.path.join(self.root, "d"), self.vec, comp, scheme=scheme, tokens=tokens, parquet=pq)
        self.big = max(self.data.bytes + self.data.disk)
    def dirs(self, state=None):
        self.k += 1
        cache, home = os.path.join(self.root, f"c{self.k}"), os.path.join(self.root, f"h{self.k}")
        if state: put(cache, state)
        return cache, home
    def main(self, cache, prog, kw):
        """A process that opens the dataset and reads; notes what it obtained."""
        kw = dict(kw)
        limit = kw.pop("limit", None)
        if limit: kw["max_cache_size"] = int(limit * self.big)
        n = sum(self.vec)
        def main():
            sched.S.watch = cache
            if not os.path.exists(cache): os.makedirs(cache)
            d = self.data.open(cache, **kw)
            if len(d) != n: raise RuntimeError(f"the dataset has {len(d)} samples")
            if prog == "iter":
                it = iter(d)
                k = 0
                while True:
                    try: x = next(it)
                    except StopIteration: break
                    if not self.data.whole(x, k): raise AssertionError(f"WRONG: sample {k} of the epoch is {str(x)[:80]}")
                    k += 1
                if k != n: raise AssertionError(f"WRONG: the epoch has {k} samples")
            else:
                for i in prog:
                    if i >= n: continue
                    x = d[i]
                    if not self.data.whole(x, i): raise AssertionError(f"WRONG: sample {i} is {str(x)[:80]}")
            return d
        def outer():
            main(); return "done"
        return outer
    def run(self, state, prog, kw={}, cache=None, **sk):
        cache2, home = self.dirs(state)
        cache = cache or cache2
        r = readers.run(self.data, cache, home, self.main(cache, prog, kw), hang_after=1000, **sk)
        self.ctx.execs += 1; self.ctx.step(r["steps"])
        after = tree(cache)
        shutil.rmtree(cache, ignore_errors=True); shutil.rmtree(home, ignore_errors=True)
        if r["status"] in ("died", "diverged"): raise RuntimeError(f"{self.name}: {r['status']} {r['detail']} {r['tb']}")
        return r, after
    def fresh(self, what, state, progs, died=True):
        """A later reader on this cache folder."""
        for prog, kw in progs:
            r, after = self.run(state, prog, kw)
            ok = opt.ok(r)
            if not ok or r["vt"] > 100:
                text = f"{what}: a later reader ({prog}, {kw}) on the same cache folder, which holds {sorted((k, None if v is None else len(v)) for k, v in state.items())}: {opt.short(r)[:700]}, after {r['vt']:.0f} s\n{r['tb'][-800:]}"
                if died and self.name in ("gs", "gsz") and self.partial(state): self.ctx.known_or_raise(text, "gs-partial-file")
                else: raise mc.Violation(text)
    def partial(self, state):
        """Whether a file of the dataset is there in part under its own name."""
        return any(v is not None and len(v) < os.path.getsize(os.path.join(self.data.folder, os.path.basename(k))) for k, v in state.items() if os.path.exists(os.path.join(self.data.folder, os.path.basename(k))))




def crashes(case, ctx):
    """Everything ends at any step of the reader; a later reader goes on."""
    name, prog, later = case
    w = World(ctx, name)
    idx, kw = PROGRAMS[prog]
    cache = os.path.join(w.root, "cache")
    outdir = os.path.join(w.root, "snaps"); os.makedirs(outdir)
    seen = set()
    def snap(step, what):
        if ": f " not in what and "end" not in what: return
        t = tree(cache)
        h = key(t)
        if h in seen: return
        seen.add(h)
        import pickle
        with ROPEN(os.path.join(outdir, h), "wb") as f: pickle.dump((step, what, t), f)
    r, after = w.run(None, idx, kw, cache=cache, snap=snap)
    what = f"{name} {DATA[name]}, {prog} {PROGRAMS[prog]}"
    if not opt.ok(r): raise mc.Violation(f"{what}: {opt.short(r)}\n{r['tb'][-1200:]}")
    import pickle
    states = []
    for h in os.listdir(outdir):
        with ROPEN(os.path.join(outdir, h), "rb") as f: states.append((h, *pickle.load(f)))
    states.sort(key=lambda s: s[1])
    for h, step, at, t in states:
        ctx.state((name, h))
        w.fresh(f"{what}: everything ends before [{at.replace(cache, '')}]", t, [PROGRAMS[p] for p in later])
    ctx.outcome((name, prog, len(states))); ctx.sample(f"{name}, {prog}: {len(states)} contents of the cache folder")


def faults(case, ctx):
    """One operation on the cache folder (or one request to the store) fails, once or from then on."""
    name, prog, ops, once, part = case
    w = World(ctx, name)
    idx, kw = PROGRAMS[prog]
    k, done = part[0], False
    while not done:
        left, hit = [k + 1], [None]
        def fault(op, path, task):
            if ops != "store" and re.match(ops, op) and not (op.startswith("open:") and op != "open:wb" and not path.endswith((".cnt", ".tmp"))):
                left[0] -= 1
                if left[0] == 0 or (left[0] < 0 and not once):
                    with ROPEN(mark, "w") as f: f.write(f"{op} {path}")
                    return True
            return False
        def hook(op, url):
            if op == "get":
                left[0] -= 1
                if left[0] == 0 or (left[0] < 0 and not once):
                    with ROPEN(mark, "w") as f: f.write(f"{op} {url}")
                    raise OSError(5, "injected fault", url)
        mark = os.path.join(w.root, f"mark{k}")
        if ops == "store": w.data.st.hook = hook
        try: r, after = w.run(None, idx, kw, fault=fault)
        finally:
            if w.data.st: w.data.st.hook = None
        if not os.path.exists(mark): done = True
        else:
            with ROPEN(mark) as f: at = f.read()
            what = f"{name} {DATA[name]}, {prog} {PROGRAMS[prog]}, operation {k + 1} of {ops} fails {'once' if once else 'from then on'} ([{at}])"
            if r["status"] in ("deadlock", "hang"): raise mc.Violation(f"{what}: it never ends: {opt.short(r)}")
            if r["exc"] and "WRONG" in r["exc"][1]: raise mc.Violation(f"{what}: it is not reported: {r['exc'][1]}")
            ctx.state((name, prog, ops, once, k)); ctx.outcome((ops, r["exc"] is None))
            w.fresh(what, after, [PROGRAMS["back"]], died=False)
        k += part[1]
    ctx.sample(f"{name}, {prog}, {ops}: {k - part[1]} operations")


def survivors(case, ctx):
    """One of two readers is killed at any of its steps, the other goes on, a third comes later."""
    name, lists, kw, victim, part = case
    w = World(ctx, name)
    kw = dict(kw)
    limit = kw.pop("limit", None)
    if limit: kw["max_cache_size"] = int(limit * w.big)
    for k in range(1 + part[0], 100000, part[1]):
        cache, home = w.dirs()
        r = readers.run(w.data, cache, home, readers.program(w.data, cache, lists, **kw), kill=[victim, k, ("f", "q", "p", "s")], hang_after=1000)
        ctx.execs += 1; ctx.step(r["steps"])
        after = tree(cache)
        shutil.rmtree(cache, ignore_errors=True); shutil.rmtree(home, ignore_errors=True)
        what = f"{name} {DATA[name]}: readers of {lists} {kw}, {victim} killed at its step {k}"
        if r["status"] in ("died", "diverged"): raise RuntimeError(f"{what}: {r['status']} {r['detail']}")
        if not any(t[2] == -9 for t in r["tasks"]): break
        if not opt.ok(r):
            text = f"{what}: {opt.short(r)}"
            if name in ("gs", "gsz") and w.partial(after): ctx.known_or_raise(text, "gs-partial-file"); continue
            raise mc.Violation(text)
        ctx.state((name, victim, k, key(after)))
        w.fresh(what, after, [PROGRAMS["back"]])
    ctx.sample(f"{case[:4]}: {k} steps"); ctx.outcome((name, victim))


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C10", rule="every content of the cache folder that the end of everything at any step of a reader leaves (before each file operation, halves of copies and downloads, unflushed data lost), every file operation and download failing, every step of one of two readers as the point where it is killed; then a later reader reads everything",
                 bounds=f"{len(DATA)} datasets of 2-3 chunks (plain, compressed, tokens, parquet; folder, S3, GCS, Azure), {len(PROGRAMS)} access programs",
                 assumptions=["flushed data and renames are durable and in order", "file locks of a process end with it"])
    cases = [(n, p, ("back",) if quick and p not in ("bound",) else ("back", "bound", "epochb")) for n in DATA for p in PROGRAMS if not quick or p in ("forward", "bound") or n in ("plain", "zstd")]
    c.phase("crashes", cases, crashes)
    cases = []
    for n in DATA:
        for p in ("forward", "bound") if quick else PROGRAMS:
            if DATA[n][3] != "local": cases += [(n, p, "store", once, (0, 1)) for once in (True, False)]
            for ops in ("copy|half|flush|open:.*|rename|replace|close", "remove|unlink", "mkdir|listdir|scandir"):
                if quick and ops != "copy|half|flush|open:.*|rename|replace|close" and n not in ("plain", "zstd"): continue
                cases += [(n, p, ops, once, (0, 1)) for once in ((True,) if quick else (True, False))]
    c.phase("faults", cases, faults)
    cases = [(n, ([0, 1, 0], [1, 0, 1]), kw, v, (i, 4)) for n in (("plain", "zstd", "tokens") if quick else DATA) for kw in ((("limit", 1),), ()) for v in ("reader-1", "PrepareChunksThread-1") for i in range(4) if not quick or kw or n == "zstd"]
    c.phase("survivors", cases, survivors)
    return c
