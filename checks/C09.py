from lib import mc, ds, envsetup, objstore, opt, readers, sched
import itertools, os, shutil
import litdata

WALK = os.walk

# name: (samples per chunk, compression, block size of tokens, scheme, encrypted)
DATA = {
    "plain": ((1, 1, 1), None, None, "local"),
    "zstd":  ((1, 1, 1), "zstd", None, "local"),
    "tokens": ((1, 1, 1), None, 2, "local"),
    "tokensz": ((1, 1, 1), "zstd", 2, "local"),
    "two":   ((2, 2), None, None, "local"),
    "four":  ((1, 1, 1, 1), None, None, "local"),
    "long":  ((1,) * 12, None, None, "local"),
    "longt": ((1,) * 12, None, 2, "local"),
    "longz": ((1,) * 12, "zstd", None, "local"),
    "longs": ((1,) * 12, None, None, "s3"),
    "wide":  ((2,) * 7, None, None, "local"),
    "s3":    ((1, 1, 1), None, None, "s3"),
    "gs":    ((1, 1, 1), "zstd", None, "gs"),
    "place": ((1, 1, 1), None, None, None),
    "placez": ((1, 1, 1), "zstd", None, None),
    "placet": ((1, 1, 1), None, 2, None),
}


def tree(top):
    out = {}
    for d, _, ff in WALK(top):
        for f in ff:
            with sched.REAL["open"](os.path.join(d, f), "rb") as h: out[os.path.relpath(os.path.join(d, f), top)] = h.read()
    return out


def used(top):
    """Bytes of chunk data in the cache folder (complete, partial, compressed or not)."""
    n = 0
    for d, _, ff in WALK(top):
        for f in ff:
            if not f.endswith((".cnt", ".lock", ".json", ".json.tmp")):
                try: n += os.lstat(os.path.join(d, f)).st_size
                except FileNotFoundError: pass
    return n


def lag(seconds):
    """Every download of a chunk takes this long (of the virtual time)."""
    from litdata.streaming import downloader
    import time
    for cls in downloader.Downloader.__subclasses__():
        if "download_file" not in cls.__dict__: continue
        def slow(self, remote, local, _orig=cls.__dict__["download_file"], **kw):
            if not remote.endswith(".json"): time.sleep(seconds)
            return _orig(self, remote, local, **kw)
        cls.download_file = slow


def sequences(case, ctx):
    """Every sequence of accesses, each in a cache folder of its own."""
    name, limit, ahead, nodes, slow, seqs = case
    vec, comp, tokens, scheme = DATA[name]
    root = os.path.realpath(ctx.scratch("q"))
    data = readers.Data(os.path.join(root, "d"), vec, comp, scheme=scheme or "local", tokens=tokens)
    place = scheme is None
    orig = tree(data.folder)
    sizes = data.bytes if not comp else [max(a, b) for a, b in zip(data.bytes, data.disk)]
    big = max(sizes)
    kw = dict(max_pre_download=ahead)
    if limit is not None: kw["max_cache_size"] = max(1, int(limit * big))
    for k, seq in enumerate(seqs):
        cache = os.path.join(root, f"c{k}")
        home = os.path.join(root, f"h{k}")
        top = data.folder if place else cache
        peak = [0, ""]
        def snap(step, what):
            if ": f " not in what: return
            n = used(top)
            if n > peak[0]: peak[:] = [n, what]
        seen = []
        def main():
            sched.S.watch = top
            if slow: lag(slow)
            if nodes > 1: os.environ.update(WORLD_SIZE=str(nodes), GLOBAL_RANK="0", NNODES=str(nodes))
            if place: d = litdata.StreamingDataset(data.folder, drop_last=False, **kw, **({"item_loader": readers.TokensLoader(block_size=tokens)} if tokens else {}))
            else: d = data.open(cache, drop_last=False, **kw)
            for a in seq:
                if isinstance(a, int):
                    x = d[a]
                    if not data.whole(x, a): raise RuntimeError(f"sample {a} reads {bytes(x[:40])}")
                    continue
                d.shuffle = a.startswith("s")
                it = iter(d)
                got = []
                while True:
                    try: x = next(it)
                    except StopIteration: break
                    got.append(data.value(x))
                    if not data.whole(x, got[-1]): raise RuntimeError(f"sample {got[-1]} reads {bytes(x[:40])}")
                    if a.endswith("1"): break
                    if a.endswith("2") and len(got) == 2: break
                n = {"1": 1, "2": 2}.get(a[-1], data.n if nodes == 1 else len(got))
                if len(got) != n or not got or len(set(got)) != n or (a[0] == "e" and nodes == 1 and got != list(range(n))): raise RuntimeError(f"an epoch gives {got}")
            return peak
        r = readers.run(data, cache, home, main, snap=None if place else snap)
        what = f"{name} {DATA[name]} with max_cache_size={kw.get('max_cache_size')} (chunks {sizes} bytes), max_pre_download={ahead}{f', {slow} s per download' if slow else ''}: accesses {seq}"
        if r["status"] in ("died", "diverged"): raise RuntimeError(f"{what}: {r['status']} {r['detail']}")
        if not opt.ok(r): raise mc.Violation(f"{what}: {opt.short(r)}\n{r['tb'][-1500:]}")
        ctx.execs += 1; ctx.step(r["steps"])
        peak = r["value"]
        now = tree(top)
        if place:
            gone = [f for f in orig if now.get(f) != orig[f]]
            if gone: raise mc.Violation(f"{what}: files {gone} of a dataset that is read in place were removed or changed")
        if not place:
            # epochs that end early and single reads before an epoch: their reader is left alone with its chunks
            left = sum(1 for x, y in zip(seq, seq[1:]) if isinstance(y, str) and x not in ("e", "s"))
            over = peak[0] / big - (limit or 0) - (ahead + 3)
            if limit and over > 0.2:
                text = f"{what}: up to {peak[0]} bytes of chunks in the cache, before [{peak[1]}]"
                if over > 0.2 + left * (ahead + 2): raise mc.Violation(text)
                ctx.known_or_raise(text, "abandoned-reader")
            if not limit or limit * big >= sum(sizes) + 3 * big:
                gone = [c["filename"].replace(".zstd", "") for k, c in enumerate(data.index["chunks"]) if any(a == "e" or a == "s" or isinstance(a, int) and data.chunk_of(a) == k for a in seq) and not any(f.endswith(c["filename"].replace(".zstd", "")) for f in now)]
                if gone: raise mc.Violation(f"{what}: {gone} were deleted although the bound is not reached")
        shutil.rmtree(cache, ignore_errors=True); shutil.rmtree(home, ignore_errors=True)
        ctx.state((name, limit, ahead, seq)); ctx.outcome((name, limit, peak[0] // big))


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C09", rule="every sequence of reads by index (each to another sample than the one before) and of whole, broken-off, ordered and shuffled epochs, up to the lengths, each on a cache folder of its own",
                 bounds=f"{len(DATA)} datasets of 2 to 12 chunks, bounds of 0.01 to 20 chunks or none, 1 to 3 chunks ahead (to 6 with downloads that take 0.05, 4 or 40 s), 1 or 2 nodes; up to {4 if quick else 5} reads, {3 if quick else 4} epochs",
                 assumptions=["the default schedule of the reader and its download thread (C08 explores the others)"])
    def split(name, limit, ahead, nodes, seqs, k, slow=0): return [(name, limit, ahead, nodes, slow, tuple(seqs[i::k])) for i in range(k) if seqs[i::k]]
    cases, place, epochs = [], [], []
    for j, (name, (vec, comp, tokens, scheme)) in enumerate(DATA.items()):
        n = sum(vec)
        if n > 4: continue
        m = 3 if quick and name != "plain" or n > 3 else 4 if quick else 5
        seqs = [s for k in range(1, m + 1) for s in itertools.product(range(n), repeat=k) if all(a != b for a, b in zip(s, s[1:]))]
        seqs = [s for s in seqs if len(s) >= m - 1]
        seqs += [("e", "e"), ("s", "s"), ("e1", "e", "s"), ("e2", "e2"), (0, "e", n - 1), ("e", 1, "e"), ("s2", 0, "s")]
        for i, limit in enumerate((None, 1, 0.01, 2, 1.5, 20)):
            for ahead in (2, 1, 3):
                if quick and (i + j + ahead) % (6 if scheme is None else 3): continue
                (place if scheme is None else cases).extend(split(name, limit, ahead, 1, seqs, 2))
    acts = ["e", "s", "e1", "s2", 0, 5]
    for name, (vec, comp, tokens, scheme) in DATA.items():
        if sum(vec) <= 4: continue
        seqs = [x for k in ((2, 3) if quick else (2, 3, 4)) for x in itertools.product(acts, repeat=k) if any(isinstance(a, str) for a in x)]
        seqs += [("s2",) * 6, ("e", "s") * 2, tuple(range(11, -1, -1)) * 2, tuple(i * 5 % 12 for i in range(24)), (0, 11) * 5]
        for limit, ahead, nodes in ((1, 2, 1), (0.01, 2, 1), (3, 2, 1), (20, 2, 1), (None, 2, 1), (1, 1, 1), (1, 3, 1), (7, 2, 2), (2, 2, 2)):
            sq = seqs if not quick else seqs[hash_(name, limit, ahead, nodes) % 10::10] + seqs[-5:]
            if nodes > 1: sq = [x for x in sq if all(not isinstance(a, int) for a in x)]
            epochs += split(name, limit, ahead, nodes, sq, 1 if quick else 4)
    lags = []
    for name, (vec, comp, tokens, scheme) in DATA.items():
        if sum(vec) <= 4: continue
        seqs = [("e",), ("s", "e"), ("e2", "e", "s"), (0, "e")]
        for limit in (0.01, 1, 3):
            for ahead in (1, 2, 3, 4, 5, 6):
                for slow in (0.05, 4, 40):
                    if quick and (hash_(name, limit, ahead, slow) % 5 or ahead == 1): continue
                    lags += split(name, limit, ahead, 1, seqs, 1, slow)
    c.phase("sequences", cases, sequences)
    c.phase("in place", place, sequences)
    c.phase("epochs", epochs, sequences)
    c.phase("slow downloads", lags, sequences)
    return c


def hash_(*a): return sum(ord(x) for x in repr(a))
