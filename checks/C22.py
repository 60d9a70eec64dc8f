from lib import mc, ds, envsetup
import itertools, json, multiprocessing, os, time
from collections import Counter
import numpy as np
import torch
from torch.utils.data import Dataset
from litdata import StreamingDataset
from litdata.streaming.cache import Cache
from litdata.streaming.dataloader import CacheDataLoader
from litdata.streaming.item_loader import Interval
from litdata.streaming.sampler import CacheBatchSampler


class StubCache:
    """Only what the sampler is given: whether the cache is filled and its chunk intervals."""
    def __init__(self, filled, layout=()):
        self.filled, self._iv, b = filled, [], 0
        for k in layout:
            self._iv.append(Interval(b, b, b + k, b + k)); b += k
    def get_chunk_intervals(self):
        return self._iv


def sampler_write(case, ctx):
    """Caching epoch: one dataset size, every number of ranks, workers and batch size."""
    size, B = case
    for R, W, bs, sh in itertools.product(range(1, B["R"] + 1), range(0, B["W"] + 1), range(1, B["bs"] + 1), (False, True)):
        seen = Counter()
        for r in range(R):
            s = CacheBatchSampler(size, R, r, W, bs, False, sh, StubCache(False))
            for ep in range(2):
                batches = [list(b) for b in s]
                if ep and batches != first:
                    raise mc.Violation(f"size {size}, {R} ranks, {W} workers, batch {bs}: rank {r} gets other batches when iterated again before the cache is filled")
                first = batches
            if any(len(b) > bs for b in batches):
                raise mc.Violation(f"size {size}, {R} ranks, {W} workers, batch {bs}: a batch of rank {r} is too large: {batches}")
            w = max(W, 1)
            for k in range(w):
                ix = [i for b in batches[k::w] for i in b]
                if any(b - a != 1 for a, b in zip(ix, ix[1:])):
                    raise mc.Violation(f"size {size}, {R} ranks, {W} workers, batch {bs}: worker {k} of rank {r} gets {ix}, not consecutive")
                seen.update(ix)
                ctx.step(len(ix))
            ctx.outcome(batches)
        if seen != Counter(range(size)):
            raise mc.Violation(f"size {size}, {R} ranks, {W} workers, batch {bs}: over all ranks and workers the indices are {sorted(seen.elements())}")
        ctx.execs += 1
        ctx.state((size, R, W, bs, sh))


def sampler_read(case, ctx):
    """Filled cache: one chunk layout, every number of ranks, workers, batch size, over several epochs; the random
    states of the ranks are the same at the start or not."""
    layout, B = case
    n = sum(layout)
    for R, W, bs, sh, seeds in itertools.product(range(1, B["R"] + 1), range(0, B["W"] + 1), range(1, B["bs"] + 1), (False, True), ("same", "other")):
        if R == 1 and seeds == "other": continue
        what = f"chunks {layout}, {R} ranks, {W} workers, batch {bs}, shuffle {sh}, {seeds} seeds"
        per_rank = []
        for r in range(R):
            np.random.seed(7 if seeds == "same" else 7 + r)
            s = CacheBatchSampler(n, R, r, W, bs, False, sh, StubCache(True, layout))
            per_rank.append([[list(b) for b in s] for _ in range(B["epochs"])])
        iv = StubCache(True, layout)._iv
        for ep in range(B["epochs"]):
            seen = Counter()
            for r in range(R):
                for b in per_rank[r][ep]:
                    if len(b) > bs:
                        raise mc.Violation(f"{what}: a batch of rank {r} is too large")
                    for ci in b:
                        i = iv[ci.chunk_index]
                        if not i[1] <= ci.index < i[2]:
                            raise mc.Violation(f"{what}: index {ci.index} paired with chunk {ci.chunk_index}")
                        seen[ci.index] += 1
                        ctx.step()
            if seen != Counter(range(n)):
                raise mc.Violation(f"{what}: in epoch {ep + 1} the ranks together get {sorted(seen.elements())}")
            ctx.outcome([[c.index for b in p[ep] for c in b] for p in per_rank])
            ctx.state((layout, R, W, bs, sh, seeds, ep))
        ctx.execs += 1


class Plain(Dataset):
    def __init__(self, n): self.n = n
    def __len__(self): return self.n
    def __getitem__(self, i): return {"v": int(i) * 3 + 1}


class WithCache(Plain):
    """The documented pattern: the dataset fills its own cache."""
    def __init__(self, n, cache_dir, chunk_size, ret):
        super().__init__(n)
        self.cache = Cache(cache_dir, chunk_size=chunk_size)
        self.ret = ret
    def __getitem__(self, i):
        if self.cache.filled:
            return self.cache[i]
        d = super().__getitem__(i)
        self.cache[i] = d
        return d if self.ret else None


def rank_main(rank, R, kind, n, W, bs, cs, d, out, epochs, again):
    os.environ.update(WORLD_SIZE=str(R), GLOBAL_RANK=str(rank), NNODES="1")
    np.random.seed(100 + rank)
    cwd = os.path.join(out, f"cwd{rank}"); os.makedirs(cwd, exist_ok=True); os.chdir(cwd)
    res = []
    def build():
        if kind == "plain":
            return CacheDataLoader(Plain(n), cache_dir=d, chunk_bytes=None, num_workers=W, batch_size=bs)
        return CacheDataLoader(WithCache(n, d, cs, kind == "attr-ret"), num_workers=W, batch_size=bs)
    dl = build()
    for e in range(epochs):
        if again: dl = build() if e else dl
        res.append([b["v"].tolist() for b in dl])
    json.dump(res, open(os.path.join(out, f"r{rank}.json.tmp"), "w"))
    os.rename(os.path.join(out, f"r{rank}.json.tmp"), os.path.join(out, f"r{rank}.json"))


def e2e(case, ctx):
    kind, n, R, W, bs, cs, again = case
    root = ctx.scratch()
    d = os.path.join(root, "cache"); os.makedirs(d)
    mp = multiprocessing.get_context("fork")
    E = 3
    ps = []
    if R == 1:
        pid = os.fork()
        if pid == 0:
            try:
                rank_main(0, R, kind, n, W, bs, cs, d, root, E, again); os._exit(0)
            except BaseException:
                import traceback; open(os.path.join(root, "err0"), "w").write(traceback.format_exc())
                os._exit(1)
        pids = [pid]
    else:
        pids = []
        for r in range(R):
            pid = os.fork()
            if pid == 0:
                try:
                    rank_main(r, R, kind, n, W, bs, cs, d, root, E, again); os._exit(0)
                except BaseException:
                    import traceback; open(os.path.join(root, f"err{r}"), "w").write(traceback.format_exc())
                    os._exit(1)
            pids.append(pid)
    left, t0, bad = set(pids), envsetup.real_time(), None
    while left and bad is None:
        for p in list(left):
            q, st = os.waitpid(p, os.WNOHANG)
            if q:
                left.discard(p)
                if st: bad = p
        if envsetup.real_time() - t0 > 60: bad = "timeout"
        envsetup.real_sleep(0.005)
    what = f"{kind} dataset of {n}, {R} ranks, {W} workers, batch {bs}, chunk size {cs}, {'new loaders' if again else 'same loader'}"
    if bad:
        for p in left:
            os.kill(p, 9); os.waitpid(p, 0)
        errs = [open(os.path.join(root, f)).read()[-1500:] for f in os.listdir(root) if f.startswith("err")]
        raise mc.Violation(f"{what}: {'no end within 60 s' if bad == 'timeout' else 'failed'}: {errs}")
    res = [json.load(open(os.path.join(root, f"r{r}.json"))) for r in range(R)]
    want = Counter(i * 3 + 1 for i in range(n))
    for e in range(E):
        if e == 0 and kind == "attr":
            continue  # the dataset returns nothing while it caches
        got = Counter(v for r in range(R) for b in res[r][e] for v in b)
        if got != want:
            raise mc.Violation(f"{what}: epoch {e + 1} delivers {[res[r][e] for r in range(R)]}")
        if any(len(b) > bs for r in range(R) for b in res[r][e]):
            raise mc.Violation(f"{what}: epoch {e + 1} has a batch larger than {bs}")
        ctx.outcome([res[r][e] for r in range(R)]); ctx.step(n)
    sd = StreamingDataset(d)
    got = [int(x["v"]) for x in sd]
    if got != [i * 3 + 1 for i in range(n)]:
        raise mc.Violation(f"{what}: the cached dataset holds {got}")
    ctx.execs += 1
    ctx.state(case)
    ctx.sample(dict(case=case, batches=res))


def build(tier, seed):
    quick = tier == "quick"
    B = dict(R=3, W=3, bs=3, epochs=3) if quick else dict(R=5, W=5, bs=5, epochs=4)
    c = mc.Check("C22", rule="every size x ranks x workers x batch size x shuffle for the caching epoch; every chunk layout x the same for later epochs; real loaders with real worker processes end to end",
                 bounds=f"sampler: sizes up to {20 if quick else 60}, layouts of up to {6 if quick else 8} samples, {B}; loaders: up to {7 if quick else 11} samples, 2 ranks, 3 workers")
    c.phase("caching-epoch", [(n, B) for n in range(0, 21 if quick else 61)], sampler_write)
    lay = ds.vectors(6 if quick else 8) + [(3,) * 5, (1,) * 9, (4, 1, 4, 1, 2)]
    c.phase("filled-epochs", [(v, B) for v in lay], sampler_read)
    cases = []
    ns = (1, 2, 3, 5, 7) if quick else tuple(range(1, 12))
    for n in ns:
        for W in (0, 1, 2, 3):
            for bs in (1, 2, 3) if not quick else (1, 3):
                for kind in ("plain", "attr", "attr-ret"):
                    for cs in (1, 2):
                        if quick and (n + W + bs + cs + len(kind)) % 2: continue
                        cases.append((kind, n, 1, W, bs, cs, bool((n + W) % 2)))
        for W in (0, 1, 2):
            for kind in ("attr", "plain"):
                cases.append((kind, n, 2, W, 2, 2, bool(n % 2)))
    c.phase("loader", cases, e2e, timeout=150)
    return c
