from lib import mc, ds, envsetup
import os, itertools
from litdata.streaming.cache import Cache
from litdata.streaming.item_loader import PyTreeLoader
from litdata.utilities.encryption import FernetEncryption

ENC = {}
NAMES = ("d", "run.zstd.v2", "a b.bin")


def payload(i, size):
    """Bytes of exactly `size` whose content depends on the position, not on neighbours."""
    return bytes((i * 37 + j * 11 + 5) % 251 for j in range(size))


def shapes(kind, i, size):
    p = payload(i, size)
    return {"bytes": p, "dict": {"k": i, "p": p, "s": "x" * (size % 4)}, "list": [p, i, p[:1]], "tuple": (i, [p, {"n": float(i)}])}[kind]


def read_back(path, enc, n, ctx, remote):
    import litdata
    src = ("local:" + path) if remote else path
    d = ds.StreamingDataset(src, encryption=enc)
    it = list(d)
    yield "iteration", it
    d2 = ds.StreamingDataset(src, encryption=enc)
    ln = len(d2)
    if ln != n:
        raise mc.Violation(f"len() is {ln}, {n} samples were written")
    yield "access by index", [d2[i] for i in range(n)]
    back = [d2[i] for i in reversed(range(n))]
    yield "access by index, backwards", list(reversed(back))


def same(a, b):
    return type(a) is type(b) and a == b


def one(case, ctx):
    limit, comp, encl, kind, firsts, remote, name = case
    enc = ENC.get(encl)
    for sizes in firsts:
        samples = [shapes(kind, i, s) for i, s in enumerate(sizes)]
        root = ctx.scratch()
        path = os.path.join(root, name)
        os.makedirs(path)
        c = Cache(path, compression=comp, encryption=enc, **{limit[0]: limit[1]})
        for i, s in enumerate(samples):
            c[i] = s
        c.done()
        c.merge()
        ctx.execs += 1
        ctx.step(len(sizes))
        ctx.state((limit, comp, encl, kind, sizes))
        ctx.outcome(tuple(x["chunk_size"] for x in ds.read_index(path)["chunks"]))
        for how, got in read_back(path, enc, len(samples), ctx, remote):
            if len(got) != len(samples):
                raise mc.Violation(f"{how} yields {len(got)} samples, {len(samples)} were written (sizes {sizes})")
            for i, (a, b) in enumerate(zip(samples, got)):
                if not same(a, b):
                    raise mc.Violation(f"sample {i} read back by {how} differs (sizes {sizes}): wrote {a!r} read {b!r}")
        import shutil
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample(dict(case=case[:4], sizes=firsts[0]))


def writers(case, ctx):
    """Several writers (as data-optimizer workers) write into one folder; their indices are merged."""
    n, per, limit, comp = case
    path = ctx.scratch()
    os.environ["DATA_OPTIMIZER_NUM_WORKERS"] = str(n)
    exp, caches, k = [], [], 0
    for r in range(n):
        os.environ["DATA_OPTIMIZER_GLOBAL_RANK"] = str(r)
        c = Cache(path, compression=comp, **{limit[0]: limit[1]})
        assert c._writer.rank == r
        cnt = per[r % len(per)]
        for i in range(cnt):
            v = payload(k, 8 + k % 5)
            exp.append(v); c[i] = v; k += 1
        c.done()
        caches.append(c)
    del os.environ["DATA_OPTIMIZER_GLOBAL_RANK"]; del os.environ["DATA_OPTIMIZER_NUM_WORKERS"]
    caches[0].merge()
    ctx.execs += 1; ctx.state(case); ctx.step(k)
    for how, got in read_back(path, None, len(exp), ctx, False):
        if got != exp:
            raise mc.Violation(f"{n} writers, merged in rank order: {how} yields {[exp.index(g) if g in exp else '?' for g in got]}")


def build(tier, seed):
    quick = tier == "quick"
    for lv in ("sample", "chunk"):
        ENC[lv] = FernetEncryption(password="pw", level=lv)
    c = mc.Check("C01", rule="every sequence of sample sizes up to the length bound for every limit and option; plus every number of writers merged into one index",
                 bounds="sizes from {0,3,10,30} bytes, length <= %d; limits 1..3 samples and 1/16/24/44 bytes; zstd/none; fernet sample/chunk/none; 4 structures; remote (cached) and local" % (4 if quick else 6))
    alpha = (0, 3, 10, 30)
    limits = [("chunk_size", 1), ("chunk_size", 2), ("chunk_size", 3), ("chunk_bytes", 1), ("chunk_bytes", 16), ("chunk_bytes", 24), ("chunk_bytes", 44)]
    def seqs(n):
        return [s for k in range(1, n + 1) for s in itertools.product(alpha, repeat=k)]
    def split(l, k):
        return [l[i:i + k] for i in range(0, len(l), k)]
    cases = []
    for lim in limits:
        for comp, encl in itertools.product((None, "zstd"), (None, "sample", "chunk")):
            plain = comp is None and encl is None
            N = (4 if plain else 3) if quick else (6 if plain else 5)
            for ch in split(seqs(N), 24):
                cases.append((lim, comp, encl, "bytes", ch, False, "d"))
        for kind in ("dict", "list", "tuple"):
            for ch in split([s for s in seqs(2 if quick else 4)], 24):
                cases.append((lim, None, None, kind, ch, False, "d"))
                if not quick:
                    cases.append((lim, "zstd:3", "sample", kind, ch, True, "d"))
    cases.sort(key=lambda k: len(k[4][0]))
    c.phase("sizes", cases, one, timeout=120)
    rc = []
    for lim in (("chunk_size", 2), ("chunk_bytes", 24)):
        for comp, encl, name in itertools.product((None, "zstd", "zstd:1"), (None, "sample", "chunk"), NAMES):
            rc.append((lim, comp, encl, "dict", [s for s in itertools.product(alpha, repeat=3 if quick else 4)][::1 if not quick else 7], True, name))
            rc.append((lim, comp, encl, "bytes", [(3, 30, 0, 10, 3)], False, name))
    c.phase("options", rc, one, timeout=200)
    wc = [(n, per, lim, comp) for n in list(range(1, 14)) + [23] for per in ((1,), (3,), (2, 5), (4, 1, 2)) for lim in (("chunk_size", 2), ("chunk_bytes", 30)) for comp in (None, "zstd")]
    c.phase("writers", wc, writers)
    return c
