import re
from lib import mc, ds, envsetup
import os, itertools, json, collections
import torch, numpy as np
from litdata.streaming.cache import Cache
from litdata.streaming.item_loader import TokensLoader
from litdata.utilities.encryption import FernetEncryption

ENC = {}


def check_index(path, counts, sizes, limit, comp, encl, spec, ctx, tokens=None, block=None):
    """counts/sizes: per written sample, in order, its number of units towards a sample limit and of data bytes."""
    idx = ds.read_index(path)
    listed = [c["filename"] for c in idx["chunks"]]
    disk = sorted(f for f in os.listdir(path) if f.endswith(".bin"))
    if sorted(listed) != disk:
        raise mc.Violation(f"the index lists {listed}, the folder holds {disk}")
    n = sum(c["chunk_size"] for c in idx["chunks"])
    if n != len(sizes):
        raise mc.Violation(f"the index counts {n} samples, {len(sizes)} were written: {idx['chunks']}")
    pos = 0
    for c in idx["chunks"]:
        k = c["chunk_size"]
        if k < 1:
            raise mc.Violation(f"a chunk of {k} samples is listed: {c}")
        mine = range(pos, pos + k)
        units, nbytes = sum(counts[i] for i in mine), sum(sizes[i] for i in mine)
        if limit[0] == "chunk_size":
            if units > limit[1] and k > 1:
                raise mc.Violation(f"chunk {c['filename']} holds {units} units (samples {list(mine)}), the limit is {limit[1]}; sizes {counts}")
        elif nbytes > limit[1] and k > 1:
            raise mc.Violation(f"chunk {c['filename']} holds {nbytes} bytes of data in {k} samples, the limit is {limit[1]}; sizes {sizes}")
        if tokens is not None and (c["dim"] or 0) != sum(tokens[i] for i in mine):
            raise mc.Violation(f"chunk {c['filename']} has {sum(tokens[i] for i in mine)} tokens, the index says {c['dim']}")
        if not comp:
            real = os.path.getsize(os.path.join(path, c["filename"]))
            if real != c["chunk_bytes"]:
                raise mc.Violation(f"chunk {c['filename']} has {real} bytes, the index says {c['chunk_bytes']}")
        pos += k
    cfg = idx["config"]
    want = dict(compression=comp, chunk_size=limit[1] if limit[0] == "chunk_size" else None,
                chunk_bytes=limit[1] if limit[0] == "chunk_bytes" else None)
    for k, v in want.items():
        if cfg.get(k) != v:
            raise mc.Violation(f"the index records {k}={cfg.get(k)!r}, the dataset was written with {v!r}")
    if encl and (not cfg.get("encryption") or cfg["encryption"].get("level") != encl or cfg["encryption"].get("algorithm") != "fernet"):
        raise mc.Violation(f"the index records encryption {cfg.get('encryption')}")
    if not encl and cfg.get("encryption"):
        raise mc.Violation(f"the index records encryption {cfg.get('encryption')} for plain data")
    if not cfg.get("data_format") or not cfg.get("data_spec"):
        raise mc.Violation(f"the index does not record the data structure: {cfg}")
    ctx.outcome([c["chunk_size"] for c in idx["chunks"]])
    return idx


def seqs_case(case, ctx):
    limit, comp, encl, seqs = case
    enc = ENC.get(encl)
    for sizes in seqs:
        path = ctx.scratch()
        c = Cache(path, compression=comp, encryption=enc, **{limit[0]: limit[1]})
        data = []
        for i, s in enumerate(sizes):
            data.append(bytes([(i * 7 + 1) % 256]) * s)
            c[i] = data[-1]
        c.done(); c.merge()
        ctx.execs += 1; ctx.step(len(sizes)); ctx.state((limit, comp, encl, sizes))
        check_index(path, [1] * len(sizes), [s + 4 for s in sizes], limit, comp, encl, None, ctx)
        if not comp:  # the listed chunks hold the listed samples, in order
            raw = Cache(path, encryption=enc, chunk_size=1)
            got = [raw[i] for i in range(len(sizes))]
            if got != data:
                raise mc.Violation(f"chunks listed in the index do not hold the samples in order (sizes {sizes})")
        ctx.add("chunks", len(os.listdir(path)) - 1)


def tokens_case(case, ctx):
    limit, comp, kind, seqs = case
    for dims in seqs:
        path = ctx.scratch()
        c = Cache(path, compression=comp, item_loader=TokensLoader(2), **{limit[0]: limit[1]})
        for i, s in enumerate(dims):
            c[i] = torch.full((s,), i, dtype=torch.int32) if kind == "torch" else np.full((s,), i, dtype=np.int32)
        c.done(); c.merge()
        ctx.execs += 1; ctx.step(len(dims)); ctx.state((limit, comp, kind, dims))
        check_index(path, list(dims), [4 * d for d in dims], limit, comp, None, None, ctx, tokens=list(dims))


def merged(case, ctx):
    """Several writers, then one merged index: every chunk listed once, in writer order."""
    per, limit, comp = case
    path = ctx.scratch()
    n = len(per)
    os.environ["DATA_OPTIMIZER_NUM_WORKERS"] = str(n)
    order, sizes, caches, k = [], [], [], 0
    for r, cnt in enumerate(per):
        os.environ["DATA_OPTIMIZER_GLOBAL_RANK"] = str(r)
        c = Cache(path, compression=comp, **{limit[0]: limit[1]})
        c._writer.rank
        for i in range(cnt):
            c[i] = b"%04d" % k + b"x" * (k % 4); sizes.append(8 + k % 4); k += 1
        c.done(); caches.append(c)
        order += sorted((f for f in os.listdir(path) if f.endswith(".bin") and f not in order), key=lambda f: [int(x) for x in re.findall(r"\d+", f)])
    del os.environ["DATA_OPTIMIZER_GLOBAL_RANK"]; del os.environ["DATA_OPTIMIZER_NUM_WORKERS"]
    caches[0].merge()
    ctx.execs += 1; ctx.step(k); ctx.state(case)
    idx = check_index(path, [1] * k, sizes, limit, comp, None, None, ctx)
    left = [f for f in os.listdir(path) if f.endswith("index.json") and f != "index.json"]
    if left:
        raise mc.Violation(f"after merging, writer indices remain: {left}")
    if not comp:
        raw = Cache(path, chunk_size=1)
        got = [raw[i] for i in range(k)]
        if [int(g[:4]) for g in got] != list(range(k)):
            raise mc.Violation(f"merged index of {per} is not in sample order: {[int(g[:4]) for g in got]}")


def build(tier, seed):
    quick = tier == "quick"
    for lv in ("sample", "chunk"):
        ENC[lv] = FernetEncryption(password="pw", level=lv)
    N = 5 if quick else 7
    c = mc.Check("C02", rule="every sequence of sample sizes (or document lengths) up to the bound against every limit; every vector of samples per writer",
                 bounds=f"sizes from {{0,1,9,20}} bytes, length <= {N}; limits 1..4 samples, 1/4/5/13/14/24/40 bytes; documents of 1..5 tokens, limits 1..6 tokens; up to 3 writers of 0..3 samples plus 11..12 writers")
    alpha = (0, 1, 9, 20)
    def seqs(a, n):
        return [s for k in range(1, n + 1) for s in itertools.product(a, repeat=k)]
    def split(l, k):
        return [l[i:i + k] for i in range(0, len(l), k)]
    limits = [("chunk_size", k) for k in (1, 2, 3, 4)] + [("chunk_bytes", b) for b in (1, 4, 5, 13, 14, 24, 40)]
    cases = []
    for lim in limits:
        for ch in split(seqs(alpha, N), 80):
            cases.append((lim, None, None, ch))
        for comp, encl in (("zstd", None), (None, "sample"), (None, "chunk"), ("zstd", "sample")):
            for ch in split(seqs(alpha, 2 if quick else 4), 40):
                cases.append((lim, comp, encl, ch))
    c.phase("sizes", cases, seqs_case)
    tc = []
    for lim in [("chunk_size", k) for k in (2, 3, 4, 6)] + [("chunk_bytes", b) for b in (4, 8, 12, 20, 40)]:
        for kind in ("torch", "numpy"):
            for ch in split(seqs((1, 2, 3, 5), 4 if quick else 6), 80):
                tc.append((lim, None, kind, ch))
    c.phase("tokens", tc, tokens_case)
    pers = [p for n in (1, 2, 3) for p in itertools.product((0, 1, 2, 3), repeat=n) if sum(p)] + [(1,) * n for n in range(4, 14)] + [(2, 1) * 6, (3,) * 21]
    c.phase("writers", [(p, l, comp) for p in pers for l in (("chunk_size", 2), ("chunk_bytes", 20)) for comp in (None, "zstd")], merged)
    return c
