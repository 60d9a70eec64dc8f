from lib import mc, ds, envsetup
import copy, io, itertools, json, os, shutil
import numpy as np, torch
import litdata
from litdata import train_test_split, CombinedStreamingDataset, StreamingDataLoader
from litdata.streaming.serializers import Serializer
import litdata.streaming.item_loader as il
from PIL import Image
from streaming.base.format.mds.writer import MDSWriter
from streaming.base.format.mds.encodings import mds_encode, mds_decode
from streaming.base.util import merge_index

if hasattr(il, "_FORCE_DOWNLOAD_TIME"): il._FORCE_DOWNLOAD_TIME = 0.06
if hasattr(il, "_MAX_WAIT_TIME"): il._MAX_WAIT_TIME = 20


def picture(i):
    return Image.fromarray(np.array([[[i, 2 * i, 200], [7, i, i]], [[9, 9, i], [i + 50, 3, 4]]], dtype=np.uint8))


def jpeg(i):
    b = io.BytesIO()
    picture(i).save(b, "JPEG")
    p = os.path.join(os.environ["HOME"], f"{i}.jpg")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f: f.write(b.getvalue())
    return Image.open(p)


# column encoding -> sample for v
KINDS = {
    "bytes": lambda v: bytes([v]) * (v * 7 % 30),
    "str":   lambda v: "é%d" % v * (v % 4),
    "int":   lambda v: v * (-1) ** v << 20,
    "jpeg":  jpeg,
    "pil":   picture,
}
# encodings LitData has no serializer for: read with one the user provides, refused without
EXTRA = {
    "uint8":   lambda v: np.uint8(v),
    "float64": lambda v: np.float64(v / 3),
    "float32": lambda v: np.float32(v / 3),
    "int16":   lambda v: np.int16(-v),
    "json":    lambda v: {"a": [v, None]},
    "str_int": lambda v: v ** 20,
    "str_float": lambda v: v / 7,
    "png":     picture,
    "pkl":     lambda v: (v, "x"),
    "ndarray": lambda v: np.arange(v + 1),
    "ndarray:int32": lambda v: np.full((1, v + 1), v, np.int32),
    "ndarray:int32:2,2": lambda v: np.full((2, 2), v, np.int32),
}
MAKE = {**KINDS, **EXTRA}


class Mds(Serializer):
    """What a user would plug in to read another encoding: the decoder of the MDS library."""
    def __init__(self, encoding): self.encoding = encoding
    def serialize(self, item): return mds_encode(self.encoding, item), None
    def deserialize(self, data): return mds_decode(self.encoding, data)
    def can_serialize(self, item): return False


def array(x):
    if isinstance(x, torch.Tensor): return x.numpy() if x.ndim != 3 else x.permute(1, 2, 0).numpy()
    return np.asarray(x)


def same(a, b):
    """a: what LitData returned, b: what was written."""
    if isinstance(b, (Image.Image, np.ndarray)): return array(a).shape == np.asarray(b).shape and bool((array(a) == np.asarray(b)).all())
    if isinstance(b, bool) or isinstance(a, (list, dict, tuple)): return type(a) is type(b) and a == b
    if isinstance(b, (int, float, np.number)): return not isinstance(a, (str, bytes)) and a == b
    return type(a) is type(b) and a == b


def sample(columns, v): return {name: MAKE[enc](v + k) for k, (name, enc) in enumerate(columns)}


def write(path, columns, values, comp, limit, parts=1):
    """Written by the MDS library itself, in parts that it merges."""
    names = dict(columns)
    cut = [len(values) * k // parts for k in range(parts + 1)]
    for k in range(parts):
        out = os.path.join(path, f"part{k}") if parts > 1 else path
        with MDSWriter(out=out, columns=names, compression=comp, size_limit=limit) as w:
            for v in values[cut[k]:cut[k + 1]]: w.write(sample(columns, v))
    if parts > 1: merge_index(path, keep_local=True)
    with open(os.path.join(path, "index.json")) as f: return [s["samples"] for s in json.load(f)["shards"]]


def check(got, columns, v, what):
    want = sample(columns, v)
    if not isinstance(got, dict) or set(got) != set(want): raise mc.Violation(f"{what}: sample {v} has {sorted(got) if isinstance(got, dict) else got!r}, it was written with {sorted(want)}")
    for k in want:
        if not same(got[k], want[k]): raise mc.Violation(f"{what}: sample {v}: column {k} ({dict(columns)[k]}) reads {got[k]!r}, {want[k]!r} was written")


def opened(path, remote, ctx, cache=None, **kw):
    if not remote: return litdata.StreamingDataset(path, **kw)
    return litdata.StreamingDataset("local:" + path, cache_dir=cache or ctx.scratch("c"), **kw)


def contents(case, ctx):
    """Every set of columns: each sample has the columns and values it was written with, by index in every order and by iteration."""
    columns, comps, limits, ns = case
    for comp, limit, n in itertools.product(comps, limits, ns):
        path = ctx.scratch("d")
        vec = write(path, columns, range(n), comp, limit)
        names = dict(columns)
        for remote, size in ((False, None), (True, None), (True, 1)):
            kw = {} if size is None else {"max_cache_size": size}
            extra = {e: Mds(e) for e in names.values() if e in EXTRA}
            if extra: kw["serializers"] = extra
            what = f"MDS dataset with columns {names}, shards of {vec} samples, compression {comp}, {'cached' if remote else 'in place'} {kw}"
            d = opened(path, remote, ctx, **kw)
            ctx.execs += 1; ctx.state((columns, comp, limit, n, remote, size)); ctx.outcome((tuple(vec), comp))
            if len(d) != n: raise mc.Violation(f"{what}: len() is {len(d)}, {n} samples were written")
            for p in itertools.permutations(range(n)) if n <= 3 else (range(n), range(n - 1, -1, -1)):
                for v in p: check(d[v], columns, v, what); ctx.step()
            for _ in range(2):
                it, got = iter(d), 0
                while True:
                    try: x = next(it)
                    except StopIteration: break
                    check(x, columns, got, what + ", by iteration"); got += 1
                if got != n: raise mc.Violation(f"{what}: an epoch has {got} samples, {n} were written")
        shutil.rmtree(path, ignore_errors=True)


def refused(case, ctx):
    """An encoding that no serializer reads, or a compression that isn't available: an error, never another value."""
    columns, comp = case
    path = ctx.scratch("d")
    write(path, columns, range(3), comp, 200)
    for remote in (False, True):
        ctx.execs += 1; ctx.state((columns, comp, remote))
        try:
            d = opened(path, remote, ctx)
            got = [d[i] for i in range(3)]
        except Exception as e:
            ctx.outcome(type(e).__name__); continue
        for v in range(3): check(got[v], columns, v, f"MDS dataset with columns {dict(columns)}, compression {comp}")


def layouts(case, ctx):
    """Shard sizes, merged parts, workers, ranks, shuffling, subsets: every sample as often as it should be."""
    comp, limit, n, parts, remote = case
    columns = (("b", "int"), ("a", "bytes"))
    path = ctx.scratch("d")
    vec = write(path, columns, range(n), comp, limit, parts)
    what = f"MDS dataset with shards of {vec} samples ({parts} merged parts), compression {comp}, {'cached' if remote else 'in place'}"
    ctx.outcome((tuple(vec), parts))
    def values(d, w):
        out, it = [], iter(d)
        while True:
            try: x = next(it)
            except StopIteration: return out
            v = int(x["b"]) * 1
            k = next((i for i in range(n) if sample(columns, i)["b"] == v), None)
            if k is None: raise mc.Violation(f"{what}, {w}: a sample reads {x}")
            check(x, columns, k, f"{what}, {w}"); out.append(k)
    for shuffle in (False, True):
        d = opened(path, remote, ctx, shuffle=shuffle, seed=3)
        for e in range(2):
            got = values(d, f"shuffle={shuffle} epoch {e}")
            ctx.execs += 1; ctx.step(n); ctx.state((case, shuffle, e))
            if sorted(got) != list(range(n)) or not shuffle and got != list(range(n)): raise mc.Violation(f"{what}, shuffle={shuffle}: epoch {e} has samples {got}")
        for world in (1, 2):
            for workers in (1, 2):
                seen = []
                for r in range(world):
                    for w in range(workers):
                        with ds.dist(world, r), ds.worker(workers, w):
                            d = opened(path, remote, ctx, shuffle=shuffle, seed=3, drop_last=False)
                            if n // world < workers: continue
                            seen += values(d, f"rank {r} of {world}, worker {w} of {workers}")
                        ctx.execs += 1
                if seen and sorted(seen) != list(range(n)): raise mc.Violation(f"{what}, shuffle={shuffle}: {world} ranks with {workers} workers read samples {sorted(seen)}")
    for frac in (0.4, 0.5, 1.5, 2.0):
        d = opened(path, remote, ctx, subsample=frac)
        want = int(n * frac)
        if not want: continue
        got = values(d, f"subsample {frac}")
        ctx.execs += 1
        if len(d) != len(got) or len(got) != want or got != [k % n for k in range(want)]: raise mc.Violation(f"{what}: subsample {frac} reads samples {got}, len() is {len(d)}")
    d = opened(path, remote, ctx)
    a, b = (values(x, "split") for x in train_test_split(d, splits=[0.5, 0.5]))
    if len(set(a + b)) != len(a + b) or len(a) != n // 2 or len(b) != n // 2: raise mc.Violation(f"{what}: split in halves into {a} and {b}")
    sl = [int(x["b"]) for x in d[1:n:2]]
    if sl != [sample(columns, k)["b"] for k in range(1, n, 2)]: raise mc.Violation(f"{what}: [1:{n}:2] reads {sl}")
    # a stop in the middle, its checkpoint, and the rest
    for stop in range(1, n):
        cache = ctx.scratch("c")
        d = opened(path, remote, ctx, cache)
        it = iter(d)
        for _ in range(stop): next(it)
        st = json.loads(json.dumps(d.state_dict(stop, 0, 1)))
        e = opened(path, remote, ctx, cache)
        e.load_state_dict(st)
        got = values(e, f"resumed after {stop}")
        ctx.execs += 1
        if got != list(range(stop, n)): raise mc.Violation(f"{what}: resumed after {stop} samples, it reads {got}")
    shutil.rmtree(path, ignore_errors=True)


def big(case, ctx):
    """Shards of data that compression makes larger."""
    comp, mb = case
    path = ctx.scratch("d")
    r = np.random.RandomState(5)
    data = [r.bytes(1 << 20) for _ in range(mb)]
    with MDSWriter(out=path, columns={"x": "bytes"}, compression=comp, size_limit=None) as w:
        for x in data: w.write({"x": x})
    for remote in (False, True):
        d = opened(path, remote, ctx)
        ctx.execs += 1; ctx.state((comp, mb, remote))
        for i in (0, mb - 1, 1):
            ctx.step()
            try: x = d[i]["x"]
            except FileNotFoundError as e: raise mc.Violation(f"MDS dataset of {mb} incompressible samples of 1 MB, compression {comp}, {'cached' if remote else 'in place'}: sample {i}: {e}")
            if x != data[i]: raise mc.Violation(f"MDS dataset of {mb} incompressible samples of 1 MB, compression {comp}: sample {i} reads other bytes")
    shutil.rmtree(path, ignore_errors=True)


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C29", rule="every set of up to three columns x compression x shard size x number of samples, written by the MosaicML library and read by index in every order and by iteration; every layout of shards x merged parts x ranks x workers x shuffling, subsets, slices and resumed epochs",
                 bounds=f"{len(KINDS)} native and {len(EXTRA)} plugged-in encodings, {'1 to 4' if quick else '1 to 6'} samples per dataset (12 in layouts), shards of 1 sample to all, 1 to 3 merged parts, zstd at several levels",
                 assumptions=["the installed MosaicML writer defines the format"])
    names = {"a": 0, "b": 1, "Z": 2}
    cols = [(("x", e),) for e in MAKE if ":" not in e]
    for k in (2,) if quick else (2, 3):
        for es in itertools.product(list(KINDS) if k == 3 else [*KINDS, "float64", "json"], repeat=k):
            cols.append(tuple(zip(("b", "a", "Z")[:k], es)))
    if quick: cols += [(("b", "int"), ("a", "jpeg"), ("Z", "str")), (("b", "str"), ("a", "int"), ("Z", "bytes")), (("b", "uint8"), ("a", "str"), ("Z", "int16"))]
    comps = (None, "zstd", "zstd:7") if quick else (None, "zstd", "zstd:1", "zstd:7", "zstd:19")
    cases = [(cs, comps if len(cs) == 1 or not quick else (comps[sum(map(ord, repr(cs))) % 3],), (1, 500, None) if len(cs) == 1 or not quick else (600,), ((1, 3) if len(cs) == 1 else (3,)) if quick else (1, 3, 6)) for cs in cols]
    c.phase("contents", cases, contents)
    c.phase("refused", [((("x", e),), None) for e in EXTRA] + [((("x", e), ("y", "int")), "zstd") for e in EXTRA] + [((("x", "int"),), z) for z in ("gz", "gz:3", "bz2", "br", "snappy")], refused)
    lay = []
    for comp in (None, "zstd", "zstd:3"):
        for limit in (1, 300, 400, None):
            for n, parts in ((2, 1), (5, 1), (5, 2), (9, 3)) if quick else ((2, 1), (3, 1), (5, 1), (7, 1), (12, 1), (4, 2), (5, 2), (12, 2), (9, 3), (12, 3)):
                for remote in (False, True):
                    if quick and (len(str(comp)) + (limit or 7) + n + remote) % 3: continue
                    lay.append((comp, limit, n, parts, remote))
    c.phase("layouts", lay, layouts)
    c.phase("incompressible", [("zstd", 8)] if quick else [("zstd", 8), ("zstd:1", 16), ("zstd:19", 8), (None, 8)], big)
    return c
