from lib import mc, ds, envsetup
import os, itertools, shutil, gc
import numpy as np, torch
from litdata.streaming.cache import Cache
from litdata.streaming.resolver import Dir
from litdata.streaming.item_loader import TokensLoader
import litdata.streaming.item_loader as _il

if hasattr(_il, "_FORCE_DOWNLOAD_TIME"): _il._FORCE_DOWNLOAD_TIME = 0.06
if hasattr(_il, "_MAX_WAIT_TIME"): _il._MAX_WAIT_TIME = 20

TDT = {"u8": torch.uint8, "i8": torch.int8, "i16": torch.int16, "i32": torch.int32, "i64": torch.int64, "f16": torch.float16, "f32": torch.float32, "f64": torch.float64,
       "nu8": np.uint8, "nu16": np.uint16, "nu32": np.uint32, "ni16": np.int16, "ni32": np.int32, "ni64": np.int64, "nf32": np.float32, "nf64": np.float64}


def doc(dt, start, n):
    v = [(start + j) % 120 + 1 for j in range(n)]
    return np.array(v, dtype=TDT[dt]) if dt[0] == "n" else torch.tensor(v, dtype=TDT[dt])


def same(a, b):
    if type(a) is not type(b) or a.dtype != b.dtype or tuple(a.shape) != tuple(b.shape):
        return False
    return bool((a == b).all())


def chunk_blocks(path, docs, block, dt):
    """The blocks a reader must deliver: documents are laid out chunk by chunk as the index says (checked in C02)."""
    idx = ds.read_index(path)
    out, k = [], 0
    for ch in idx["chunks"]:
        toks = []
        for _ in range(ch["chunk_size"]):
            toks += list(docs[k]); k += 1
        if ch["dim"] != len(toks):
            raise mc.Violation(f"the index says chunk {ch['filename']} holds {ch['dim']} tokens, it holds {len(toks)}")
        for b in range(len(toks) // block):
            seg = toks[b * block:(b + 1) * block]
            out.append(np.array([int(x) for x in seg], dtype=TDT[dt]) if dt[0] == "n" else torch.tensor([int(x) for x in seg], dtype=TDT[dt]))
    if k != len(docs):
        raise mc.Violation(f"the index covers {k} of {len(docs)} documents")
    return out, [c["dim"] for c in idx["chunks"]]


def write(path, docs, limit, wblock):
    c = Cache(path, chunk_size=limit, item_loader=TokensLoader(block_size=wblock))
    for i, d in enumerate(docs):
        c[i] = d
    c.done(); c.merge()


def lengths(case, ctx):
    """Every list of document lengths: blocks by iteration and by index."""
    dt, limit, blocks, lens = case
    for ls in lens:
        docs, s = [], 0
        for n in ls:
            docs.append(doc(dt, s, n)); s += n
        path = ctx.scratch()
        write(path, docs, limit, blocks[0])
        for block in blocks:
            exp, dims = chunk_blocks(path, docs, block, dt)
            ctx.execs += 1; ctx.state((dt, limit, block, ls)); ctx.outcome((tuple(dims), block))
            d = ds.StreamingDataset(path, item_loader=TokensLoader(block_size=block))
            if len(d) != len(exp):
                raise mc.Violation(f"documents {ls}, chunks of {dims} tokens, block {block}: len() is {len(d)}, there are {len(exp)} whole blocks")
            got = list(d)
            ctx.step(len(exp))
            if len(got) != len(exp) or not all(map(same, got, exp)):
                raise mc.Violation(f"documents {ls} ({dt}), chunks of {dims} tokens, block {block}: iteration returned {[g.tolist() for g in got]}, expected {[e.tolist() for e in exp]}")
            for i in range(len(exp)):
                if not same(d[i], exp[i]):
                    raise mc.Violation(f"documents {ls} ({dt}), chunks of {dims} tokens, block {block}: block {i} is {d[i].tolist()}, expected {exp[i].tolist()}")
            del d, got
        shutil.rmtree(path, ignore_errors=True)
    ctx.sample(dict(dtype=dt, limit=limit, blocks=blocks, documents=lens[0]))


def keep(case, ctx):
    """Every access history: all blocks returned so far are kept and must stay unchanged."""
    dt, nchunks, per, mode, bound, alpha, seqs = case
    block = 2
    path = os.path.join(DATA, f"{dt}-{nchunks}-{per}")
    n = nchunks * per
    docs = [doc(dt, i * block, block) for i in range(n)]
    for seq in seqs:
        root = ctx.scratch()
        kw = dict(item_loader=TokensLoader(block_size=block))
        if bound: kw["max_cache_size"] = bound
        if mode == "remote":
            cache = os.path.join(root, "c"); os.makedirs(cache)
            d = ds.StreamingDataset(Dir(path=cache, url="local:" + path), **kw)
        elif mode == "zstd":
            cache = os.path.join(root, "c"); os.makedirs(cache)
            d = ds.StreamingDataset(Dir(path=cache, url="local:" + path + "-z"), **kw)
        else:
            d = ds.StreamingDataset(path, **kw)
        kept, hist, it = [], [], None
        for op in seq:
            hist.append(op)
            try:
                if op == "iter":
                    it = None
                    new = list(enumerate(d))
                elif op == "next":
                    if it is None: it = enumerate(d)
                    try: new = [next(it)]
                    except StopIteration: it, new = None, []
                elif op == "drop":
                    kept.clear(); gc.collect(); new = []
                else:
                    new = [(op, d[op])]
            except Exception as e:
                raise mc.Violation(f"{mode}, {nchunks} chunks of {per} blocks, history {hist}: {type(e).__name__}: {e}")
            kept += new
            ctx.step(); ctx.state((case[:5], tuple(hist)))
            for i, v in kept:
                if i >= n or not same(v, docs[i]):
                    raise mc.Violation(f"{mode}, {nchunks} chunks of {per} blocks, history {hist}: block {i} is now {v.tolist()}, expected {docs[i].tolist() if i < n else None}")
        # blocks also outlive the dataset
        it = None
        del d
        gc.collect()
        for i, v in kept:
            if not same(v, docs[i]):
                raise mc.Violation(f"{mode}, history {hist}: block {i} changed after the dataset was released")
        ctx.execs += 1; ctx.heartbeat()
        shutil.rmtree(root, ignore_errors=True)
    ctx.outcome((case[:5]))
    ctx.sample(dict(case=case[:5], history=seqs[0]))


def changed(case, ctx):
    """A user may change a block that was returned (or is refused to): nothing stored, cached or read later changes."""
    dt, nchunks, per, mode, order = case
    block = 2
    src = os.path.join(DATA, f"{dt}-{nchunks}-{per}") + ("-z" if mode == "zstd" else "")
    n = nchunks * per
    docs = [doc(dt, i * block, block) for i in range(n)]
    root = ctx.scratch()
    shutil.copytree(src, os.path.join(root, "src"))
    src = os.path.join(root, "src")
    os.makedirs(os.path.join(root, "c"))
    def open_(): return ds.StreamingDataset(src if mode == "local" else Dir(path=os.path.join(root, "c"), url="local:" + src), item_loader=TokensLoader(block_size=block))
    def bytes_(): return {f: open(os.path.join(src, f), "rb").read() for f in sorted(os.listdir(src))}
    before = bytes_()
    d = open_()
    for k, (how, i) in enumerate(order):
        what = f"{mode}, {dt}, {nchunks} chunks of {per} blocks, {order[:k + 1]}"
        if how == "iter":
            vals = list(d)
            if not all(map(same, vals, docs)) or len(vals) != n: raise mc.Violation(f"{what}: iteration returned {[v.tolist() for v in vals]}")
            v = vals[i]
            del vals
        else:
            v = d[i]
            if not same(v, docs[i]): raise mc.Violation(f"{what}: block {i} is {v.tolist()}, expected {docs[i].tolist()}")
        try: v[...] = 7; ok = True
        except (ValueError, RuntimeError): ok = False
        ctx.outcome((mode, ok)); ctx.step()
        if bytes_() != before: raise mc.Violation(f"{what}: the returned block was changed, and with it the chunk file")
        for e in (d, open_()):
            got = [e[j] for j in range(n)]
            if not all(map(same, got, docs)): raise mc.Violation(f"{what}: the returned block was changed, then reading gives {[g.tolist() for g in got]}")
    ctx.state(case); ctx.execs += 1
    del d
    shutil.rmtree(root, ignore_errors=True)


def build(tier, seed):
    global DATA
    quick = tier == "quick"
    DATA = os.path.join(envsetup.ROOT, "data")
    c = mc.Check("C24", rule="every list of document lengths x chunk limit x block size; every history of {block access, step, full iteration, drop of references} with all returned blocks kept alive and re-read after each step; every way to get a block, which is then written to",
                 bounds="documents of 1..4 tokens (plus 0), up to %d documents; chunk limit 3,4,6,9 tokens; blocks 1..4; 16 dtypes; histories of depth 3-4 on 2-3 chunks, local / remote / compressed / bounded cache" % (4 if quick else 6))
    cases = []
    def seqs(alpha, n):
        return [s for k in range(1, n + 1) for s in itertools.product(alpha, repeat=k)]
    for limit in (4, 6):
        all_ = [s for s in seqs((1, 2, 3, 4), 4 if quick else 6) if sum(s) >= 1]
        for i in range(0, len(all_), 30):
            cases.append(("i64", limit, (1, 2, 3), all_[i:i + 30]))
    zl = [s for s in seqs((0, 1, 3), 4 if quick else 5) if sum(s) > 0]
    for i in range(0, len(zl), 30):
        cases.append(("i32", 3, (2, 4), zl[i:i + 30]))
    few = [(1,), (5,), (3, 3), (2, 4, 1), (4, 4, 4), (1, 1, 1, 1, 1, 1, 1)]
    for dt in TDT:
        cases.append((dt, 5, (1, 3), few))
    c.phase("lengths", cases, lengths, timeout=120)
    kc = []
    for dt, nch, per, mode, bound, depth in [("i64", 3, 1, "local", None, 4), ("nu16", 2, 2, "local", None, 4), ("i64", 3, 1, "remote", 1, 3), ("i64", 2, 2, "remote", 1, 3), ("i64", 3, 1, "remote", None, 3), ("i64", 3, 1, "zstd", 1, 2)]:
        depth += 0 if quick else 1
        path = os.path.join(DATA, f"{dt}-{nch}-{per}")
        for suf, kw in (("", {}), ("-z", dict(compression="zstd"))):
            if os.path.exists(path + suf): continue
            os.makedirs(path + suf)
            cc = Cache(path + suf, chunk_size=per * 2, item_loader=TokensLoader(block_size=2), **kw)
            for i in range(nch * per): cc[i] = doc(dt, i * 2, 2)
            cc.done(); cc.merge()
        alpha = list(range(nch * per)) + ["iter", "next", "drop"]
        ss = list(itertools.product(alpha, repeat=depth))
        k = 25 if mode != "local" else 100
        for i in range(0, len(ss), k):
            kc.append((dt, nch, per, mode, bound, None, ss[i:i + k]))
    c.phase("kept blocks", kc, keep, timeout=120)
    # writing to tensors over read-only memory ends the process (torch cannot mark them), so only arrays are written to
    acts = [(h, i) for h in ("item", "iter") for i in (range(4) if not quick else (0, 3))]
    c.phase("changed blocks", [("nu16", 2, 2, m, o) for m in ("local", "remote", "zstd") for k in (1, 2) for o in itertools.product(acts, repeat=k)], changed, timeout=120)
    return c
