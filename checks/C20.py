from lib import mc, ds, envsetup
import os, itertools, shutil
import numpy as np, torch
import litdata
from litdata.streaming.cache import Cache
from litdata.streaming.resolver import Dir
from litdata.streaming.item_loader import TokensLoader
from litdata.utilities.encryption import FernetEncryption
import litdata.streaming.item_loader as _il

# waiting times are shortened; what is waited for is unchanged
if hasattr(_il, "_FORCE_DOWNLOAD_TIME"): _il._FORCE_DOWNLOAD_TIME = 0.06
if hasattr(_il, "_MAX_WAIT_TIME"): _il._MAX_WAIT_TIME = 20
ENC = {}
BLOCK = 3


def src(kind, layout):
    return os.path.join(DATA, kind + "_" + "-".join(map(str, layout)))


def value(kind, i):
    if kind == "tok":
        return torch.arange(i * BLOCK, i * BLOCK + BLOCK)
    return ds.enc(i)


def make_src(kind, layout):
    path = src(kind, layout)
    os.makedirs(path)
    kw = {}
    if kind == "zstd": kw["compression"] = "zstd"
    if kind in ("sample", "chunk"): kw["encryption"] = ENC[kind]
    k = 0
    if kind == "tok":
        from litdata.streaming.writer import BinaryWriter
        mx = max(layout)
        # one document per block; equal chunks are forced by the block budget, the layout is what results
        c = Cache(path, chunk_size=layout[0] * BLOCK, item_loader=TokensLoader(block_size=BLOCK))
        for _ in range(sum(layout)):
            c[k] = torch.arange(k * BLOCK, k * BLOCK + BLOCK); k += 1
        c.done(); c.merge()
        return
    from math import lcm
    if kind == "plain":
        ds.write_layout(path, layout)
        return
    c = Cache(path, chunk_size=layout[0], **kw)
    for _ in range(sum(layout)):
        c[k] = ds.enc(k); k += 1
    c.done(); c.merge()


def dec(kind, v):
    if kind == "tok":
        if not isinstance(v, torch.Tensor) or v.shape != (BLOCK,) or v.tolist() != list(range(int(v[0]), int(v[0]) + BLOCK)):
            raise mc.Violation(f"not a block: {v!r}")
        q, r = divmod(int(v[0]), BLOCK)
        return q if r == 0 else -1
    return ds.dec(v)


def open_ds(kind, layout, mode, root, bound):
    path = src(kind, layout)
    kw = {}
    if kind in ENC: kw["encryption"] = ENC[kind]
    if kind == "tok": kw["item_loader"] = TokensLoader(block_size=BLOCK)
    if bound: kw["max_cache_size"] = bound
    if mode == "remote":
        cache = os.path.join(root, "cache"); os.makedirs(cache)
        return ds.StreamingDataset(Dir(path=cache, url="local:" + path), **kw)
    if mode == "inplace_copy":
        p = os.path.join(root, "copy"); shutil.copytree(path, p)
        return ds.StreamingDataset(p, **kw)
    return ds.StreamingDataset(path, **kw)


def apply(op, d, st, n, kind):
    k = op[0]
    if k == "get":
        v = dec(kind, d[op[1]])
        if v != op[1]:
            raise mc.Violation(f"ds[{op[1]}] is sample {v}")
    elif k == "bad":
        try:
            v = d[op[1]]
        except Exception:
            return
        want = op[1] + n
        if op[1] < 0 and 0 <= want < n and dec(kind, v) == want:
            return
        raise mc.Violation(f"ds[{op[1]}] of a dataset of {n} returned sample {dec(kind, v)}")
    elif k == "slice":
        s = slice(*op[1])
        want = list(range(n))[s]
        got = [dec(kind, v) for v in d[s]]
        if got != want:
            raise mc.Violation(f"ds[{op[1]}] returned samples {got}, expected {want}")
    elif k == "iter":
        st["it"] = None
        got = [dec(kind, v) for v in d]
        if got != list(range(n)):
            raise mc.Violation(f"iterating gave samples {got}")
    elif k == "next":
        if st.get("it") is None:
            st["it"], st["pos"] = iter(d), 0
        for _ in range(op[1]):
            try:
                v = dec(kind, next(st["it"]))
            except StopIteration:
                if st["pos"] != n:
                    raise mc.Violation(f"iteration ended after {st['pos']} of {n} samples")
                st["it"] = None
                return
            if v != st["pos"] or st["pos"] >= n:
                raise mc.Violation(f"the {st['pos']}-th sample of the iteration is sample {v}")
            st["pos"] += 1
    elif k == "restart":
        st["it"], st["pos"] = iter(d), 0
        apply(("next", 1), d, st, n, kind)
    elif k == "len":
        if len(d) != n:
            raise mc.Violation(f"len() is {len(d)}, {n} samples exist")


def one(case, ctx):
    kind, layout, mode, bound, seqs = case
    n = sum(layout)
    if kind == "tok": n = sum(layout)
    for seq in seqs:
        root = ctx.scratch()
        d = open_ds(kind, layout, mode, root, bound)
        st = {}
        hist = []
        try:
            for op in seq:
                hist.append(op)
                try:
                    apply(op, d, st, n, kind)
                except mc.Violation as v:
                    raise mc.Violation(f"{kind} chunks {layout} {mode}, history {hist}: {v.what}")
                except Exception as e:
                    raise mc.Violation(f"{kind} chunks {layout} {mode}, history {hist}: {type(e).__name__}: {e}")
                ctx.step()
                ctx.state((kind, layout, mode, bound, tuple(hist)))
        finally:
            st.clear()
            del d
        ctx.execs += 1
        ctx.heartbeat()
        ctx.outcome((kind, len(layout), seq))
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample(dict(kind=kind, layout=layout, mode=mode, history=seqs[0]))


def ops_for(n, slices=True):
    ops = [("get", i) for i in range(n)] + [("iter",), ("next", 1), ("next", n), ("restart",)]
    if slices:
        ops += [("slice", (None, None, -1)), ("slice", (1, None, 2)), ("slice", (-2, None, None))]
    return ops


def build(tier, seed):
    global DATA
    quick = tier == "quick"
    DATA = os.path.join(envsetup.ROOT, "data")
    for lv in ("sample", "chunk"):
        ENC[lv] = FernetEncryption(password="pw", level=lv)
    cases = []
    made = set()
    def need(kind, layout):
        if (kind, layout) not in made:
            made.add((kind, layout)); make_src(kind, layout)
    def add(kind, layout, mode, seqs, bound=None, split=40):
        need(kind, layout)
        seqs = list(seqs)
        for i in range(0, len(seqs), split):
            cases.append((kind, layout, mode, bound, seqs[i:i + split]))
    # 1. every index, every out-of-range index and every slice, on every layout, in one dataset object
    for layout in ds.vectors(5 if quick else 7):
        n = sum(layout)
        rng = list(range(-n - 1, n + 2)) + [None]
        allsl = [("slice", (a, b, s)) for a in rng for b in rng for s in (None, 1, 2, -1, -2)]
        seqs = [tuple([("len",)] + [("get", i) for i in range(n)] + [("bad", i) for i in list(range(n, n + 3)) + list(range(-n - 2, 0))] + [("iter",), ("len",)])]
        if False:
            allsl = allsl[seed % 3::3] if len(layout) not in (1, 2) else allsl
        seqs += [tuple(allsl[i:i + 120]) for i in range(0, len(allsl), 120)]
        add("plain", layout, "local", seqs)
        if n <= (3 if quick else 5):
            add("plain", layout, "remote", seqs[:1])
    # 2. every history of operations up to a depth
    for kind, layout, mode, bound, depth in [
        ("plain", (2, 1, 2), "local", None, 3), ("plain", (1, 1, 1, 1), "remote", None, 2), ("plain", (2, 1), "remote", None, 3), ("plain", (2, 2), "remote", 1, 3),
        ("zstd", (1, 1, 1), "remote", None, 3), ("zstd", (2, 2), "inplace_copy", None, 2), ("sample", (2, 2), "local", None, 3), ("chunk", (2, 2), "local", None, 3),
        ("chunk", (1, 1, 1), "remote", None, 2), ("tok", (1, 1, 1), "local", None, 4), ("tok", (2, 2), "local", None, 3), ("tok", (2, 2), "remote", None, 2), ("tok", (1, 1, 1), "remote", None, 2)]:
        if not quick:
            depth += 1 if kind != "plain" or mode != "local" else 2
        alpha = ops_for(sum(layout), slices=True)
        add(kind, layout, mode, itertools.product(alpha, repeat=depth), bound, split=(30 if mode == "remote" else 250))
    c = mc.Check("C20", rule="every history over the alphabet {item access at each index, slices, full iteration, one step, n steps, restart of an iteration} up to the depth; every index and slice on every layout",
                 bounds="chunk layouts of up to %d samples for indices/slices; histories of depth 2..4 (thorough: one deeper) on 2-4 chunks; local, remote (cached), compressed, encrypted, tokens" % (5 if quick else 7),
                 assumptions=["one reader thread pair per dataset under its natural schedule (schedules are enumerated in C08)"])
    c.phase("histories", cases, one, timeout=120)
    return c
