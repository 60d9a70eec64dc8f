from lib import mc, ds, envsetup, objstore, opt, sched
import itertools, json, os, random
from collections import Counter
import numpy as np
import litdata
from litdata import optimize
from litdata.processing import data_processor as dp, functions as fn
from litdata.processing.readers import BaseReader
from litdata.streaming.resolver import Dir


# ---- shares -----------------------------------------------------------------------------------------------------------
class Item:
    """An input without any special behaviour; identity tells whether it was replaced."""
    def __init__(self, n): self.n = n
    def __repr__(self): return f"Item({self.n})"


def shares(case, ctx):
    n, workers, nodes, weights = case
    items = [Item(i) for i in range(n)]
    got = []
    for node in range(nodes):
        os.environ["DATA_OPTIMIZER_NUM_NODES"], os.environ["DATA_OPTIMIZER_NODE_RANK"] = str(nodes), str(node)
        random.seed(42); np.random.seed(42)
        if weights is None: r = dp._map_items_to_workers_sequentially(workers, list(items))
        else: r = dp._map_items_to_workers_weighted(workers, list(items), weights=list(weights), file_size=False)
        if len(r) != workers: raise mc.Violation(f"{len(r)} shares for {workers} workers: {case}")
        got += [list(x) for x in r]
    flat = [i for s in got for i in s]
    if sorted(map(id, flat)) != sorted(map(id, items)): raise mc.Violation(f"{n} items, {workers} workers, {nodes} nodes, weights {weights}: shares {got}")
    if weights is None and flat != items: raise mc.Violation(f"{n} items, {workers} workers, {nodes} nodes: order {got}")
    ctx.step(nodes); ctx.execs += 1; ctx.state(case); ctx.outcome(tuple(len(s) for s in got))


# ---- whole runs -------------------------------------------------------------------------------------------------------
def outs(kind, x):
    """How many outputs input number x has."""
    return {"one": 1, "someNone": x % 2, "headNone": 0 if x < 2 else 1, "none": 0, "gen": (0, 1, 3)[x % 3], "gen2": 2, "gen0": 0}[kind]


class Fn:
    """Top-level callables for every kind (picklable)."""
    def __init__(self, kind): self.kind = kind
    def __call__(self, x): return f"{x}.0" + "y" * (x % 3) if outs(self.kind, x) else None

class Gen:
    def __init__(self, kind): self.kind = kind
    def __call__(self, x):
        for j in range(outs(self.kind, x)): yield f"{x}.{j}" + "y" * (x % 3)


def expected(kind, xs): return [f"{x}.{j}" + "y" * (x % 3) for x in xs for j in range(outs(kind, x))]


def nodes_run(ctx, nodes, main, what, order=None):
    """Run the nodes one after the other (the last one merges)."""
    for node in order or range(nodes):
        r = opt.run(ctx.scratch("home"), main, nodes=(nodes, node) if nodes > 1 else None)
        ctx.step(r["steps"])
        if not opt.ok(r): raise mc.Violation(f"{what}, node {node}: {opt.short(r)}\n{r['tb'][-2500:]}")


def check_files(what, out, nodes):
    """Everything listed is there, nothing of the samples is anywhere else."""
    ix = json.load(open(os.path.join(out, "index.json")))
    listed = [c["filename"] for c in ix["chunks"]]
    have = sorted(f for f in os.listdir(out) if f.endswith(".bin"))
    if sorted(listed) != have: raise mc.Violation(f"{what}: index lists {listed}, the folder holds {have}")


def run(case, ctx):
    n, workers, nodes, kind, limits, extra = case
    out = os.path.join(ctx.scratch("out"), "o")
    f = (Gen if kind.startswith("gen") else Fn)(kind)
    xs = list(range(n))
    kw = dict(limits); kw.update(extra)
    what = f"optimize of {n} inputs ({kind}) with {workers} workers x {nodes} nodes, {kw}"
    nodes_run(ctx, nodes, lambda: optimize(f, xs, out, num_workers=workers, **kw), what)
    want = expected(kind, xs)
    check_files(what, out, nodes)
    try: got = opt.read(out) if want else [c for c in json.load(open(os.path.join(out, "index.json")))["chunks"]]  # a dataset without samples is refused by readers
    except Exception as e: raise mc.Violation(f"{what}: reading raises {e!r}, expected {want}")
    if got != want: raise mc.Violation(f"{what}: reads {got}, expected {want}")
    ctx.execs += 1; ctx.state(case); ctx.outcome((len(got), workers * nodes))
    ctx.sample(what)


# ---- what the function receives ---------------------------------------------------------------------------------------
def show(x):
    """A full description of an input: types and values."""
    if isinstance(x, dict): return {"d": [[show(k), show(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)): return {type(x).__name__: [show(v) for v in x]}
    if isinstance(x, np.ndarray): return ["nd", str(x.dtype), list(x.shape), x.tobytes().hex()]
    return [type(x).__name__, repr(x)]


def tell(x): return json.dumps(show(x))

LONG = "s" * 70
INPUTS = {
 "int": [3, 1, 2, 5, 4], "str": ["b", "a", LONG, "", "é"], "mixed": [1, "1", None, 2.5, b"x"], "tuple": [(1, "a"), (2, "b"), (3, LONG), (4, ""), (5, "e")],
 "list": [[1], [2, 3], [], [4], [5]], "dict": [{"a": 1, "b": "x"}, {"b": "y", "a": 2}, {"a": 3, "b": LONG}, {"a": 4, "b": ""}, {}],
 "nested": [(1, {"k": [2, (3,)]}), (4, {"k": [5, (6,)]}), (7, {"k": []}), (8, {}), ()], "none": [None, None, 0, None, 1], "float": [0.1, float("inf"), 1e300, -0.0, 5.0],
 "array": [np.arange(3), np.arange(4).reshape(2, 2).T, np.float32(1.5), np.zeros((0, 2)), np.array(["x", "yy"])], "bigint": [2 ** 70, -2 ** 63, 2 ** 63, 1, 0], "bool": [True, False, 1, 0, True],
 "dup": ["x", "x", "x", "y", "x"], "pathlike": ["/no/such/file.txt", "/no/such/other", "rel/x.bin", "s.jpg", "t.png"],
}


def inputs(case, ctx):
    kind, n, workers, nodes, batch, extra = case
    xs = INPUTS[kind][:n]
    out = os.path.join(ctx.scratch("out"), "o")
    what = f"optimize of {xs} with {workers} workers x {nodes} nodes, batch_size={batch} {extra}"
    nodes_run(ctx, nodes, lambda: optimize(tell, list(xs), out, num_workers=workers, chunk_size=2, batch_size=batch, **extra), what)
    groups = xs if not batch or batch == 1 else [xs[i:i + batch] for i in range(0, len(xs), batch)]
    want = [tell(g) for g in groups]
    got = opt.read(out)
    if got != want: raise mc.Violation(f"{what}: the function received {got}, given {want}")
    ctx.execs += 1; ctx.state(case); ctx.outcome((kind, len(got)))


# ---- inputs that are files --------------------------------------------------------------------------------------------
def readall(item):
    """The contents of the files of one input (a path, or a tuple / dictionary with paths)."""
    if isinstance(item, str):
        with open(item) as f: return f.read()
    if isinstance(item, dict): return "|".join(f"{k}={readall(v) if isinstance(v, str) else v}" for k, v in item.items())
    return "|".join(readall(v) if isinstance(v, str) else str(v) for v in item)


def shape(kind, paths, i, extra):
    return {"plain": lambda: paths[i], "tuple": lambda: (i, paths[i]), "dict": lambda: {"p": paths[i], "n": i}, "two": lambda: (paths[i], paths[(i + 1) % len(paths)]),
            "same": lambda: (i, paths[0]), "outside": lambda: (paths[i], extra[i]), "sibling": lambda: (paths[i], extra[i]), "only": lambda: extra[i], "linked": lambda: (i, paths[i])}[kind]()


def paths(case, ctx):
    kind, sizes, workers, nodes, downloaders, reorder, src = case
    root = os.path.realpath(ctx.scratch("in"))
    ind = os.path.join(root, "imgs")
    side = os.path.join(root, "imgs2" if kind == "sibling" else "labels")
    again = "sub" + ind  # the path of the input folder occurs once more below it
    os.makedirs(os.path.join(ind, again)); os.makedirs(side)
    st = None
    if src == "s3":
        st = objstore.Store(ctx.scratch("store")); objstore.install(st)
    files, extra = [], []
    for i, s in enumerate(sizes):
        p = os.path.join(ind, again if i % 2 else "", f"f{i}.txt")
        text = f"<{i}>" + "z" * s
        if st:
            st.put("s3://bucket/some/imgs/" + os.path.relpath(p, ind), text.encode())
            text = "local stand-in of " + str(i) + "q" * s
        e = os.path.join(side, f"l{i}.txt"); open(e, "w").write(f"label{i}"); extra.append(e)
        if kind == "linked": os.symlink(e, p)
        else: open(p, "w").write(text)
        files.append(p)
    before = {p: open(p).read() for p in files + extra}
    items = [shape(kind, files, i, extra) for i in range(len(files))]
    input_dir = Dir(path=ind, url="s3://bucket/some/imgs") if st else ind
    out = os.path.join(ctx.scratch("out"), "o")
    what = f"optimize of file inputs ({kind}, sizes {sizes}, {src}) with {workers} workers x {nodes} nodes, {downloaders} downloaders, reorder_files={reorder}"
    truth = {p: before[p] if kind == "linked" else f"<{i}>" + "z" * sizes[i] for i, p in enumerate(files)}; truth.update({p: before[p] for p in extra})
    want = []
    for it in items:
        if isinstance(it, str): want.append(truth[it])
        elif isinstance(it, dict): want.append("|".join(f"{k}={truth[v] if isinstance(v, str) else v}" for k, v in it.items()))
        else: want.append("|".join(truth[v] if isinstance(v, str) else str(v) for v in it))
    nodes_run(ctx, nodes, lambda: optimize(readall, list(items), out, input_dir=input_dir, num_workers=workers, chunk_size=2, num_downloaders=downloaders, reorder_files=reorder), what)
    got = opt.read(out)
    if sorted(got) != sorted(want): raise mc.Violation(f"{what}: reads {got}, expected {want}")
    if not reorder and downloaders == 1 and got != want: raise mc.Violation(f"{what}: order {got}, expected {want}")
    now = {p: open(p).read() if os.path.exists(p) else None for p in before}
    if now != before: raise mc.Violation(f"{what}: input files changed or removed: {[p for p in now if now[p] != before[p]]}")
    ctx.execs += 1; ctx.state(case); ctx.outcome(len(got))


# ---- readers ----------------------------------------------------------------------------------------------------------
class Split(BaseReader):
    """Splits every input into several items."""
    def remap_items(self, items, num_workers): return [(i, k) for i in items for k in range(i)]
    def read(self, item): return ("read",) + tuple(item)


def batch(x): return json.dumps([ds.dec(v) for v in x])


def even(xs, k):
    """The split into k shares that differ by at most one, the larger ones last."""
    n = len(xs); out, at = [], 0
    for i in range(k):
        m = n // k + (i >= k - n % k)
        out.append(list(xs[at:at + m])); at += m
    return out


def rank_batches(src, vec, bs, total, nodes):
    """The batches the loader of each rank delivers."""
    out = []
    for r in range(total):
        os.environ.update(DATA_OPTIMIZER_GLOBAL_RANK=str(r), DATA_OPTIMIZER_NUM_WORKERS=str(total // nodes), DATA_OPTIMIZER_NUM_NODES=str(nodes))
        try:
            d = litdata.StreamingDataset(src, drop_last=False)
            got = [[ds.dec(v) for v in b] for b in litdata.StreamingDataLoader(d, batch_size=bs, num_workers=0, collate_fn=list)]
        finally:
            for k in ("RANK", "GLOBAL_RANK", "NUM_WORKERS", "NUM_NODES"): os.environ.pop("DATA_OPTIMIZER_" + k, None)
        out.append(got)
    return out


def loader(case, ctx):
    if case[0] == "reader":
        _, xs, workers, nodes = case
        out = os.path.join(ctx.scratch("out"), "o")
        what = f"optimize of {xs} with a splitting reader, {workers} workers x {nodes} nodes"
        nodes_run(ctx, nodes, lambda: optimize(tell, list(xs), out, num_workers=workers, chunk_size=2, reader=Split()), what)
        want = [tell(("read", i, k)) for i in xs for k in range(i)]
        got = opt.read(out)
        if got != want: raise mc.Violation(f"{what}: function received {got}, expected {want}")
    else:
        _, vec, bs, inner, workers, nodes = case
        src = ctx.scratch("src")
        ds.write_layout(src, vec)
        out = os.path.join(ctx.scratch("out"), "o")
        what = f"optimize of a StreamingDataLoader (chunks {vec}, batch_size={bs}, num_workers={inner}) with {workers} workers x {nodes} nodes"
        def main():
            l = litdata.StreamingDataLoader(litdata.StreamingDataset(src), batch_size=bs, num_workers=inner, collate_fn=list)
            return optimize(batch, l, out, num_workers=workers, chunk_size=2)
        total = workers * nodes
        shares = rank_batches(src, vec, bs, total, nodes)
        slots = [len(x) for x in even(range(-(-sum(vec) // bs)), total)]
        if [len(x) for x in shares] == slots:
            nodes_run(ctx, nodes, main, what)
            got = [v for b in opt.read(out) for v in json.loads(b)]
            if got != list(range(sum(vec))): raise mc.Violation(f"{what}: holds {got}")
        else:
            # listed finding: the batches are counted for one worker and split evenly; what then happens is fully determined
            try: nodes_run(ctx, nodes, main, what)
            except mc.Violation as e:
                if not (any(len(a) < b for a, b in zip(shares, slots)) and "StopIteration" in str(e)): raise
                ctx.known_or_raise(str(e), "loader-shares"); got = ()
            else:
                got = [json.loads(b) for b in opt.read(out)]
                if [v for b in got for v in b] != list(range(sum(vec))):
                    lost = [b for x, n in zip(shares, slots) for b in x[:n]]
                    if got == lost: ctx.known_or_raise(f"{what}: holds {got}", "loader-shares")
                    raise mc.Violation(f"{what}: holds {got}")
    ctx.execs += 1; ctx.state(case); ctx.outcome(len(got))


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C11", rule="every (inputs, workers, nodes, outputs per input, limits) combination within the bounds, run through the real pipeline under a deterministic scheduler and read back",
                 bounds=f"0-{7 if quick else 9} inputs, 1-4 workers, 1-3 nodes, {len(INPUTS)} kinds of inputs, chunk limits 1-3 samples or bytes",
                 assumptions=["one schedule per case here (C12 explores the schedules)", "nodes run one after the other, the merging one last"])
    cases = [(n, w, k, None) for n in range(0, 13 if quick else 20) for w in range(1, 6) for k in (1, 2, 3)]
    for n in range(1, 5 if quick else 7):
        for ws in itertools.product((1, 2, 5), repeat=n):
            cases += [(n, w, k, ws) for w in (1, 2, 3) for k in (1, 2)]
    c.phase("shares", cases, shares)
    limits = [(("chunk_size", 1),), (("chunk_size", 2),), (("chunk_size", 100),), (("chunk_bytes", 24),)]
    cases = [(n, w, k, kind, l, ()) for n in range(1, 6 if quick else 9) for w in (1, 2, 3) for k in (1, 2, 3) for kind in ("one", "someNone", "headNone", "none", "gen", "gen2", "gen0") for l in limits
             if not quick or ((w + n + len(kind)) % 2 == 0 or k == 1) and (k < 3 or l == limits[1])]
    cases += [(n, w, k, kind, limits[1], tuple(sorted(e.items()))) for n in (1, 4, 7) for w in (1, 2, 4) for k in (1, 2) for kind in ("one", "gen") for e in
              ({"num_uploaders": 2}, {"num_uploaders": 3}, {"compression": "zstd"}, {"reorder_files": False}, {"weights": [1] * n}, {"mode": "overwrite"}, {"mode": "append"}, {"num_workers": 0} if False else {"num_downloaders": 3})]
    cases += [(n, w, k, kind, l, (("use_checkpoint", True),)) for n in (1, 2, 4, 5) for w in (1, 2, 3) for k in (1,) for kind in ("one", "someNone", "headNone") for l in limits]
    c.phase("run", cases, run)
    cases = [(k, n, w, nd, b, e) for k in INPUTS for n in (1, 4, 5) for w in (1, 2, 3) for nd in (1, 2) for b in (None, 1, 2, 3) for e in ({},)
             if not quick or (b in (None, 2) or w == 2) and (nd == 1 or n == 5)]
    c.phase("inputs", cases, inputs)
    sz = [(1,), (5, 1, 3), (2, 2, 2, 2), (1, 9, 4, 2, 7)]
    cases = [(k, s, w, nd, d, r, src) for k in ("plain", "tuple", "dict", "two", "same", "outside", "sibling", "only", "linked") for s in sz for w in (1, 2, 3) for nd in (1, 2) for d in (1, 2, 3) for r in (True, False) for src in ("local", "s3")
             if not quick or ((d == 1 or w == 2) and (nd == 1 or d == 1))]
    c.phase("paths", cases, paths)
    cases = [("reader", xs, w, nd) for xs in ((1,), (2, 0, 3), (3, 1), (0, 1, 0)) for w in (1, 2, 3) for nd in (1, 2)]
    cases += [("loader", v, b, inner, w, nd) for v in ((1,), (2, 2), (3, 2), (2, 3, 2), (4, 4, 4)) for b in (1, 2, 3) for inner in (0,) for w in (1, 2, 3) for nd in (1, 2)
              ]
    c.phase("loader", cases, loader)
    return c
