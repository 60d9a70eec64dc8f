from lib import mc, ds, envsetup, objstore, opt
import itertools, json, os, shutil
import numpy as np, torch
import litdata
import litdata.processing.functions as fns
from litdata import merge_datasets, optimize
from litdata.streaming.item_loader import TokensLoader
from litdata.utilities.encryption import FernetEncryption

KEYS = {}


def text(v):
    if isinstance(v, torch.Tensor): return f"t{v.dtype}{v.tolist()}"
    if isinstance(v, dict): return "{" + ",".join(f"{k}:{text(x)}" for k, x in sorted(v.items())) + "}"
    if isinstance(v, (list, tuple)): return type(v).__name__ + "[" + ",".join(map(text, v)) + "]"
    if isinstance(v, (bool, np.bool_)): return f"bool:{bool(v)}"
    if isinstance(v, (int, np.integer)): return f"int:{int(v)}"
    if isinstance(v, (float, np.floating)): return f"float:{float(v)}"
    return f"{type(v).__name__}:{v}"


# kind: (sample for value v, writer options, reader options)
KINDS = {
    "int":    (lambda v: v, {}, {}),
    "str":    (lambda v: f"s{v}", {}, {}),
    "tuple":  (lambda v: (v, v + 1), {}, {}),
    "list":   (lambda v: [v, v + 1], {}, {}),
    "ab":     (lambda v: {"a": v, "b": v + 1}, {}, {}),
    "xy":     (lambda v: {"x": v, "y": v + 1}, {}, {}),
    "nest":   (lambda v: {"a": [v], "b": v}, {}, {}),
    "zstd":   (lambda v: v, dict(compression="zstd"), {}),
    "enc":    (lambda v: v, dict(encryption="sample"), dict(encryption="sample")),
    "encc":   (lambda v: v, dict(encryption="chunk"), dict(encryption="chunk")),
    "tok":    (lambda v: torch.arange(v * 10, v * 10 + 4).to(torch.int32), dict(item_loader="tokens"), dict(item_loader="tokens")),
    "ten":    (lambda v: torch.arange(v * 10, v * 10 + 4).to(torch.int32), {}, {}),
    "float":  (lambda v: float(v), {}, {}),
    "bool":   (lambda v: v % 2 == 0, {}, {}),
}


def options(o):
    o = dict(o)
    if "encryption" in o: o["encryption"] = KEYS[o["encryption"]]
    if o.get("item_loader") == "tokens": o["item_loader"] = TokensLoader(block_size=4)
    return o


def read(path, kind, **kw):
    d = litdata.StreamingDataset(path, **options(KINDS[kind][2]), **kw)
    try: return [text(d[i]) for i in range(len(d))]
    finally: ds.stop_threads()


class World:
    def __init__(self, ctx, place):
        self.root = os.path.realpath(ctx.scratch("w")); self.place = place
        self.n = 0
        self.st = None
        if place != "local":
            self.st = objstore.MemStore(1000); objstore.install(self.st)
        envsetup.isolate(os.path.join(self.root, "home"))

    def make(self, kind, layout, start):
        """A dataset of `layout` chunks. Returns (location, its samples)."""
        self.n += 1
        p = os.path.join(self.root, f"d{self.n}")
        f, w, _ = KINDS[kind]
        vals = list(range(start, start + sum(layout)))
        if layout:
            # chunks of the given numbers of samples: a chunk that isn't full ends its writer's share
            os.makedirs(p)
            o = options(w)
            from litdata.streaming.cache import Cache
            size, shares = 2, [[]]
            for k, m in enumerate(layout):
                shares[-1].append(m)
                if m < size and k < len(layout) - 1: shares.append([])
            caches, i = [], 0
            os.environ["DATA_OPTIMIZER_NUM_WORKERS"] = str(len(shares))
            for r, share in enumerate(shares):
                os.environ["DATA_OPTIMIZER_GLOBAL_RANK"] = str(r)
                cache = Cache(p, chunk_size=size * (4 if kind == "tok" else 1), **o)
                assert cache._writer.rank == r
                for j in range(sum(share)):
                    cache[j] = f(vals[i]); i += 1
                cache.done()
                caches.append(cache)
            del os.environ["DATA_OPTIMIZER_GLOBAL_RANK"]; del os.environ["DATA_OPTIMIZER_NUM_WORKERS"]
            caches[0].merge()
        else:
            os.makedirs(p)
            with open(os.path.join(p, "index.json"), "w") as h: json.dump({"chunks": [], "config": None, "updated_at": "1"}, h)
        loc = p
        if self.st:
            loc = f"{self.place}://bucket/d{self.n}"
            self.st.put_tree(loc, p)
            shutil.rmtree(p)
        return loc, [text(f(v)) for v in vals]

    def out(self):
        self.n += 1
        return f"{self.place}://bucket/o{self.n}" if self.st else os.path.join(self.root, f"o{self.n}")

    def files(self, loc):
        if self.st: return {u[len(loc) + 1:]: self.st.get(u) for u in self.st.urls(loc + "/")}
        out = {}
        for d, _, ff in os.walk(loc):
            for f in ff:
                with open(os.path.join(d, f), "rb") as h: out[os.path.relpath(os.path.join(d, f), loc)] = h.read()
        return out

    def read(self, loc, kind, **kw):
        """The samples at a location, read from a copy of its files."""
        p = os.path.join(self.root, "read")
        shutil.rmtree(p, ignore_errors=True); os.makedirs(p)
        for k, v in self.files(loc).items():
            os.makedirs(os.path.dirname(os.path.join(p, k)), exist_ok=True)
            with open(os.path.join(p, k), "wb") as h: h.write(v)
        if not ds.read_index(p)["chunks"]: return []
        return read(p, kind)


def merging(case, ctx):
    place, parts, nworkers = case
    w = World(ctx, place)
    sets = [w.make(kind, layout, 100 * i) for i, (kind, layout) in enumerate(parts)]
    what = f"{place}: merging {parts} with max_workers={nworkers}"
    before = [w.files(loc) for loc, _ in sets]
    out = w.out()
    full = [k for k, l in parts if l]
    compatible = len(set(full)) <= 1
    try:
        merge_datasets([loc for loc, _ in sets], out, max_workers=nworkers)
        err = None
    except Exception as e: err = e
    ctx.step(); ctx.outcome((compatible, err is None)); ctx.state(case)
    if [w.files(loc) for loc, _ in sets] != before: raise mc.Violation(f"{what}: an input dataset was changed")
    if not compatible:
        if err is None: raise mc.Violation(f"{what}: incompatible datasets were merged")
        if "index.json" in w.files(out): raise mc.Violation(f"{what}: refused ({err!r}), but there is an index in the output")
        return
    if err is not None: raise mc.Violation(f"{what}: {err!r}")
    want = [x for _, xs in sets for x in xs]
    if full:
        try: got = w.read(out, full[0])
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"): import traceback; traceback.print_exc()
            raise mc.Violation(f"{what}: reading the result raises {e!r}")
        if got != want: raise mc.Violation(f"{what}: reads {got[:20]}, expected {want[:20]}")
    elif w.read(out, "int") != []: raise mc.Violation(f"{what}: the result isn't empty")
    # the output is now a dataset: it isn't merged into
    after = w.files(out)
    try:
        merge_datasets([loc for loc, _ in sets], out, max_workers=nworkers)
        raise mc.Violation(f"{what}: merging again into the same output isn't refused")
    except mc.Violation: raise
    except Exception: pass
    if w.files(out) != after: raise mc.Violation(f"{what}: the refused second merge changed the output")


def nesting(case, ctx):
    """Trees of merges, the same dataset several times, appending to a merged dataset, merging an appended one."""
    place, kind, program = case
    w = World(ctx, place)
    made = []
    for i, op in enumerate(program):
        what = f"{place} {kind}: step {i} of {program}"
        if op[0] == "new": made.append(w.make(kind, op[1], 100 * i))
        elif op[0] == "merge":
            out = w.out()
            before = [w.files(l) for l, _ in made]
            try: merge_datasets([made[k][0] for k in op[1]], out, max_workers=3)
            except Exception as e: raise mc.Violation(f"{what}: {e!r}")
            if [w.files(l) for l, _ in made] != before: raise mc.Violation(f"{what}: changed an input")
            made.append((out, [x for k in op[1] for x in made[k][1]]))
            got = w.read(out, kind)
            if got != made[-1][1]: raise mc.Violation(f"{what}: reads {got}, expected {made[-1][1]}")
        elif op[0] == "append":
            loc, xs = made[op[1]]
            f, o, _ = KINDS[kind]
            src = list(range(100 * i, 100 * i + 3))
            r = opt.run(os.path.join(w.root, f"h{i}"), lambda: optimize(f, src, loc, chunk_size=8 if kind == "tok" else 2, num_workers=op[2], mode="append", **options(o)))
            if r["exc"] and kind in ("zz",): continue
            if not opt.ok(r): raise mc.Violation(f"{what}: {opt.short(r)}")
            made[op[1]] = (loc, xs + [text(f(v)) for v in src])
            got = w.read(loc, kind)
            if got != made[op[1]][1]: raise mc.Violation(f"{what}: reads {got}, expected {made[op[1]][1]}")
        ctx.step()
    ctx.state(case)


def same_place(case, ctx):
    """The output is one of the inputs, however it is spelled; too few inputs; inputs which aren't datasets."""
    place, spelling = case
    w = World(ctx, place)
    a, b = w.make("int", (2, 1), 0), w.make("int", (1,), 10)
    out = {"same": a[0], "slash": a[0] + "/", "dots": os.path.join(w.root, "x", "..", os.path.basename(a[0])), "link": os.path.join(w.root, "link"), "none": w.out(), "one": w.out(), "notset": w.out()}[spelling]
    if spelling == "link": os.symlink(a[0], out)
    ins = {"none": [], "one": [a[0]], "notset": [a[0], w.out()]}.get(spelling, [a[0], b[0]])
    before = w.files(a[0]), w.files(b[0])
    try: merge_datasets(ins, out)
    except Exception: pass
    else: raise mc.Violation(f"{place}: merging into {spelling} isn't refused")
    if (w.files(a[0]), w.files(b[0])) != before: raise mc.Violation(f"{place}: merging into {spelling} changed an input")
    if spelling in ("none", "one", "notset") and "index.json" in w.files(out): raise mc.Violation(f"{place}: {spelling}: there is an index in the output")
    ctx.state(case)


def faulty(case, ctx):
    """The k-th copy (or the upload of the index) fails, before it starts or (local) half way; then the same or other
    datasets are merged into that folder."""
    place, nworkers, k, torn, again = case
    w = World(ctx, place)
    a, b = w.make("int", (2, 1), 0), w.make("int", (1, 1), 10)
    out = w.out()
    left = [k]
    if w.st:
        def hook(op, url):
            if op in ("copy", "put"):
                left[0] -= 1
                if left[0] == 0: raise OSError("injected fault")
        w.st.hook = hook
    else:
        orig = shutil.copyfile
        def copyfile(s, d, **kw):
            left[0] -= 1
            if left[0] == 0:
                if torn:
                    with open(s, "rb") as f, open(d, "wb") as g: g.write(f.read()[:9])
                raise OSError("injected fault")
            return orig(s, d, **kw)
        shutil.copyfile = copyfile
    try:
        try: merge_datasets([a[0], b[0]], out, max_workers=nworkers); err = None
        except Exception as e: err = e
    finally:
        if w.st: w.st.hook = None
        else: shutil.copyfile = orig
    ctx.step(); ctx.outcome((place, k, err is None)); ctx.state(case)
    hit = left[0] <= 0
    if hit and err is None: raise mc.Violation(f"{place}: copy {k} failed, yet success was reported")
    if hit and "index.json" in w.files(out): raise mc.Violation(f"{place}: copy {k} failed, yet the output has an index")
    if not hit and (err or w.read(out, "int") != a[1] + b[1]): raise mc.Violation(f"{place}: {err!r}")
    if hit:
        # and it can be repeated, or another one made at that place: what was left counts for nothing
        if again == "other": a, b = w.make("str", (1, 2), 20), w.make("str", (2, 2), 30)
        if again == "swapped": a, b = b, a
        merge_datasets([a[0], b[0]], out, max_workers=nworkers)
        kind = "str" if again == "other" else "int"
        try: got = w.read(out, kind)
        except Exception as e: got = repr(e)
        if got != a[1] + b[1]: raise mc.Violation(f"{place}: merging ({again}) after copy {k} failed (half way: {torn}): reads {got}, expected {a[1] + b[1]}")


def build(tier, seed):
    quick = tier == "quick"
    KEYS.update(sample=FernetEncryption(password="p", level="sample"), chunk=FernetEncryption(password="p", level="chunk"))
    c = mc.Check("C15", rule="every pair of kinds of datasets, every list of chunk layouts up to a length, every program of merges and appends from a list; results are read and compared with the concatenation",
                 bounds=f"{len(KINDS)} kinds of data, 2-3 inputs, 0-3 chunks (and 12) of 1-2 samples, local folders and two object stores")
    lay = [(), (1,), (2,), (1, 2), (2, 1), (1, 1, 1)] + ([] if quick else [(2, 2), (1, 2, 1)])
    pairs = [("local", ((a, (2, 1)), (b, (1,))), 2) for a in KINDS for b in KINDS]
    pairs += [("s3", ((a, (1,)), (b, (2,))), 1) for a, b in itertools.product(["int", "str", "zstd", "enc", "tok", "ten", "ab", "xy"], repeat=2)]
    lists = [(p, tuple(("int", l) for l in ls), n) for p, n in (("local", 1), ("local", 4), ("s3", 3), ("gs", 2)) for ls in itertools.product(lay, repeat=2)]
    lists += [("local", tuple((k, l) for l in ls), 2) for k in ("zstd", "tok", "enc", "ab") for ls in itertools.product(lay if not quick else lay[:4], repeat=2)]
    lists += [("local", tuple(("int", l) for l in ls), 3) for ls in itertools.product(lay[:4] if quick else lay, repeat=3)]
    lists += [("local", (("int", (1,) * 12), ("int", (2,) * 11)), 4), ("s3", (("int", (1,) * 12), ("zstd", (2,))), 4), ("s3", (("int", (1,) * 12), ("int", (2,) * 11)), 4)]
    lists += [("local", ((a, ()), (b, (1,)), (a, (2,))), 2) for a in ("int", "zstd", "enc", "tok") for b in ("int", "zstd", "enc", "tok")]
    c.phase("pairs", pairs, merging)
    c.phase("lists", lists, merging)
    N, M, A = "new", "merge", "append"
    progs = [((N, (1,)), (N, (2, 1)), (M, (0, 1)), (M, (2, 2))), ((N, (1, 1)), (M, (0, 0)), (M, (1, 0, 1))), ((N, (1,)), (N, (2,)), (M, (0, 1)), (A, 2, 1), (A, 2, 2), (M, (2, 0))),
             ((N, (2, 1)), (N, ()), (A, 0, 2), (M, (0, 0)), (M, (1, 2)), (A, 3, 1)), ((N, (1,)), (N, (1,)), (N, (1,)), (M, (2, 1, 0)), (M, (3, 0, 3)), (A, 4, 2), (M, (4, 3)))]
    c.phase("nesting", [(p, k, pr) for p in ("local", "s3") for k in ("int", "zstd", "ab") + (("tok", "enc") if p == "local" else ()) for pr in progs if p == "local" or not any(o[0] == A for o in pr)], nesting)
    c.phase("places", [("local", s) for s in ("same", "slash", "dots", "link", "none", "one", "notset")] + [("s3", s) for s in ("same", "slash", "none", "one", "notset")], same_place)
    c.phase("faults", [(p, n, k, t, a) for p in ("local", "s3", "gs") for n in (1, 3) for k in range(1, 7) for t in ((False, True) if p == "local" else (False,)) for a in ("same", "swapped", "other")], faulty)
    return c
