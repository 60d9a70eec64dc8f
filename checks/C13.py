from lib import mc, ds, envsetup, objstore, opt, sched
import itertools, json, os, shutil
import numpy as np
import litdata
from litdata import optimize, merge_datasets


class Out:
    """Outputs of one kind; raises at input `bad`."""
    def __init__(self, kind, tag, bad=None): self.kind, self.tag, self.bad = kind, tag, bad
    def __call__(self, x):
        if x == self.bad: raise ValueError("the function fails here")
        v = f"{self.tag}:{x}"
        if self.kind == "str": return v
        if self.kind == "dict": return {"a": v}
        if self.kind == "array": return np.frombuffer(v.encode(), dtype=np.uint8).copy()
        if self.kind == "none": return None


def text(v):
    if isinstance(v, dict): return "d" + v["a"]
    if isinstance(v, str): return v
    return "a" + bytes(np.asarray(v)).decode()


# variant: (inputs, workers, nodes, delay, kind of output, failing input, other options)
VARIANTS = {
    "w1":    (3, 1, 1, None, "str", None, {}),
    "w3":    (4, 3, 1, None, "str", None, {}),
    "w2":    (5, 2, 1, None, "str", None, {}),
    "nodes": (4, 2, 2, None, "str", None, {}),
    "late0": (3, 1, 2, (50, 0), "str", None, {}),
    "late1": (3, 1, 2, (0, 50), "str", None, {}),
    "fail":  (3, 1, 1, None, "str", 2, {}),
    "none":  (2, 1, 1, None, "none", None, {}),
    "dict":  (2, 1, 1, None, "dict", None, {}),
    "array": (2, 2, 1, None, "array", None, {}),
    "zstd":  (2, 1, 1, None, "str", None, {"compression": "zstd"}),
    "limit": (3, 1, 1, None, "str", None, {"chunk_size": 1}),
    "resumed": (6, 1, 1, None, "str", None, {"resumed": 3}),   # failed at input 3 and was resumed: the chunks' numbers have a gap
    "resumed2": (7, 2, 1, None, "str", None, {"resumed": 5}),
}
UNKNOWN = "unknown"


class Place:
    """An output location: a local folder or a cloud folder."""
    def __init__(self, ctx, kind):
        self.ctx, self.kind = ctx, kind
        self.root = os.path.realpath(ctx.scratch("w"))
        self.n = 0
    def fresh(self):
        self.n += 1
        p = os.path.join(self.root, f"s{self.n}")
        os.makedirs(p)
        return p
    def files(self, at):
        out = {}
        if self.kind == "s3":
            st = objstore.Store(os.path.join(at, "store"))
            pre = "s3://bucket/a/set/"
            return {u[len(pre):]: st.get(u) for u in st.urls(pre)}
        for d, _, ff in os.walk(os.path.join(at, "set")):
            for f in ff:
                p = os.path.join(d, f)
                with open(p, "rb") as h: out[os.path.relpath(p, os.path.join(at, "set"))] = h.read()
        return out
    def dataset(self, at):
        """The samples a reader gets; None without a dataset."""
        files = self.files(at)
        if "index.json" not in files: return None
        ix = json.loads(files["index.json"])
        if not ix["chunks"]: return []
        miss = [c["filename"] for c in ix["chunks"] if c["filename"] not in files]
        if miss: raise mc.Violation(f"index lists {miss}, which are missing")
        d = os.path.join(at, "read")
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for k, v in files.items():
            if "/" not in k:
                with open(os.path.join(d, k), "wb") as h: h.write(v)
        try: return [text(x) for x in opt.read(d)]
        finally: shutil.rmtree(d, ignore_errors=True)


def step(place, at, op, tag, state, cfg):
    """Perform one operation on a copy of the location; returns (new place on disk, new state, new settings)."""
    mode, var = op
    n, workers, nodes, delay, kind, bad, extra = VARIANTS[var]
    base = place.fresh()
    if at:
        for x in os.listdir(at):
            if x in ("store", "set"): shutil.copytree(os.path.join(at, x), os.path.join(base, x))
    st = objstore.Store(os.path.join(base, "store")) if place.kind == "s3" else None
    before = place.files(base)
    target = "s3://bucket/a/set" if st else os.path.join(base, "set")
    kw = dict(chunk_size=2, num_workers=workers, mode=mode); kw.update(extra)
    first = kw.pop("resumed", None)
    def job():
        if first is not None:
            kw["use_checkpoint"] = True
            try: optimize(Out(kind, tag, first), list(range(n)), target, **kw)
            except RuntimeError: pass
        optimize(Out(kind, tag, bad), list(range(n)), target, **kw)
    r = sched.execute(lambda sc: objstore.install(st) if st else None, opt.on_nodes(job, base, nodes, delay))
    place.ctx.step(r["steps"]); place.ctx.execs += 1
    return base, r, before


def judge(place, ops, base, r, before, op, tag, state, cfg):
    mode, var = op
    n, workers, nodes, delay, kind, bad, extra = VARIANTS[var]
    what = f"{place.kind}: {ops} (inputs, workers, nodes, delay, outputs, failing input, options: {VARIANTS[var]})"
    if not r["main_done"]: raise mc.Violation(f"{what}: never ends: {opt.short(r)}")
    new = [] if kind == "none" else [text(Out(kind, tag)(x)) for x in range(n)]
    mine = None if kind == "none" else (kind, extra.get("compression"), extra.get("chunk_size", 2))
    ok = r["exc"] is None
    try: got = place.dataset(base)
    except mc.Violation as e: raise mc.Violation(f"{what}: {e}")
    except Exception as e: raise mc.Violation(f"{what}: then reading fails: {e!r}")
    now = place.files(base)
    held = state is not None and state is not UNKNOWN
    must_refuse = mode is None and held
    may_refuse = mode is None and place.kind == "s3" and len(before) > 0
    if must_refuse or may_refuse and not ok:
        if ok: raise mc.Violation(f"{what}: an existing dataset was not protected, now {got}")
        if now != before: raise mc.Violation(f"{what}: refused, but changed {sorted(set(now.items()) ^ set(before.items()))[:3]}")
        return state, cfg
    old = state if mode == "append" and held else []
    if mode == "append" and held and bad is None and cfg is not None and mine is not None and cfg != mine:
        # other data, compression or limits than the existing dataset: refused, or (other limits only) appended
        if ok and got == old + new and cfg[:2] == mine[:2]: return got, cfg
        if ok: raise mc.Violation(f"{what}: incompatible data was appended: settings {cfg} and {mine}, reads {got}")
        if got != old: raise mc.Violation(f"{what}: the refused append changed the dataset to {got}, before {old}")
        return state, cfg
    if bad is not None:
        if ok: raise mc.Violation(f"{what}: the function failed, yet success was reported")
        if mode == "append" and held and got != old: raise mc.Violation(f"{what}: the failed append changed the dataset to {got}, before {old}")
        if mode == "append" and held: return state, cfg
        if got is not None: raise mc.Violation(f"{what}: the failed run left a dataset {got}")
        return UNKNOWN, None
    if not ok: raise mc.Violation(f"{what}: {opt.short(r)}\n{r['tb'][-1500:]}")
    want = old + new
    if got != want: raise mc.Violation(f"{what}: reads {got}, expected {want}")
    return want, (cfg if mode == "append" and old else None) or mine


def sequence(case, ctx):
    kind, first, second, thirds = case
    place = Place(ctx, kind)
    at, state, cfg = None, None, None
    ops = []
    for i, op in enumerate((first, second)):
        if op is None: continue
        ops.append(op)
        base, r, before = step(place, at, op, f"t{i}", state, cfg)
        if known(place, base, r, before, op, state, ctx, ops): return
        try: state, cfg = judge(place, ops, base, r, before, op, f"t{i}", state, cfg)
        except mc.Violation:
            if i == 0 and second is not None: return  # reported by the shorter sequence
            if i == 0 or i == 1: raise
        if at: shutil.rmtree(at, ignore_errors=True)
        at = base
    for op in thirds:
        base, r, before = step(place, at, op, "t2", state, cfg)
        if not known(place, base, r, before, op, state, ctx, ops + [op]):
            s, _ = judge(place, ops + [op], base, r, before, op, "t2", state, cfg)
            ctx.state((kind, tuple(ops), op, repr(s)))
        shutil.rmtree(base, ignore_errors=True)
        ctx.outcome((op, r["exc"] is None, state is None, state is UNKNOWN))


def known(place, base, r, before, op, state, ctx, ops):
    """The listed findings about nodes that start late, recognised by what they do."""
    mode, var = op
    n, workers, nodes, delay, kind, bad, extra = VARIANTS[var]
    if nodes > 1 and not r["main_done"] and mode == "append":
        mains = [t for t in r["tasks"] if t[0].startswith("node_main")]
        if mains[0][2] == 1 and "The config isn" in str(mains[0][3]) and f"{mains[-1][0]}: s sleep" in r["detail"]:
            ctx.known_or_raise(f"{place.kind}: {ops}: {opt.short(r)}", "merging-node-waits"); return True
    if not delay: return False
    late = [t for t in r["tasks"] if t[0].startswith("node_main")][delay.index(50)]
    if place.kind == "s3" and mode != "append":
        refused = mode is None and state is None and late[2] == 1 and "already contains an optimized" in str(late[3])
        wiped = mode == "overwrite" and not r["main_done"] and f"{late[0]}: s sleep" in r["detail"]
        if mode == "overwrite" and delay[0] == 50 and r["main_done"]:
            # the late first node deletes the chunks of the other one, whose index it lists
            files = place.files(base)
            listed = [c["filename"] for c in json.loads(files.get("index.json", b'{"chunks": []}'))["chunks"]]
            wiped = [f for f in listed if f not in files and not f.startswith("chunk-0-")] != [] or "index.json" not in files
        if refused or wiped:
            ctx.known_or_raise(f"{place.kind}: {ops}: {opt.short(r)}", "cloud-late-node"); return True
    if mode is not None and delay[0] == 50 and f"0-index.json" in before:
        # the merging node took the index which the first node left in an earlier run
        got = None
        try: got = place.dataset(base)
        except mc.Violation: pass
        except Exception: pass
        if r["main_done"] and r["exc"] is None and not (got and set(text(Out(kind, f"t{len(ops) - 1}")(x)) for x in range(n)) <= set(got)):
            ctx.known_or_raise(f"{place.kind}: {ops}: {opt.short(r)}", "node-late-stale-index"); return True
    return False


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C13", rule="every sequence of optimize operations (mode x variant) of the given length; each result is read back and compared with a list model",
                 bounds=f"sequences of 3 operations, 3 modes, {len(VARIANTS)} variants (1-3 workers, 1-2 nodes, failing functions, other data, compression, limits), local and cloud folders",
                 assumptions=["one schedule per operation (C12 explores schedules)"])
    V = list(VARIANTS)
    small = ["w1", "w3", "nodes", "fail", "zstd", "resumed"]
    ops = [(m, v) for m in (None, "append", "overwrite") for v in V]
    cases = []
    for kind in ("local", "s3"):
        vs = V if kind == "local" else ["w1", "w3", "nodes", "late0", "late1", "fail", "dict", "resumed"]
        o = [x for x in ops if x[1] in vs]
        cases += [(kind, None, None, (x,)) for x in o]
        if not quick:
            cases += [(kind, a, b, tuple(o)) for a in o for b in o]
            continue
        thirds = tuple(x for x in (("append", "w3"), ("append", "zstd"), ("overwrite", "nodes"), (None, "w1"), ("append", "fail")) if x[1] in vs)
        firsts = [(None, v) for v in (("w1", "w3", "nodes", "fail", "none", "zstd", "resumed", "resumed2") if kind == "local" else ("w1", "nodes", "resumed"))] + [("overwrite", "w2")] * (kind == "local")
        for i, a in enumerate(firsts):
            cases += [(kind, a, b, thirds if b[1] in small or i == 0 else ()) for b in o if kind == "local" or b[1] in ("w3", "nodes", "late0", "fail")]
    c.phase("sequences", cases, sequence)
    return c
