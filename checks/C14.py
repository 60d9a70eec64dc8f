from lib import mc, ds, envsetup, objstore, opt, sched
import hashlib, json, os, pickle, re, shutil
import litdata
from litdata import optimize

BAD = "the function fails here"
ROPEN, RWALK = open, os.walk


class Fn:
    """Output of input x; notes each call with the worker it runs in. Inputs in `none` have no output."""
    def __init__(self, log, none=(), bad=None): self.log, self.none, self.bad = log, none, bad
    def __call__(self, x):
        fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (json.dumps([int(os.environ.get("DATA_OPTIMIZER_GLOBAL_RANK", 0)), repr(x)]) + "\n").encode()); os.close(fd)
        k = x if isinstance(x, int) else x[0] if isinstance(x, (tuple, list)) else x["k"] if isinstance(x, dict) else x.k
        if k == self.bad: raise ValueError(BAD)
        return None if k in self.none else f"<{k}>"


class Obj:
    """An input that JSON can't express."""
    def __init__(self, k): self.k = k
    def __repr__(self): return f"Obj({self.k})"


# name: (number of inputs, kind of inputs, inputs without output, nodes, place, dataset that exists, options)
CONFIGS = {
    "one":      (3, "int", (), 1, "local", None, dict(num_workers=1, chunk_size=1)),
    "two":      (4, "int", (), 1, "local", None, dict(num_workers=2, chunk_size=1)),
    "limit":    (5, "int", (), 1, "local", None, dict(num_workers=1, chunk_size=2)),
    "bytes":    (4, "int", (), 1, "local", None, dict(num_workers=1, chunk_bytes=40)),
    "uneven":   (5, "int", (), 1, "local", None, dict(num_workers=3, chunk_size=1)),
    "none":     (5, "int", (0, 2), 1, "local", None, dict(num_workers=1, chunk_size=1)),
    "none2":    (6, "int", (1, 2, 5), 1, "local", None, dict(num_workers=2, chunk_size=2)),
    "tuples":   (3, "tuple", (), 1, "local", None, dict(num_workers=1, chunk_size=1)),
    "dicts":    (3, "dict", (), 1, "local", None, dict(num_workers=1, chunk_size=1)),
    "objects":  (3, "obj", (), 1, "local", None, dict(num_workers=1, chunk_size=1)),
    "uploaders": (4, "int", (), 1, "local", None, dict(num_workers=1, chunk_size=1, num_uploaders=2)),
    "zstd":     (3, "int", (), 1, "local", None, dict(num_workers=1, chunk_size=1, compression="zstd")),
    "append":   (3, "int", (), 1, "local", 2, dict(num_workers=1, chunk_size=1, mode="append")),
    "append2":  (4, "int", (), 1, "local", 2, dict(num_workers=2, chunk_size=1, mode="append")),
    "over":     (3, "int", (), 1, "local", 2, dict(num_workers=1, chunk_size=1, mode="overwrite")),
    "dots":     (3, "int", (), 1, "dots", None, dict(num_workers=1, chunk_size=1)),
    "s3":       (3, "int", (), 1, "s3", None, dict(num_workers=1, chunk_size=1)),
    "s3two":    (4, "int", (), 1, "s3", None, dict(num_workers=2, chunk_size=1)),
    "s3up":     (4, "int", (), 1, "s3", None, dict(num_workers=1, chunk_size=1, num_uploaders=2)),
    "s3append": (3, "int", (), 1, "s3", 2, dict(num_workers=1, chunk_size=1, mode="append")),
    "nodes":    (4, "int", (), 2, "local", None, dict(num_workers=1, chunk_size=1)),
    "nodes2":   (4, "int", (), 2, "local", None, dict(num_workers=2, chunk_size=1)),
    "nodess3":  (4, "int", (), 2, "s3", None, dict(num_workers=1, chunk_size=1)),
}


def make(kind, k): return {"int": k, "tuple": (k, f"n{k}"), "dict": {"k": k}, "obj": Obj(k)}[kind]


def tree(top):
    out = {}
    for d, dd, ff in RWALK(top):
        for x in dd: out[os.path.relpath(os.path.join(d, x), top) + "/"] = None
        for x in ff:
            p = os.path.join(d, x)
            with ROPEN(p, "rb") as f: out[os.path.relpath(p, top)] = f.read()
    return out


def put(top, files):
    for k, v in files.items():
        p = os.path.join(top, k)
        if v is None: os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with ROPEN(p, "wb") as f: f.write(v)


class World:
    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.n, self.kind, self.none, self.nodes, self.place, self.old, self.kw = CONFIGS[name]
        self.root = os.path.realpath(ctx.scratch("w"))
        self.xs = [make(self.kind, k) for k in range(self.n)]
        self.nrun = 0

    def where(self, base):
        if self.place == "s3": return os.path.join(base, "store"), "s3://bucket/a/set"
        d = os.path.join(base, "w", "run.checkpoints-1" if self.place == "dots" else "out", "set")
        return d, d

    def run(self, state, snaps=False, prefix=(), xs=None, bad=None, store_fault=None, **kw):
        """One run from the given content of the location. Returns result, content afterwards, calls, snapshots {hash: content}."""
        self.nrun += 1
        base = os.path.join(self.root, f"r{self.nrun}")
        disk, target = self.where(base)
        os.makedirs(os.path.join(base, "w")); os.makedirs(os.path.join(base, "snaps"))
        st = objstore.Store(disk) if self.place == "s3" else None
        if state is not None: put(disk, state)
        options = {**self.kw, **{k: kw.pop(k) for k in list(kw) if k in ("num_workers", "chunk_size", "compression", "use_checkpoint", "mode")}}
        fn = Fn(os.path.join(base, "calls"), self.none, bad)
        xs = self.xs if xs is None else xs
        options = {"use_checkpoint": True, **options}
        main = opt.on_nodes(lambda: optimize(fn, xs, target, **options), os.path.join(base, "w"), self.nodes)
        last = [None]
        def snap(step, what):
            t = tree(disk) if os.path.isdir(disk) else {}
            h = key(t)
            if h != last[0]:
                last[0] = h
                p = os.path.join(base, "snaps", h)
                if not os.path.exists(p):
                    with ROPEN(p, "wb") as f: pickle.dump((what, t), f)
        def setup(sc):
            if st:
                objstore.install(st)
                left = [store_fault]
                def hook(op, url):
                    sched.S.point("f", f"{op} {url}")
                    if op == "put" and store_fault:
                        left[0] -= 1
                        if left[0] == 0: raise OSError("injected fault " + url)
                st.hook = hook
        r = sched.execute(setup, main, files=True, watch=os.path.join(base, "w"), preempt=("q", "p"), prefix=prefix, snap=snap if snaps else None, **kw)
        self.ctx.step(r["steps"]); self.ctx.execs += 1
        after = tree(disk) if os.path.isdir(disk) else {}
        calls = []
        if os.path.exists(os.path.join(base, "calls")):
            with ROPEN(os.path.join(base, "calls")) as f: calls = [tuple(json.loads(x)) for x in f]
        got = {}
        for h in os.listdir(os.path.join(base, "snaps")):
            with ROPEN(os.path.join(base, "snaps", h), "rb") as f: got[h] = pickle.load(f)
        shutil.rmtree(base, ignore_errors=True)
        return r, after, calls, got

    def files(self, state):
        """The files of the location by their names in it."""
        if self.place != "s3": return {k: v for k, v in state.items() if v is not None}
        base = os.path.join(self.root, "look")
        shutil.rmtree(base, ignore_errors=True)
        put(base, state)
        st = objstore.Store(base)
        pre = "s3://bucket/a/set/"
        return {u[len(pre):]: st.get(u) for u in st.urls(pre)}

    def read(self, state):
        """The samples of the dataset; None without one."""
        files = self.files(state)
        if "index.json" not in files: return None
        d = os.path.join(self.root, "read")
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        put(d, {k: v for k, v in files.items() if "/" not in k})
        if not json.loads(files["index.json"])["chunks"]: return []
        return opt.read(d)

    def is_complete(self, state):
        """Whether an index with chunks has been written (besides the one of a dataset which is appended to, see `level`)."""
        ix = self.files(state).get("index.json")
        return ix is not None and len(json.loads(ix)["chunks"]) > 0

    def saved(self, state):
        """worker -> samples in the saved chunks of its checkpoint."""
        out = {}
        for k, v in self.files(state).items():
            m = re.match(r"\.checkpoints/checkpoint-(\d+)\.json$", k)
            if m:
                try: out[int(m.group(1))] = sum(c["chunk_size"] for c in json.loads(v)["chunks"])
                except (ValueError, KeyError): pass
        return out


def key(t): return hashlib.sha1(repr(sorted((k, re.sub(rb'"updated_at": "[^"]*"', b"", v) if v else v) for k, v in t.items())).encode()).hexdigest()


def explore(case, ctx):
    name, bound, depth, limit = case
    w = World(ctx, name)
    start = None
    if w.old:
        r, start, _, _ = w.run(None, xs=[make(w.kind, 100 + k) for k in range(w.old)], mode=None, use_checkpoint=False)
        if not opt.ok(r): raise RuntimeError(opt.short(r))
    r, done, calls, _ = w.run(start)
    if not opt.ok(r): raise mc.Violation(f"{name}: the uninterrupted run fails: {opt.short(r)}\n{r['tb'][-1500:]}")
    want = w.read(done)
    mine = [f"<{k}>" for k in range(w.n) if k not in w.none]
    full = ([f"<{100 + k}>" for k in range(w.old)] if w.old and w.kw.get("mode") == "append" else []) + mine
    if want != full: raise mc.Violation(f"{name}: the uninterrupted run gives {want}, expected {full}")
    share = {}
    for rank, x in calls: share.setdefault(rank, []).append(x)
    outputs = {rank: [x for x in xs if x not in [repr(make(w.kind, k)) for k in w.none]] for rank, xs in share.items()}
    seen, todo = {}, [(start, 0, ())]
    runs = 0
    while todo:
        state, level, path = todo.pop(0)
        saved = w.saved(state) if state else {}
        again = {x for rank, n in saved.items() if w.kw.get("mode") != "overwrite" and w.kind != "obj" for x in outputs[rank][:n]}
        complete = state is not None and level > 0 and w.is_complete(state)
        # all is written, the checkpoints have begun to be removed: running again appends once more
        over = complete and w.kw.get("mode") == "append" and not any(re.match(r"\.checkpoints/config.*\.json$", k) for k in w.files(state))
        def judge(prefix, r, after, calls):
            what = f"{name} {CONFIGS[name]}: interrupted {' then '.join(path) or 'never'}, schedule {list(prefix)}"
            if r["status"] in ("died", "diverged"): raise RuntimeError(f"{what}: {r['status']} {r['detail']}")
            if r["exc"] is not None and complete and any("already contains an optimized" in str(t[3]) for t in r["tasks"]):
                # everything had been written: the run is refused like a second run is
                got = w.read(after)
                if got != full: raise mc.Violation(f"{what}: refused as complete, but reads {got}, expected {full}")
                return
            if not opt.ok(r): raise mc.Violation(f"{what}: the run cannot be resumed: {opt.short(r)}\n{r['tb'][-1500:]}")
            try: got = w.read(after)
            except Exception as e: raise mc.Violation(f"{what}: the resumed run succeeds, reading raises {e!r}")
            if over and got == w.read(state) + mine:
                return  # the interrupted run was complete, this is a second one
            if got != full: raise mc.Violation(f"{what}: the resumed run gives {got}, expected {full}")
            left = [k for k in after if ".checkpoints/" in k.replace("run.checkpoints-1/", "") or k.endswith("/.checkpoints/")]
            if left and w.place != "s3" or any(k.startswith(".checkpoints") for k in w.files(after)): raise mc.Violation(f"{what}: checkpoint data remains: {left}")
            re_done = [x for _, x in calls if x in again]
            if re_done: raise mc.Violation(f"{what}: inputs {re_done} were in saved chunks (per worker: {saved}) and are processed again")
        def one(prefix):
            r, after, calls, snaps = w.run(state, snaps=level < depth and not over, prefix=prefix)
            judge(prefix, r, after, calls)
            for h, (at, t) in snaps.items():
                if h not in seen:
                    seen[h] = 1
                    ctx.state((name, h))
                    todo.append((t, level + 1, path + (f"before [{at}]",)))
            return r
        n, _ = sched.explore(one, bound if level == 0 else 0)
        runs += n
        ctx.outcome((name, level, len(again), complete))
        if limit and runs >= limit: break
    ctx.sample(f"{name}: {len(seen)} contents of the location reached by interruptions, {runs} runs, {'all' if not todo else 'not all'} resumed")


def failures(case, ctx):
    """The function fails at an input, a process dies, an upload fails: then the run is resumed."""
    name, kind, part = case
    w = World(ctx, name)
    r, done, calls, _ = w.run(None)
    if not opt.ok(r): return  # reported by the other phase
    full = [f"<{k}>" for k in range(w.n) if k not in w.none]
    names = [t[0] for t in r["tasks"] if t[0] != "main" and not t[0].startswith("node_main")]
    share = {}
    for rank, x in calls: share.setdefault(rank, []).append(x)
    outputs = {rank: [x for x in xs if x not in [repr(make(w.kind, k)) for k in w.none]] for rank, xs in share.items()}
    if kind == "raise": jobs = [dict(bad=k) for k in range(w.n)]
    elif kind == "up": jobs = [dict(up=k) for k in range(1, 2 * w.n + 4)]
    else: jobs = [dict(kill=[t, k, ("q", "p", "f")]) for t in names for k in range(1, 60)]
    seen, dead = {}, set()
    for job in jobs[part[0]::part[1]]:
        what = f"{name} {CONFIGS[name]}: first run with {job}"
        if "kill" in job and job["kill"][0] in dead: continue
        if "up" in job:
            left = [job["up"]]
            def hit(op, path, task):
                if op == "copy" and task is not None and task.name.startswith("_upload"):
                    left[0] -= 1
                    return left[0] == 0
                return False
            r, state, _, _ = w.run(None, fault=hit, store_fault=job["up"])
        else: r, state, _, _ = w.run(None, **{k: list(v) if k == "kill" else v for k, v in job.items()})
        if "kill" in job and not any(t[0] == job["kill"][0] and t[2] == -9 for t in r["tasks"]): dead.add(job["kill"][0])
        if r["exc"] is None and r["main_done"]:
            got = w.read(state)
            if got != full: raise mc.Violation(f"{what}: success is reported, reads {got}, expected {full}")
            continue
        if not r["main_done"]: continue  # C12
        h = key(state)
        if h in seen: continue
        seen[h] = 1
        ctx.state((name, h))
        again = {x for rank, n in w.saved(state).items() if w.kind != "obj" for x in outputs[rank][:n]}
        r, after, calls, _ = w.run(state)
        if r["status"] in ("died", "diverged"): raise RuntimeError(f"{what}: {r['status']} {r['detail']}")
        if r["exc"] is not None and w.is_complete(state) and any("already contains an optimized" in str(t[3]) for t in r["tasks"]): continue
        if not opt.ok(r): raise mc.Violation(f"{what}: the run cannot be resumed: {opt.short(r)}\n{r['tb'][-1500:]}")
        try: got = w.read(after)
        except Exception as e: raise mc.Violation(f"{what}: the resumed run succeeds, reading raises {e!r}")
        if got != full: raise mc.Violation(f"{what}: the resumed run gives {got}, expected {full}")
        re_done = [x for _, x in calls if x in again]
        if re_done: raise mc.Violation(f"{what}: inputs {re_done} were in saved chunks and are processed again")
        ctx.outcome((name, kind, len(again)))
    ctx.sample(f"{name}: {len(seen)} contents left by {kind}")


def refusals(case, ctx):
    """Resuming with other inputs, another number of workers or other settings."""
    name, change = case
    w = World(ctx, name)
    full = [f"<{k}>" for k in range(w.n) if k not in w.none]
    r, done, _, snaps = w.run(None, snaps=True)
    m = w.n
    seen = set()
    for h, (at, state) in sorted(snaps.items(), key=lambda x: x[1][0]):
        k = repr(sorted(w.saved(state).items())) + repr(sorted(x for x in w.files(state) if ".checkpoints" in x))
        if k in seen and ctx.tier == "quick": continue
        seen.add(k)
        if not any(w.saved(state).values()) or w.is_complete(state) or not any(re.match(r"\.checkpoints/config.*\.json$", k) for k in w.files(state)): continue
        kw, xs, expect = {}, w.xs, full
        if change == "workers": kw = dict(num_workers=w.kw["num_workers"] + 1)
        elif change == "fewer": xs, expect = w.xs[:-1], full[:-1]
        elif change == "more": xs, expect = w.xs + [make(w.kind, m)], full + [f"<{m}>"]
        elif change == "order": xs, expect = w.xs[::-1], full[::-1]
        elif change == "other": xs, expect = w.xs[:-1] + [make(w.kind, 50)], full[:-1] + ["<50>"]
        elif change == "compression": kw = dict(compression="zstd")
        elif change == "limit": kw = dict(chunk_size=3)
        r, after, calls, _ = w.run(state, xs=xs, **kw)
        what = f"{name} {CONFIGS[name]}: interrupted before [{at}], then run with {change} changed"
        if r["status"] in ("died", "diverged"): raise RuntimeError(f"{what}: {r['status']} {r['detail']}")
        ctx.state((name, change, h)); ctx.outcome((change, r["exc"] is None))
        if r["main_done"] and r["exc"] is not None:
            # refused: the interrupted run can still be resumed
            r, after, _, _ = w.run(after)
            if not opt.ok(r): raise mc.Violation(f"{what}: it is refused, but the original run cannot be resumed any more: {opt.short(r)}")
            got = w.read(after)
            if got != full: raise mc.Violation(f"{what}: it is refused, the original run resumed gives {got}, expected {full}")
            continue
        if not r["main_done"]:
            mains = [t for t in r["tasks"] if t[0].startswith("node_main")]
            if w.nodes > 1 and mains[0][2] == 1 and change in ("limit", "compression") and mains[-1][1] is False and f"{mains[-1][0]}: " in r["detail"]:
                ctx.known_or_raise(f"{what}: {opt.short(r)}", "merging-node-waits"); continue
            raise mc.Violation(f"{what}: never ends: {opt.short(r)}")
        if change != "limit": raise mc.Violation(f"{what}: it is not refused")
        try: got = w.read(after)
        except Exception as e: got = repr(e)
        if got != expect: raise mc.Violation(f"{what}: it is not refused and gives {got}, expected {expect}")


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C14", rule="every content of the output location which an interruption can leave (before any file, cloud or queue operation of a run, torn copies included) is the start of a resumed run, whose result and calls are compared with the uninterrupted run",
                 bounds=f"{len(CONFIGS)} configurations (1-3 workers, 1-2 nodes, local and cloud)",
                 assumptions=["a process' unflushed data is lost, flushed data and renames are durable and ordered", "cloud puts are atomic"])
    cases = [(n, 0 if quick else 1, (2 if n in ("one", "append", "none", "s3") else 1) if quick else 3, None) for n in CONFIGS]
    c.phase("crashes", cases, explore)
    fs = [(n, k, (0, 1)) for n in ("one", "two", "limit", "none2", "uploaders", "s3", "s3two", "s3up") for k in ("raise", "up")]
    fs += [(n, "kill", (i, 3)) for n in (("two",) if quick else ("one", "two", "limit", "none2", "uneven", "uploaders", "s3", "s3two", "s3up")) for i in range(3)]
    c.phase("failures", fs, failures)
    c.phase("refusals", [(n, ch) for n in ("two", "limit", "tuples", "s3", "nodes") for ch in ("workers", "fewer", "more", "order", "other", "compression", "limit")], refusals)
    return c
