from lib import mc, ds, envsetup, objstore, opt, sched
import hashlib, json, multiprocessing, os, shutil, time
import litdata
from litdata import optimize, map as lmap
from litdata.processing import data_processor as dp
from litdata.streaming.resolver import Dir

BAD = "the function fails here"


class Fn:
    """Outputs of input x; raises at input `bad`."""
    def __init__(self, bad=None, files=False): self.bad, self.files = bad, files
    def __call__(self, x):
        if self.files:
            with open(x) as f: x = f.read()
        if x == self.bad: raise ValueError(BAD)
        return f"<{x}>"

class Slow(Fn):
    """Takes a while for the inputs `slow` (virtual time)."""
    def __init__(self, slow, seconds): Fn.__init__(self); self.slow, self.seconds = slow, seconds
    def __call__(self, x):
        if x in self.slow: time.sleep(self.seconds)
        return f"<{x}>"

class Exits(Fn):
    def __call__(self, x):
        if x == self.bad: raise SystemExit(self.files)
        return f"<{x}>"

class Gen(Fn):
    def __call__(self, x):
        for j in range(2):
            if x == self.bad and j == 1: raise ValueError(BAD)
            yield f"<{x}.{j}>"

class Write(Fn):
    """For map: writes two files, one in a subfolder."""
    def __call__(self, x, output_dir):
        if x == self.bad: raise ValueError(BAD)
        os.makedirs(os.path.join(output_dir, f"d{x}"))
        for p in (f"{x}.txt", f"d{x}/f"):
            with open(os.path.join(output_dir, p), "w") as f: f.write(f"{p}:{x}")


# name: (inputs, nodes, options, kinds of points explored)
CONFIGS = {
    "plain":    (3, 1, dict(num_workers=1, chunk_size=1)),
    "two":      (3, 1, dict(num_workers=2, chunk_size=1)),
    "limit2":   (4, 1, dict(num_workers=2, chunk_size=2)),
    "bytes":    (3, 1, dict(num_workers=1, chunk_bytes=20)),
    "uploaders": (4, 1, dict(num_workers=1, chunk_size=1, num_uploaders=2)),
    "checkpoint": (2, 1, dict(num_workers=2, chunk_size=1, use_checkpoint=True)),
    "gen":      (2, 1, dict(num_workers=1, chunk_size=1, gen=True)),
    "s3out":    (3, 1, dict(num_workers=2, chunk_size=1, out="s3")),
    "files":    (2, 1, dict(num_workers=1, chunk_size=1, num_downloaders=2, src="local")),
    "files2":   (3, 1, dict(num_workers=2, chunk_size=1, num_downloaders=1, src="local")),
    "s3in":     (2, 1, dict(num_workers=1, chunk_size=1, num_downloaders=2, src="s3", out="s3")),
    "shared":   (2, 1, dict(num_workers=1, chunk_size=2, num_downloaders=2, src="shared")),
    "map":      (2, 1, dict(num_workers=1, map=True)),
    "map2":     (3, 1, dict(num_workers=2, map=True, num_uploaders=2)),
    "maps3":    (2, 1, dict(num_workers=1, map=True, out="s3")),
    "nodes":    (2, 2, dict(num_workers=1, chunk_size=1)),
    "nodes3":   (3, 3, dict(num_workers=1, chunk_size=1)),
    "nodess3":  (2, 2, dict(num_workers=1, chunk_size=1, out="s3")),
    "late0":    (3, 2, dict(num_workers=1, chunk_size=1, delay=(100, 0))),
    "late1":    (3, 2, dict(num_workers=2, chunk_size=1, delay=(0, 100))),
    "late0s3":  (2, 2, dict(num_workers=1, chunk_size=1, out="s3", delay=(100, 0))),
    "late1s3":  (2, 2, dict(num_workers=1, chunk_size=1, out="s3", delay=(0, 100))),
    "over1":    (3, 2, dict(num_workers=1, chunk_size=1, delay=(0, 100), mode="overwrite")),
    "overs3":   (2, 2, dict(num_workers=1, chunk_size=1, out="s3", mode="overwrite")),
    "overs3late": (2, 2, dict(num_workers=1, chunk_size=1, out="s3", delay=(0, 100), mode="overwrite")),
    "mapnodes": (3, 2, dict(num_workers=1, map=True)),
    "none":     (2, 1, dict(num_workers=3, chunk_size=1)),
    "slow":     (3, 1, dict(num_workers=1, chunk_size=2, slow=(0, 1, 2))),
    "slowlast": (4, 1, dict(num_workers=2, chunk_size=2, slow=(1, 3))),
    "slows3":   (3, 1, dict(num_workers=1, chunk_size=1, out="s3", slow=(2,))),
}


class World:
    """One configuration with its folders; run() executes it once, judge() looks at the result."""
    def __init__(self, ctx, name, bad=None, fn=None):
        self.ctx, self.name = ctx, name
        n, self.nodes, o = CONFIGS[name]
        o = dict(o)
        self.n, self.bad = n, bad
        self.delay = o.pop("delay", None)
        self.out_kind, self.src, self.is_map, gen = o.pop("out", "local"), o.pop("src", None), o.pop("map", False), o.pop("gen", False)
        slow = o.pop("slow", None)
        self.kw = o
        self.root = os.path.realpath(ctx.scratch("w"))
        self.fault_at, self.faulted = None, 0
        self.good = {}
        self.nrun = 0
        xs = list(range(n))
        if gen: self.want = [f"<{x}.{j}>" for x in xs for j in range(2)]
        elif self.is_map: self.want = {p: f"{p}:{x}" for x in xs for p in (f"{x}.txt", f"d{x}/f")}
        else: self.want = [f"<{x}>" for x in xs]
        self.fn = fn or (Slow(slow, 1.5) if slow else Gen(bad) if gen else Write(bad) if self.is_map else Fn(bad if self.src is None else str(bad), files=self.src is not None))
        self.xs = xs

    def start(self):
        """Fresh folders and the program of one execution."""
        self.nrun += 1
        base = os.path.join(self.root, f"r{self.nrun}")
        os.makedirs(base)
        self.base = base
        self.st = None
        kw = dict(self.kw)
        if self.out_kind == "s3" or self.src == "s3":
            self.st = objstore.Store(os.path.join(base, "store"))
        out = os.path.join(base, "out")
        xs = self.xs
        if self.src:
            ind = os.path.join(base, "in")
            os.makedirs(ind)
            xs = []
            for x in self.xs:
                p = os.path.join(ind, f"f{x}.txt")
                with open(p, "w") as f: f.write(str(x) if self.src != "s3" else "stand-in")
                if self.src == "s3": self.st.put(f"s3://bucket/in/f{x}.txt", str(x).encode())
                xs.append(p)
            if self.src == "shared": xs = [xs[0]] * len(xs)
            kw["input_dir"] = Dir(path=ind, url="s3://bucket/in") if self.src == "s3" else ind
            kw["reorder_files"] = False
        target = "s3://bucket/out" if self.out_kind == "s3" else out
        self.out = out
        f = self.fn
        def job():
            if self.is_map: lmap(f, xs, target, **kw)
            else: optimize(f, xs, target, **kw)
        return opt.on_nodes(job, base, self.nodes, self.delay)

    def run(self, prefix=(), fault=None, **kw):
        """fault = ("down"/"up", k): the k-th download or upload fails; ("kill", task, k): the process is killed at its k-th point."""
        main = self.start()
        def setup(sc):
            envsetup.isolate(os.path.join(self.base, "home"))
            if self.st:
                objstore.install(self.st)
                if fault and fault[0] in ("down", "up"):
                    left = [fault[1]]
                    def hook(op, url):
                        if op == ("get" if fault[0] == "down" else "put"):
                            left[0] -= 1
                            if left[0] == 0: raise OSError("injected fault " + url)
                    self.st.hook = hook
        if fault and fault[0] == "kill": kw["kill"] = [fault[1], fault[2], ("q", "p", "f")]
        if fault and fault[0] in ("down", "up"):
            left = [fault[1]]
            who = "_download" if fault[0] == "down" else "_upload"
            def hit(op, path, task):
                if op == "copy" and task is not None and task.name.startswith(who):
                    left[0] -= 1
                    return left[0] == 0
                return False
            kw["fault"] = hit; kw["files"] = True; kw["watch"] = self.base
            kw.setdefault("preempt", ("q", "p"))
        r = sched.execute(setup, main, prefix=prefix, **kw)
        self.ctx.step(r["steps"]); self.ctx.execs += 1
        return r

    def content(self):
        """What a later user finds at the output location."""
        if self.st and self.out_kind == "s3":
            os.makedirs(self.out, exist_ok=True)
            for u in self.st.urls("s3://bucket/out/"):
                p = os.path.join(self.out, u[len("s3://bucket/out/"):])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f: f.write(self.st.get(u))
        files = {}
        for d, _, ff in os.walk(self.out):
            for f in ff:
                with open(os.path.join(d, f), "rb") as h: files[os.path.relpath(os.path.join(d, f), self.out)] = h.read()
        return files

    def missing(self):
        """None if the output is complete, else what is wrong."""
        files = self.content()
        if self.is_map:
            got = {k: v.decode() for k, v in files.items()}
            return None if got == self.want else f"holds {got}, expected {self.want}"
        key = hashlib.sha1(repr(sorted((k, v) for k, v in files.items() if k != "index.json")).encode() + repr(sorted((c["filename"], c["chunk_size"]) for c in json.loads(files["index.json"])["chunks"]) if "index.json" in files else 0).encode()).hexdigest()
        if key not in self.good:
            self.good[key] = self._missing(files)
        self.ctx.state((self.name, key))
        return self.good[key]

    def _missing(self, files):
        if "index.json" not in files: return f"no index.json among {sorted(files)}"
        listed = [c["filename"] for c in json.loads(files["index.json"])["chunks"]]
        have = [f for f in files if f.endswith(".bin")]
        if sorted(listed) != sorted(have): return f"index lists {listed}, found {sorted(have)}"
        try: got = opt.read(self.out)
        except Exception as e: return f"reading raises {e!r}"
        want = self.want if self.src != "shared" else ["<0>"] * self.n
        return None if got == want else f"reads {got}, expected {want}"

    def judge(self, r, fault, prefix=()):
        what = f"{self.name} {CONFIGS[self.name]}, fault {fault}, bad input {self.bad}, schedule {list(prefix)}"
        if r["status"] in ("died", "diverged"): raise RuntimeError(f"{what}: {r['status']} {r['detail']}")
        if self.delay and self.out_kind == "s3":
            # listed finding: to a node that starts late the objects of the other nodes look like an older dataset
            late = [t for t in r["tasks"] if t[0].startswith("node_main")][self.delay.index(100)]
            if "mode" not in self.kw and late[2] == 1 and "already contains an optimized" in str(late[3]) or "mode" in self.kw and not r["main_done"] and f"{late[0]}: s sleep" in r["detail"]:
                self.ctx.known_or_raise(f"{what}: {opt.short(r)}", "cloud-late-node")
                return
        if not r["main_done"] and self.nodes > 1 and (self.bad is not None or fault):
            # listed finding: a node failed and said so; the merging one keeps waiting for its index
            nodes = [t for t in r["tasks"] if t[0].startswith("node_main")]
            if nodes[-1][1] is False and not any(t[1] is False for t in r["tasks"] if t[0].startswith("DataWorker")) and any(t[2] == 1 and any(x in str(t[3]) for x in (("Failed processing", BAD) if self.bad is not None else ("upload", "injected fault"))) for t in nodes[:-1]):
                self.ctx.known_or_raise(f"{what}: the run never ends: {opt.short(r)}", "merging-node-waits")
                return
        if not r["main_done"]: raise mc.Violation(f"{what}: the run never ends: {opt.short(r)}")
        if r["exc"] is None:
            m = self.missing()
            if m: raise mc.Violation(f"{what}: the run reports success, but the output {m}\n{opt.short(r)}")
            if self.bad is not None: raise mc.Violation(f"{what}: the function failed, yet the run reports success")
            if r["status"] != "ok" and not (fault and fault[0] == "kill"): raise mc.Violation(f"{what}: {opt.short(r)}")
        else:
            if fault is None and self.bad is None: raise mc.Violation(f"{what}: {opt.short(r)}\n{r['tb'][-2000:]}")
            if self.bad is not None and self.nodes == 1 and BAD not in r["exc"][1] and not isinstance(self.fn, Exits): raise mc.Violation(f"{what}: the error reported does not tell the cause: {r['exc']}")
        self.ctx.outcome((self.name, fault, r["exc"] is None)); self.ctx.state((self.name, fault, self.bad, tuple(prefix)))
        shutil.rmtree(self.base, ignore_errors=True)


def schedules(case, ctx):
    name, bad, bound, part, early = case
    w = World(ctx, name, bad)
    kw = dict(preempt=("q", "p"))
    if name == "shared": kw = dict(preempt=("f",), files=True, watch=w.root)
    if early: kw["early_timeouts"] = True
    n, complete = sched.explore(lambda p: w.run(p, **kw), bound, on=lambda p, r: w.judge(r, None, p), part=part)
    ctx.sample(f"{name}: {n} schedules with at most {bound} deviations")


def faults(case, ctx):
    name, kind, part, bound = case
    w = World(ctx, name)
    if kind == "exit":
        for code in (0, 1):
            for bad in w.xs:
                w = World(ctx, name, bad, Exits(bad, code))
                w.judge(w.run(preempt=()), ("exit", code))
        return
    if kind == "kill":
        r = w.run(preempt=(), )
        names = [t[0] for t in r["tasks"] if t[0] != "main" and not t[0].startswith("node_main")]
        jobs = [("kill", t, k) for t in names for k in range(1, 40)]
        dead = set()
        for f in jobs[part[0]::part[1]]:
            if f[1] in dead: continue
            for_all = lambda p, r, f=f: w.judge(r, f, p)
            rs = []
            sched.explore(lambda p, f=f: rs.append(w.run(p, f, preempt=("q", "p") if bound else ())) or rs[-1], bound, on=for_all)
            if not any(t[0] == f[1] and t[2] == -9 for t in rs[0]["tasks"]): dead.add(f[1])  # it has fewer points
        return
    k = 0
    while True:
        k += 1
        f = (kind, k)
        hits = [0]
        r = w.run((), f)
        if r["exc"] is None and k > len(w.want) * 3 + 4: break
        w.judge(r, f)
        if bound and k <= 2:
            sched.explore(lambda p, f=f: w.run(p, f), bound, on=lambda p, r, f=f: w.judge(r, f, p))


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C12", rule="all schedules with at most `bound` deviations from the default one; every single failing call of the function, download or upload; every process killed at each of its queue or process operations",
                 bounds=f"{len(CONFIGS)} configurations of 2-4 inputs, 1-3 workers, 1-3 nodes, 1-2 downloaders and uploaders; {1 if quick else 2} deviations",
                 assumptions=["processes switch at queue and process operations (and at file operations for the shared-file configuration)", "a killed process dies between two queue operations, not while holding the internal lock of a queue", "queues are unbounded and FIFO"])
    b = 1 if quick else 2
    k = 2 if quick else 16
    cases = [(n, None, b, (i, k), False) for n in CONFIGS for i in range(k)]
    cases += [(n, bad, b, (i, k), False) for n in (("plain", "two", "gen", "files", "map2", "nodes") if quick else ("plain", "two", "gen", "s3out", "files", "map2", "checkpoint", "nodes")) for bad in range(CONFIGS[n][0]) for i in range(k) if not quick or bad == 0]
    cases += [(n, bad, 0, (0, 1), False) for n in ("plain", "two", "gen", "s3out", "files", "map2", "checkpoint", "nodes") for bad in range(CONFIGS[n][0])]
    cases += [(n, None, 1, (i, k), True) for n in ("plain", "two", "files", "map", "nodes") for i in range(k)] if not quick else [(n, None, 1, (i, k), True) for n in ("two", "files") for i in range(k)]
    c.phase("schedules", cases, schedules)
    fb = 0 if quick else 1
    cases = [(n, "kill", (i, k), fb) for n in CONFIGS for i in range(k) if CONFIGS[n][1] == 1]
    cases += [(n, "down", None, fb) for n in ("files", "files2", "s3in", "shared")] + [(n, "up", None, fb) for n in CONFIGS if CONFIGS[n][1] == 1 or n == "nodess3"]
    cases += [(n, "exit", None, 0) for n in ("plain", "two", "s3out")]
    c.phase("faults", cases, faults)
    return c
