from lib import mc, ds, envsetup, objstore, opt, sched
import functools, json, os, random
from collections import Counter
import numpy as np
import litdata
from litdata import map as lmap
from litdata.processing.readers import BaseReader
from litdata.streaming.resolver import Dir

BAD = "the function fails here"


# ---- the function -----------------------------------------------------------------------------------------------------
def files_of(kind, x, out):
    """Relative path -> content of the files that the function writes for input number x."""
    t = f"<{x}>" * (1 + x % 3)
    return {
        "one": {f"{x}.txt": t}, "none": {}, "some": {f"{x}.txt": t} if x % 2 else {}, "many": {f"{x}-{j}.txt": t + str(j) for j in range(x % 4)},
        "deep": {f"a/b{x}/c/{x}.bin": t, f"a/{x}": t + "!"}, "same": {f"d{x}/out.txt": t, f"d{x}/e/out.txt": t + "."},
        "empty": {f"{x}": ""}, "hidden": {f".h{x}": t, f".d/.{x}": t}, "names": {f"{x} é ?#%.txt": t, f"{x}&'\"*.txt": t},
        "checkpoint": {f".checkpoints/checkpoint-{x}-0123456789abcdef0123456789abcdef.json": t, f"p{x}/.checkpoints/f": t}, "dataset": {f"chunk-{x}-0.bin": t, f"{x}-index.json": t, f"index{x}.json": t},
        "again": {f"x{x}" + out + "/f": t, f"y{x}" + out: t + "y"}, "big": {f"{x}": t * 60000}, "link": {f"{x}.txt": t, f"l/{x}.txt": t},
        "tmp": {f"tmp{x}": t, f"{x}.tmp": t, f"{x}.lock": t},
    }[kind]


class Write:
    """Notes every call in a file and writes the files of `kind`; fails at input number `bad` after writing `after` of them."""
    def __init__(self, log, kind, bad=None, how="error", after=0): self.log, self.kind, self.bad, self.how, self.after = log, kind, bad, how, after
    def __call__(self, item, output_dir):
        number, shown = self.number(item), json.dumps(show(item))
        files = files_of(self.kind, number, output_dir)
        note(self.log, [number, shown, files, sorted(os.listdir(output_dir))])
        for k, (rel, text) in enumerate(files.items()):
            if number == self.bad and k == self.after: self.fail()
            p = os.path.join(output_dir, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if self.kind == "link" and rel.startswith("l/"): os.symlink(os.path.join(output_dir, f"{number}.txt"), p)
            else:
                with open(p, "w") as f: f.write(text)
        if self.kind == "empty": os.makedirs(os.path.join(output_dir, f"e{number}"))
        if number == self.bad: self.fail()
    def fail(self):
        if self.how == "error": raise ValueError(BAD)
        if self.how == "own": raise Own(1, 2)
        if self.how == "exit": raise SystemExit(0)
    def number(self, item):
        if isinstance(item, str): return int(read(item))
        if isinstance(item, dict): return self.number(item["p"])
        if isinstance(item, (list, tuple)): return self.number(item[0])
        return int(item)

class Own(Exception):
    """Cannot be rebuilt from its arguments by pickle."""
    def __init__(self, a, b): super().__init__(BAD)


def plain_fn(item, output_dir, inner=None): inner(item, output_dir)
def read(p):
    with open(p) as f: return f.read()
def note(log, what):
    fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(what) + "\n").encode())
    os.close(fd)


def show(x):
    """A description of an input with its types."""
    if isinstance(x, dict): return {"d": [[show(k), show(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)): return {type(x).__name__: [show(v) for v in x]}
    return [type(x).__name__, os.path.basename(x) if isinstance(x, str) else repr(x)]


# ---- the output location ----------------------------------------------------------------------------------------------
class Out:
    """The output location and what it holds."""
    def __init__(self, ctx, kind, store):
        self.kind, self.st = kind, store
        self.root = os.path.realpath(ctx.scratch("o"))
        self.url = {"s3": "s3://bucket/some/out", "gs": "gs://bucket/out", "dir": "s3://bucket/d/out", "s3slash": "s3://bucket/out/"}.get(kind)
        self.path = os.path.join(self.root, {"new": "a/b/new", "ckpt": ".checkpoints/o", "chunks": "chunks/o"}.get(kind, "o"))
        if kind == "local": os.makedirs(self.path)
    def given(self): return Dir(path=self.path, url=self.url) if self.kind == "dir" else self.url or self.path
    def put(self, rel, text):
        if self.url: return self.st.put(self.url.rstrip("/") + "/" + rel, text.encode())
        p = os.path.join(self.path, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f: f.write(text)
    def holds(self):
        if self.url:
            b = self.url.rstrip("/") + "/"
            return {u[len(b):]: self.st.get(u).decode() for u in self.st.urls(b)}
        r = {}
        for d, _, ff in os.walk(self.path):
            for f in ff: r[os.path.relpath(os.path.join(d, f), self.path)] = read(os.path.join(d, f))
        return r
    def around(self):
        """Everything outside of it."""
        if not self.url: return {}
        return {u: self.st.get(u) for u in self.st.urls() if not u.startswith(self.url.rstrip("/") + "/")}


def calls(log):
    return [json.loads(l) for l in open(log)] if os.path.exists(log) else []


def start(ctx, kind, dest, **kw):
    st = objstore.Store(ctx.scratch("store"))
    log = os.path.join(ctx.scratch("log"), "calls")
    return st, log, Out(ctx, dest, st), Write(log, kind, **kw)


def go(ctx, st, nodes, main, what, order=None, **kw):
    """The nodes one after the other; the results of each."""
    rs = []
    for node in order or range(nodes):
        def prog():
            objstore.install(st)
            return main()
        r = opt.run(ctx.scratch("home"), prog, nodes=(nodes, node) if nodes > 1 else None, **kw)
        ctx.step(r["steps"]); ctx.execs += 1
        if r["status"] in ("died", "diverged"): raise RuntimeError(f"{what}: {r['status']} {r['detail']}")
        if not r["main_done"]: raise mc.Violation(f"{what}, node {node}: never ends: {opt.short(r)}")
        rs.append(r)
    return rs


def delivered(what, log, out, want_calls, before=None):
    """Every input once, unaltered, each given an empty folder, and its files at their place."""
    cs = calls(log)
    got = Counter(c[1] for c in cs)
    if got != Counter(want_calls): raise mc.Violation(f"{what}: calls with {sorted(got.elements())}, expected {sorted(want_calls)}")
    if any(c[3] for c in cs): raise mc.Violation(f"{what}: the folder given to the function already held {[c[3] for c in cs if c[3]][0]}")
    want = dict(before or {})
    for c in cs: want.update(c[2])
    have = out.holds()
    if have != want:
        bad = sorted(k for k in set(have) | set(want) if have.get(k) != want.get(k))[:5]
        raise mc.Violation(f"{what}: the output differs at {[(k, have.get(k, 'missing')[:50], want.get(k, 'nothing expected')[:50]) for k in bad]}")


# ---- runs -------------------------------------------------------------------------------------------------------------
def runs(case, ctx):
    n, workers, nodes, kind, dest, extra = case
    st, log, out, f = start(ctx, kind, dest)
    xs = list(range(n))
    kw = dict(extra)
    fn = f
    if kw.pop("partial", None): fn = functools.partial(plain_fn, inner=f)
    st.put("s3://bucket/some/outside", b"1"); st.put("s3://bucket/out2/x", b"2"); st.put("gs://bucket/ou", b"3")
    around = out.around()
    what = f"map of {n} inputs ({kind} files each) into {out.given()} with {workers} workers x {nodes} nodes, {dict(extra)}"
    for r in go(ctx, st, nodes, lambda: lmap(fn, list(xs), out.given(), num_workers=workers, **kw), what, order=range(nodes)):
        if not opt.ok(r): raise mc.Violation(f"{what}: {opt.short(r)}\n{r['tb'][-2000:]}")
    b = kw.get("batch_size") or 1
    groups = [xs[i:i + b] for i in range(0, n, b)] if b > 1 else xs
    delivered(what, log, out, [json.dumps(show(g)) for g in groups])
    if out.around() != around: raise mc.Violation(f"{what}: objects outside of the output changed")
    ctx.state(case); ctx.outcome((len(groups), kind, workers * nodes)); ctx.sample(what)


class Split(BaseReader):
    def remap_items(self, items, num_workers): return [(i, k) for i in items for k in range(i)]
    def read(self, item): return [item[0] * 10 + item[1], "read"]


def sources(case, ctx):
    kind, n, workers, nodes, src, extra = case
    dest = "s3" if src == "s3" else "local"
    st, log, out, f = start(ctx, "same" if kind == "reader" else "deep", dest)
    kw = dict(extra)
    root = os.path.realpath(ctx.scratch("in"))
    ind = os.path.join(root, "in")
    os.makedirs(ind)
    before = {}
    paths = []
    for i in range(n):
        p = os.path.join(ind, "sub" if i % 2 else "", f"f{i}.txt")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h: h.write(str(i) if src != "s3" else str(i + 90))
        if src == "s3": st.put("s3://bucket/in/" + os.path.relpath(p, ind), str(i).encode())
        before[p] = read(p); paths.append(p)
    if kind == "reader": xs = [2, 0, 3, 1][:n]; kw["reader"] = Split(); want = [[i * 10 + k, "read"] for i in xs for k in range(i)]
    elif kind == "loader":
        v = (3, 2, 2)[:n]
        d = ctx.scratch("src"); ds.write_layout(d, v)
        want = None
    else:
        xs = {"paths": lambda i: paths[i], "tuples": lambda i: (paths[i], i), "dicts": lambda i: {"n": i, "p": paths[i]}, "shared": lambda i: (paths[i], paths[0])}[kind]
        xs = [xs(i) for i in range(n)]; want = xs
        kw["input_dir"] = Dir(path=ind, url="s3://bucket/in") if src == "s3" else ind
    what = f"map of {kind} inputs ({n}, {src}) with {workers} workers x {nodes} nodes, {dict(extra)}"
    if kind == "loader":
        f = LoaderFn(log, "one")
        def main():
            l = litdata.StreamingDataLoader(litdata.StreamingDataset(d), batch_size=1, num_workers=0, collate_fn=list)
            return lmap(f, l, out.given(), num_workers=1, **kw)
        want = [[i] for i in range(sum(v))]
    else:
        def main(): return lmap(f, list(xs), out.given(), num_workers=workers, **kw)
    for r in go(ctx, st, nodes, main, what):
        if not opt.ok(r): raise mc.Violation(f"{what}: {opt.short(r)}\n{r['tb'][-2000:]}")
    wc = [json.dumps(show(w)) for w in want]
    cs = calls(log)
    if kind not in ("loader",) and sorted(c[1] for c in cs) == sorted(wc) and kind != "reader":
        wrong = [c for c in cs if c[0] != wc.index(c[1])]
        if wrong: raise mc.Violation(f"{what}: the function read {wrong[0][0]} from the file of {wrong[0][1]}")
    delivered(what, log, out, wc)
    now = {p: read(p) if os.path.exists(p) else None for p in before}
    if now != before: raise mc.Violation(f"{what}: input files changed or removed: {[p for p in now if now[p] != before[p]]}")
    ctx.state(case); ctx.outcome((len(want), kind))


class LoaderFn(Write):
    def __call__(self, item, output_dir): Write.__call__(self, [ds.dec(v) for v in item], output_dir)


# ---- failures ---------------------------------------------------------------------------------------------------------
def failures(case, ctx):
    n, workers, nodes, bad, how, after, dest, extra = case
    st, log, out, f = start(ctx, "same", dest, bad=bad, how=how, after=after)
    kw = dict(extra)
    out.put("old.txt", "old")
    what = f"map of {n} inputs, input {bad} fails ({how}, after {after} files), into {out.given()} with {workers} workers x {nodes} nodes, {kw}"
    rs = go(ctx, st, nodes, lambda: lmap(f, list(range(n)), out.given(), num_workers=workers, **kw), what)
    if all(r["exc"] is None for r in rs): raise mc.Violation(f"{what}: reports success")
    failed = [r for r in rs if r["exc"] is not None]
    if how in ("error", "own") and not any(BAD in str(r["exc"]) for r in failed): raise mc.Violation(f"{what}: the error reported does not tell the cause: {failed[0]['exc']}")
    twice = [k for k, m in Counter(c[0] for c in calls(log)).items() if m > 1]
    if twice: raise mc.Violation(f"{what}: inputs {twice} were processed twice")
    # whatever was delivered is right
    want = {"old.txt": "old"}
    for c in calls(log): want.update(c[2])
    have = out.holds()
    wrong = [k for k in have if have[k] != want.get(k)]
    if wrong or "old.txt" not in have: raise mc.Violation(f"{what}: the output holds {sorted(have)}, with unexpected {wrong}")
    ctx.state(case); ctx.outcome((how, len(have)))


def transfers(case, ctx):
    n, workers, what_fails, k, extra = case
    st, log, out, f = start(ctx, "same", "s3")
    root = os.path.realpath(ctx.scratch("in"))
    kw = dict(extra)
    xs = list(range(n))
    if what_fails == "get":
        xs = []
        for i in range(n):
            p = os.path.join(root, f"f{i}.txt")
            with open(p, "w") as h: h.write(str(i + 90))
            st.put(f"s3://bucket/in/f{i}.txt", str(i).encode()); xs.append(p)
        kw["input_dir"] = Dir(path=root, url="s3://bucket/in")
    left = [k]
    hit = os.path.join(ctx.scratch("hit"), "hit")
    def hook(op, url):
        if op == what_fails and os.path.basename(url).startswith("f%d" % (k - 1) if what_fails == "get" else "out") and (what_fails == "get" or f"/d{k // 2}/" in url and ("/e/" in url) == (k % 2 == 1)):
            open(hit, "w").close()
            raise OSError("injected fault " + url)
    what = f"map of {n} inputs with {workers} workers, the {what_fails} of file {k} fails, {dict(extra)}"
    def main():
        st.hook = hook
        return lmap(f, xs, out.given(), num_workers=workers, **kw)
    r = go(ctx, st, 1, main, what)[0]
    if not os.path.exists(hit): raise mc.Violation(f"{what}: the fault was not reached")
    if r["exc"] is None: raise mc.Violation(f"{what}: reports success although a file is missing: {sorted(out.holds())}")
    ctx.state(case); ctx.outcome((what_fails, r["exc"][1][:30]))


# ---- existing outputs -------------------------------------------------------------------------------------------------
SIBLINGS = {"none": [], "name": ["s3://bucket/some/out2/f", "s3://bucket/some/outer"], "object": ["s3://bucket/some/out"], "parent": ["s3://bucket/some/f", "s3://bucket/other/some/out/f"]}


def existing(case, ctx):
    """A sequence of runs over one location; each may ask for an error when it is not empty."""
    dest, before, siblings, seq = case
    st, log, out, f = start(ctx, "one", dest)
    for u in SIBLINGS[siblings]: st.put(u, b"s")
    hold = {}
    for p in before: out.put(p, "before " + p); hold[p] = "before " + p
    around = out.around()
    for step, (lo, hi, ask, workers) in enumerate(seq):
        if os.path.exists(log): os.remove(log)
        what = f"{dest} holding {sorted(hold)}, siblings {siblings}: run {step} of {seq} (inputs {lo}..{hi - 1}, error_when_not_empty={ask}, {workers} workers)"
        r = go(ctx, st, 1, lambda: lmap(f, list(range(lo, hi)), out.given(), num_workers=workers, error_when_not_empty=ask), what)[0]
        if ask and hold:
            if r["exc"] is None: raise mc.Violation(f"{what}: not refused")
            if calls(log): raise mc.Violation(f"{what}: the function was called before the refusal")
        else:
            if not opt.ok(r): raise mc.Violation(f"{what}: {opt.short(r)}\n{r['tb'][-2000:]}")
            delivered(what, log, out, [json.dumps(show(i)) for i in range(lo, hi)], hold)
        hold = hold if ask and hold else out.holds()
        if out.holds() != hold: raise mc.Violation(f"{what}: refused, but the location changed to {sorted(out.holds())}")
        if out.around() != around: raise mc.Violation(f"{what}: objects outside of the output changed")
    ctx.state(case); ctx.outcome((dest, len(hold)))


# ---- schedules --------------------------------------------------------------------------------------------------------
def schedules(case, ctx):
    n, workers, nodes, kind, dest, extra, bound, part = case
    base = ctx.scratch("s")
    k = [0]
    def one(prefix):
        k[0] += 1
        c = Sub(ctx, os.path.join(base, str(k[0])))
        st, log, out, f = start(c, kind, dest)
        def setup(sc): objstore.install(st)
        r = sched.execute(setup, opt.on_nodes(lambda: lmap(f, list(range(n)), out.given(), num_workers=workers, **dict(extra)), c.base, nodes), prefix=prefix, preempt=("q", "p"))
        ctx.step(r["steps"]); ctx.execs += 1
        what = f"map of {n} inputs ({kind}) with {workers} workers x {nodes} nodes into {dest}, {dict(extra)}, schedule {list(prefix)}"
        if r["status"] in ("died", "diverged"): raise RuntimeError(f"{what}: {r['status']} {r['detail']}")
        if not opt.ok(r): raise mc.Violation(f"{what}: {opt.short(r)}\n{r['tb'][-2000:]}")
        delivered(what, log, out, [json.dumps(show(i)) for i in range(n)])
        ctx.state((case[:5], tuple(c[0] for c in calls(log))))
        c.drop()
        return r
    m, complete = sched.explore(one, bound, on=lambda p, r: None, part=part)
    ctx.outcome((n, workers, nodes)); ctx.sample(f"{case[:6]}: {m} schedules with at most {bound} deviations")


class Sub:
    """Scratch folders below a base."""
    def __init__(self, ctx, base): self.ctx, self.base = ctx, base; os.makedirs(base)
    def scratch(self, name):
        p = os.path.join(self.base, name); os.makedirs(p, exist_ok=True); return p
    def drop(self):
        import shutil; shutil.rmtree(self.base, ignore_errors=True)


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C21", rule="every (inputs, workers, nodes, files per input, location, options) combination within the bounds, every failing input and transfer, every sequence of runs over one location, and all schedules with at most `bound` deviations",
                 bounds=f"1-{5 if quick else 9} inputs, 1-4 workers, 1-3 nodes, 15 kinds of output files, 8 kinds of locations, {1 if quick else 2} deviations",
                 assumptions=["one schedule per case except in the phase `schedules` (and C12)", "nodes run one after the other, side by side only in the phase `schedules`", "no two inputs write the same file"])
    kinds = ("one", "none", "some", "many", "deep", "same", "empty", "hidden", "names", "checkpoint", "dataset", "again", "big", "link", "tmp")
    dests = ("local", "new", "ckpt", "chunks", "s3", "gs", "dir", "s3slash")
    N = (1, 2, 4, 5) if quick else range(1, 10)
    cases = [(n, w, k, kind, dest, ()) for n in N for w in (1, 2, 3, 4) for k in (1, 2, 3) for kind in kinds for dest in dests
             if not quick or (n + w + k + kinds.index(kind) + 2 * dests.index(dest)) % 29 == 0]
    ext = [{"num_uploaders": 2}, {"num_uploaders": 3}, {"num_downloaders": 2}, {"reorder_files": False}, {"batch_size": 1}, {"batch_size": 2}, {"batch_size": 3}, {"batch_size": 9}, {"num_workers": 2} if False else {"partial": True},
           {"error_when_not_empty": True}, {"weights": "up"}, {"weights": "one"}, {"weights": "big"}]
    for n in (1, 3, 5) if quick else N:
        for e in ext:
            for w in (1, 2, 3):
                for k in (1, 2):
                    for kind, dest in (("many", "local"), ("same", "s3"), ("deep", "new")):
                        if quick and (n // 2 + w + k + len(kind) + ext.index(e)) % 4: continue
                        if k > 1 and "error_when_not_empty" in e: continue
                        e2 = dict(e)
                        if "weights" in e2: e2["weights"] = {"up": list(range(1, n + 1)), "one": [1] * n, "big": [50] + [1] * (n - 1)}[e2["weights"]]
                        cases.append((n, w, k, kind, dest, tuple(sorted(e2.items()))))
    c.phase("runs", cases, runs)
    cases = [(kind, n, w, k, src, tuple(e.items())) for kind in ("paths", "tuples", "dicts", "shared") for n in (1, 3, 4) for w in (1, 2, 3) for k in (1, 2) for src in ("local", "s3")
             for e in ({}, {"reorder_files": False}, {"num_downloaders": 2}, {"num_uploaders": 2}) if not quick or (n + w + k + len(kind) + len(e)) % 3 == 0]
    cases += [("reader", n, w, k, "none", ()) for n in (1, 3, 4) for w in (1, 2, 3) for k in (1, 2)] + [("loader", n, 1, 1, "none", ()) for n in (1, 2, 3)]
    c.phase("sources", cases, sources)
    cases = [(n, w, k, bad, how, after, dest, e) for n in (1, 3, 4) for w in (1, 2, 3) for k in (1, 2) for bad in range(n) for how in ("error", "own", "exit") for after in (0, 1, 2) for dest in ("local", "s3") for e in ((), (("num_uploaders", 2),))
             if not quick or (n + w + k + bad + after + len(how) + len(dest)) % 6 == 0 and (k == 1 or not e)]
    c.phase("failures", cases, failures)
    cases = [(n, w, "put", k, e) for n in (1, 2, 3) for w in (1, 2) for k in range(2 * n) for e in ((), (("num_uploaders", 2),))]
    cases += [(n, w, "get", k, e) for n in (1, 2, 3) for w in (1, 2) for k in range(1, n + 1) for e in ((), (("num_downloaders", 2),))]
    c.phase("transfers", cases, transfers)
    step = [(0, 2, False, 1), (0, 2, True, 1), (1, 3, False, 2), (2, 4, True, 2)]
    seqs = [(a,) for a in step] + [(a, b) for a in step for b in step] + ([] if quick else [(a, b, d) for a in step for b in step for d in step])
    cases = [(dest, before, sib, seq) for dest in ("local", "new", "s3", "gs", "dir") for before in ((), ("old.txt",), ("1.txt", "z/y.txt"), (".checkpoints/x",)) for sib in (SIBLINGS if dest == "s3" else ("none",)) for seq in seqs
             if not quick or len(seq) == 1 or (len(before) + len(sib) + len(dest) + seqs.index(seq)) % 6 == 0]
    c.phase("existing", cases, existing)
    b = 1 if quick else 2
    k = 4 if quick else 16
    cases = [(n, w, nd, kind, dest, e, b, (i, k)) for n, w, nd, kind, dest, e in ([(2, 2, 1, "same", "local", ()), (2, 1, 1, "deep", "s3", (("num_uploaders", 2),)), (2, 1, 2, "one", "s3", ())] + ([] if quick else [(3, 3, 1, "one", "local", ()), (2, 1, 2, "one", "local", ())])) for i in range(k)]
    c.phase("schedules", cases, schedules)
    return c
