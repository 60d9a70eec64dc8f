from lib import mc, ds, envsetup, objstore, opt, sched
import builtins, contextlib, itertools, json, os, queue
from litdata.streaming import fs_provider as fsp
from litdata.streaming.resolver import Dir, _assert_dir_has_index_file, _assert_dir_is_empty
from litdata.processing import data_processor as dp, functions as fn
from litdata.processing.utilities import read_index_file_content

# One folder `data` (below `base`), what may lie in it and what may lie next to it.
INSIDE = ["index.json", "chunk-0-0.bin", "chunk-0-1.bin", ".checkpoints/config.json", ".checkpoints/checkpoint-0.json", "sub/chunk-0-0.bin"]
NEAR = ["data", "data2/index.json", "data2/.checkpoints/config.json", "data.bin", "data/.checkpoints2/x", "data-1/chunk-0-0.bin", "dat/index.json", "x/data/index.json", "Data/index.json", "data /chunk-0-0.bin"]


def content(u): return b"content of " + u.encode()


def setup(ctx, case):
    sch, base, inside, near, page = case[:5]
    st = objstore.MemStore(page); objstore.install(st)
    root = f"{sch}://bucket/{base}"
    for k in inside: st.put(root + "data/" + k, content(root + "data/" + k))
    for k in near: st.put(root + k, content(root + k))
    # the same path without or with another leading slash is another folder
    for u in [f"{sch}://bucket{o}data/{k}" for o in ("/", "//", "///") if f"/{base}" != o for k in INSIDE[:4]] if base.startswith("/") or len(near) > 1 else (): st.put(u, content(u))
    for u in (f"{sch}://bucket2/{base}data/index.json", f"{sch}://bucket2/{base}data/chunk-0-0.bin"): st.put(u, content(u))
    return st, root + "data"


def judge(what, st, before, gone, may_go=(), new={}):
    """Exactly the intended objects are gone, exactly the intended ones are new, all others are unchanged."""
    after = st.snapshot()
    want = {u: d for u, d in before.items() if u not in gone}
    lost = [u for u in want if u not in after and u not in may_go]
    left = [u for u in gone if u in after]
    for u, d in new.items():
        if after.get(u) != d: raise mc.Violation(f"{what}: {u} isn't stored ({'absent' if u not in after else 'other content'})")
    extra = [u for u in after if u not in before and u not in new]
    changed = [u for u in after if u in before and after[u] != before[u] and u not in new]
    if lost: raise mc.Violation(f"{what}: removed {lost} as well")
    if left: raise mc.Violation(f"{what}: left {left}")
    if extra or changed: raise mc.Violation(f"{what}: touched {extra + changed}")


def attempt(f):
    try: return f(), None
    except Exception as e: return None, e


@contextlib.contextmanager
def confined(root, what):
    """Nothing is created or written outside of `root`: such calls are stopped before they take effect."""
    real = builtins.open, os.makedirs, os.mkdir
    def check(p):
        q = os.path.realpath(os.fspath(p)) if isinstance(p, (str, os.PathLike)) else root
        if not (q + "/").startswith(root + "/"): raise Escape(f"{what}: would write {p}")
    def open_(p, mode="r", *a, **kw):
        if set(mode) & set("wax+"): check(p)
        return real[0](p, mode, *a, **kw)
    def mk(f):
        def g(p, *a, **kw):
            if not os.path.isdir(p): check(p)
            return f(p, *a, **kw)
        return g
    builtins.open, os.makedirs, os.mkdir = open_, mk(real[1]), mk(real[2])
    try: yield
    finally: builtins.open, os.makedirs, os.mkdir = real

class Escape(mc.Violation): """A write outside of the folder."""


def single(case, ctx):
    sch, base, inside, near, page, slash = case
    for op in ("empty", "none", "none+ckpt", "append", "overwrite", "clean", "delete", "deletefile", "exists", "download", "read", "copy", "upload", "root"):
        st, url = setup(ctx, case)
        if slash: url += "/"
        folder = url.rstrip("/") + "/"
        before = st.snapshot()
        inobj = [u for u in before if u.startswith(folder)]
        what = f"{op} on {url} among {sorted(before)} ({page} per page)"
        if op == "empty":
            _, e = attempt(lambda: _assert_dir_is_empty(Dir(None, url)))
            if isinstance(e, RuntimeError) != bool(inobj) or (e and not isinstance(e, RuntimeError)): raise mc.Violation(f"{what}: {e!r}")
            judge(what, st, before, [])
            ctx.outcome((op, type(e).__name__))
        elif op in ("none", "none+ckpt", "append"):
            kw = dict(mode="append" if op == "append" else None, use_checkpoint=op == "none+ckpt")
            _, e = attempt(lambda: _assert_dir_has_index_file(Dir(None, url), **kw))
            has = folder + "index.json" in before
            if op != "append" and has and not isinstance(e, RuntimeError): raise mc.Violation(f"{what}: {e!r} although a dataset is there")
            if e and (op == "append" or not inobj or (op == "none+ckpt" and not has)): raise mc.Violation(f"{what}: {e!r}")
            judge(what, st, before, [], may_go=inobj if e is None and op == "none" else ())
            ctx.outcome((op, type(e).__name__))
        elif op == "overwrite":
            _assert_dir_has_index_file(Dir(None, url), mode="overwrite")
            judge(what, st, before, [u for u in inobj if not u.startswith(folder + "sub/") and not u.startswith(folder + ".checkpoints2")], may_go=inobj)
        elif op == "clean":
            p = dp.DataProcessor.__new__(dp.DataProcessor)
            p.output_dir, p.use_checkpoint, p.storage_options, p.num_workers = Dir(None, url), True, {}, 1
            p._cleanup_checkpoints()
            judge(what, st, before, [u for u in inobj if u.startswith(folder + ".checkpoints/")])
        elif op == "delete":
            fsp._get_fs_provider(url).delete_file_or_directory(url)
            judge(what, st, before, inobj, may_go=[folder[:-1]])
        elif op == "deletefile":
            for u in sorted(before):
                if u not in inobj: continue
                now = st.snapshot()
                fsp._get_fs_provider(u).delete_file_or_directory(u)
                judge(f"{op} {u} among {sorted(now)}", st, now, [u]); ctx.step()
        elif op == "exists":
            for u in [folder + k for k in INSIDE] + [folder + "inde", folder + "chunk-0-", folder + "sub", folder[:-1]]:
                got = fsp._get_fs_provider(u).exists(u)
                if bool(got) != (u in before): raise mc.Violation(f"{u} exists: {got}, among {sorted(before)}")
                ctx.step()
            for u in (folder + "index.json",):
                r = []
                if u in before: dp._wait_for_file_to_exist(u, 0.001)
                ctx.step()
        elif op == "download":
            tgt = ctx.scratch("dl")
            with confined(os.path.realpath(tgt), what): fsp._get_fs_provider(url).download_directory(url, tgt)
            got = sorted(open(os.path.join(d, f), "rb").read() for d, _, ff in os.walk(tgt) for f in ff)
            if got != sorted(before[u] for u in inobj): raise mc.Violation(f"{what}: fetched {got}")
            judge(what, st, before, [])
        elif op == "read":
            u = folder + "index.json"
            if u in before:
                st.put(u, json.dumps({"of": u}).encode()); before = st.snapshot()
            for n in near:
                if n.endswith("index.json"): st.put(url[:url.rindex("data")] + n, b'{"of": "other"}'); before = st.snapshot()
            got = read_index_file_content(Dir(None, url))
            if got != ({"of": u} if u in before else None): raise mc.Violation(f"{what}: {got}")
            judge(what, st, before, [])
        elif op == "copy":
            for k in INSIDE[:2]:
                if folder + k not in before: continue
                now = st.snapshot()
                dst = f"{sch}://bucket2/{base}new #1/{k}"
                fsp._get_fs_provider(dst).copy(folder + k, dst)
                judge(what, st, now, [], new={dst: before[folder + k]}); ctx.step()
        elif op == "root":
            for u in (f"{sch}://bucket", f"{sch}://bucket/", f"{sch}://empty", f"{sch}://empty/"):
                _, e = attempt(lambda: _assert_dir_is_empty(Dir(None, u)))
                if isinstance(e, RuntimeError) != any(x.startswith(u.rstrip("/") + "/") for x in before) or (e and not isinstance(e, RuntimeError)): raise mc.Violation(f"empty {u} among {sorted(before)}: {e!r}")
            judge(what, st, before, [])
        elif op == "upload":
            cache = ctx.scratch("cache")
            new = {}
            q = queue.Queue()
            os.makedirs(cache + "/.checkpoints")
            for k, to in (("chunk-0-0.bin", "chunk-0-0.bin"), ("chunk-0-2.zstd.bin", "chunk-0-2.zstd.bin"), (".checkpoints/checkpoint-0-" + "a" * 32 + ".json", ".checkpoints/checkpoint-0.json")):
                data = b"uploaded " + k.encode()
                with open(os.path.join(cache, k), "wb") as f: f.write(data)
                q.put(os.path.join(cache, k)); new[folder + to] = data
            q.put(None)
            dp._upload_fn(q, queue.Queue(), cache, Dir(None, url))
            judge(what, st, before, [], new=new)
        ctx.step(); ctx.state((op, case)); ctx.execs += 1
    ctx.sample(case)


def resume(case, ctx):
    """The checkpoint that is picked up is the one of the folder."""
    sch, base, own, near, page, slash, cwd = case
    st = objstore.MemStore(page); objstore.install(st)
    root = f"{sch}://bucket/{base}"
    items = [[1, 2], [3]]
    conf = json.dumps({"num_workers": 2, "workers_user_items": items}).encode()
    def ck(n): return json.dumps({"chunks": [{"filename": f"chunk-{n}.bin"}], "config": {"n": n}, "done_till_index": n}).encode()
    d = root + "data/.checkpoints/"
    for k in own: st.put(d + k, conf if k == "config.json" else ck(1 + int(k[11])))
    for j, k in enumerate(near):
        st.put(root + k + "/config.json", conf)
        for w in (0, 1): st.put(root + k + f"/checkpoint-{w}.json", ck(10 * (j + 1) + w))
    wd = ctx.scratch("wd")
    if cwd:
        open(wd + "/config.json", "wb").write(conf); open(wd + "/checkpoint-0.json", "wb").write(ck(77))
    old = os.getcwd(); os.chdir(wd)
    try:
        p = dp.DataProcessor.__new__(dp.DataProcessor)
        p.output_dir, p.use_checkpoint, p.storage_options, p.num_workers = Dir(None, root + "data" + ("/" if slash else "")), True, {}, 2
        before = st.snapshot()
        p._load_checkpoint_config(items)
    finally: os.chdir(old)
    want = [1 + w if "config.json" in own and f"checkpoint-{w}.json" in own else 0 for w in (0, 1)]
    got = list(p.checkpoint_next_index)
    infos = [list(x) for x in p.checkpoint_chunks_info]
    if got != want or infos != [[{"filename": f"chunk-{n}.bin"}] if n else [] for n in want]:
        raise mc.Violation(f"resuming in {root}data with {own}, near {near} ({page} per page, cwd {cwd}): starts at {got} {infos}, expected {want}")
    judge("resume", st, before, [])
    ctx.step(); ctx.execs += 1; ctx.state(case); ctx.outcome(want)


FOLDERS = ["d", "d2", "d/.checkpoints2", "e/d"]


def histories(case, ctx):
    """Every sequence of operations on neighbouring folders, judged against a dictionary of objects."""
    sch, page, first = case
    ops = [(o, f) for o in ("index", "chunk", "ckpt", "overwrite", "clean", "empty") for f in FOLDERS]
    depth = 3 if ctx.tier == "quick" else 4
    st = objstore.MemStore(page); objstore.install(st)
    base = f"{sch}://b/"
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (first,) + rest
        st.clear()
        model = {}
        for f in FOLDERS:
            for k in ("index.json", ".checkpoints/config.json"): model[base + f + "/" + k] = content(f + k)
        for u, d in model.items(): st.put(u, d)
        for i, (o, f) in enumerate(seq):
            url = base + f
            if o in ("index", "chunk", "ckpt"):
                k = {"index": "index.json", "chunk": f"chunk-0-{i}.bin", "ckpt": ".checkpoints/config.json"}[o]
                p = os.path.join(ctx.root, "up"); data = f"{o}{i}".encode()
                open(p, "wb").write(data)
                fsp._get_fs_provider(url).upload_file(p, url + "/" + k); model[url + "/" + k] = data
            elif o == "overwrite":
                _assert_dir_has_index_file(Dir(None, url), mode="overwrite")
                gone = [u for u in model if u.startswith(url + "/")]
                model = {u: d for u, d in model.items() if u not in gone}
            elif o == "clean":
                p = dp.DataProcessor.__new__(dp.DataProcessor)
                p.output_dir, p.use_checkpoint, p.storage_options, p.num_workers = Dir(None, url), True, {}, 1
                p._cleanup_checkpoints()
                model = {u: d for u, d in model.items() if not u.startswith(url + "/.checkpoints/")}
            else:
                _, e = attempt(lambda: _assert_dir_is_empty(Dir(None, url)))
                full = any(u.startswith(url + "/") for u in model)
                if bool(e) != full: raise mc.Violation(f"{seq[:i+1]} ({page} per page): {e!r} with {sorted(model)}")
            if st.snapshot() != model:
                got = st.snapshot()
                raise mc.Violation(f"{seq[:i+1]} ({page} per page): missing {sorted(set(model) - set(got))}, extra {sorted(set(got) - set(model))}")
            ctx.step()
        ctx.execs += 1; ctx.state((sch, page, tuple(sorted(model))))


def ident(x): return x
def tofile(x, output_dir):
    with open(os.path.join(output_dir, f"f{x}.txt"), "w") as f: f.write(str(x))


def whole(case, ctx):
    """optimize, map and merge into a folder with neighbours: the whole call, under the deterministic scheduler."""
    sch, base, what, near, page = case
    st = objstore.Store(ctx.scratch("store"), page); objstore.install(st)
    root = f"{sch}://bucket/{base}"
    url = root + "data"
    inside = {"overwrite": ["index.json", "chunk-0-0.bin", "chunk-0-7.bin", "chunk-3-0.bin"], "ckpt": [], "optimize": [], "map": [], "map-full": ["f0.txt"], "refuse": ["index.json", "chunk-0-0.bin"]}[what]
    for k in inside: st.put(url + "/" + k, content(k))
    for k in near: st.put(root + k, content(k))
    before = st.snapshot()
    def main():
        if what.startswith("map"): return fn.map(tofile, [0, 1, 2], output_dir=Dir(None, url), num_workers=2, error_when_not_empty=True)
        return fn.optimize(ident, list(range(5)), output_dir=Dir(None, url), num_workers=2, chunk_size=2, mode="overwrite" if what == "overwrite" else None, use_checkpoint=what == "ckpt")
    r = opt.run(ctx.scratch("home"), main)
    after = st.snapshot()
    if what in ("map-full", "refuse"):
        if opt.ok(r): raise mc.Violation(f"{what} {url} with {sorted(before)} was accepted")
        judge(what, st, before, [])
    else:
        if not opt.ok(r): raise mc.Violation(f"{what} {url} with {sorted(before)}: {opt.short(r)} {r['tb']}")
        inobj = [u for u in before if u.startswith(url + "/")]
        new = {u: d for u, d in after.items() if u.startswith(url + "/")}
        judge(f"{what} {url}", st, before, [u for u in inobj if u not in new], new=new)
        if what.startswith("map"):
            if {k[len(url) + 1:]: v for k, v in new.items()} != {f"f{i}.txt": str(i).encode() for i in range(3)}: raise mc.Violation(f"{what} {url}: stored {new}")
        else:
            ix = json.loads(new[url + "/index.json"])
            files = {c["filename"] for c in ix["chunks"]} | {"index.json"}
            if {k[len(url) + 1:] for k in new} != files: raise mc.Violation(f"{what} {url} page {page}: index lists {sorted(files)}, stored {sorted(new)}")
            loc = ctx.scratch("copy")
            for u, d in new.items(): open(os.path.join(loc, u[len(url) + 1:]), "wb").write(d)
            got = opt.read(loc)
            if got != list(range(5)): raise mc.Violation(f"{what} {url}: reads {got}")
    ctx.step(r["steps"]); ctx.execs += 1; ctx.state(case)


def subsets(xs, lo, hi):
    for n in range(lo, hi + 1): yield from itertools.combinations(xs, n)


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C19", rule="every combination of objects inside and next to a folder x every operation x page sizes, on S3 and GCS stand-ins; every operation sequence on neighbouring folders; whole optimize/map runs",
                 bounds=f"subsets of {len(INSIDE)} inside and {len(NEAR)} neighbouring names, listing pages of 1-3 objects, histories of {3 if quick else 4} operations on {len(FOLDERS)} folders",
                 assumptions=["the object stores are stand-ins with the client libraries' interfaces and paged listings"])
    near = [(), tuple(NEAR)] + list(subsets(NEAR, 1, 1 if quick else 2))
    ins = list(subsets(INSIDE, 0, 6))
    cases = [(s, b, i, n, p, sl) for s in ("s3", "gs") for b in ("", "a/b#c/") for i in ins for n in near for p in (2,) for sl in (False, True)
             if (not quick or len(n) != 1 or len(i) in (0, 2) or not sl) and (not quick or b == "" or len(i) in (0, 1, 6))]
    cases += [(s, "", i, n, p, False) for s in ("s3", "gs") for i in ins for n in near[:2] for p in (1, 3, 1000)]
    cases += [(s, b, i, n, p, sl) for s in ("s3", "gs") for b in ("/", "//") for i in ins for n in near[:2] for p in (2,) for sl in (False, True) if not quick or len(i) in (0, 1, 6) or not sl]
    c.phase("single", cases, single)
    ck = ["config.json", "checkpoint-0.json", "checkpoint-1.json"]
    nk = ["data2/.checkpoints", "data/.checkpoints2", "data/.checkpoints-old", "data/.checkpoint", "dat/.checkpoints"]
    c.phase("resume", [(s, b, o, n, p, sl, w) for s in ("s3", "gs") for b in ("", "a/") for o in subsets(ck, 0, 3) for n in subsets(nk, 0, 5) if len(n) < 2 or len(n) == 5
                       for p in (1, 2, 1000) for sl in (False, True) for w in (False, True)], resume)
    ops = [(o, f) for o in ("index", "chunk", "ckpt", "overwrite", "clean", "empty") for f in FOLDERS]
    c.phase("histories", [(s, p, f) for s in ("s3", "gs") for p in ((1, 1000) if quick else (2,)) for f in ops], histories, timeout=600)
    c.phase("whole", [(s, b, w, n, p) for s in ("s3", "gs") for b in ("", "a/") for w in ("optimize", "overwrite", "ckpt", "map", "map-full", "refuse") for n in ((), tuple(k for k in NEAR if not k.startswith("data/")), ("data2/index.json",), ("data",))
                      for p in (1, 1000)], whole)
    return c
