from lib import mc, ds, envsetup, objstore
import datetime, hashlib, itertools, json, os, re, shutil
from litdata.streaming import downloader as dl
from litdata.streaming.resolver import Dir, _resolve_dir
import litdata.utilities.dataset_utilities as _du
if hasattr(_du, "_DEFAULT_LIGHTNING_CACHE_DIR"): _du._DEFAULT_LIGHTNING_CACHE_DIR = os.path.join(envsetup.ROOT, "lightning-cache")  # not /cache

# ---- what a location names -------------------------------------------------------------------------------------------
def spec_url(loc, name):
    """The object `name` below `loc`."""
    return loc.rstrip("/") + "/" + name if not loc.startswith("local:") else os.path.normpath(os.path.join(loc[len("local:"):], name))


def resolve(case, ctx):
    form, value, cwd = case
    root = ctx.scratch("cwd")
    os.makedirs(os.path.join(root, "w/sub"))
    os.symlink(os.path.join(root, "w"), os.path.join(root, "link"))
    old = os.getcwd()
    os.chdir(os.path.join(root, cwd))
    try:
        v = value.replace("$ROOT", root)
        if form == "url":
            got, want = _resolve_dir(v), Dir(None, v)
        elif form == "dir":
            p, u = v.split("|")
            got, want = _resolve_dir(Dir(p or None, u or None)), Dir(p or None, u or None)
        else:
            now = datetime.datetime.now
            t0 = now(); got = _resolve_dir(v); t1 = now()
            wants = set()
            for t in (t0, t1):
                x = re.sub(r"\{(%[^{}]*)\}", lambda m: t.strftime(m.group(1)), v) if re.search(r"\{%[^{}]*\}$", v) else v
                wants.add(os.path.realpath(os.path.join(os.getcwd(), x)))
            if got.url is not None or got.path not in wants:
                raise mc.Violation(f"local path {v!r} in {os.getcwd()!r} resolves to {got}, expected {wants}")
            want = got
        if (got.path, got.url) != (want.path, want.url):
            raise mc.Violation(f"{form} {v!r} resolves to {got}, expected {want}")
        if form == "url":
            again = _resolve_dir(got)
            if (again.path, again.url) != (got.path, got.url):
                raise mc.Violation(f"resolving {got} once more gives {again}")
    finally:
        os.chdir(old)
    ctx.step(); ctx.execs += 1; ctx.state(case); ctx.outcome((got.path or "").replace(root, "") + "|" + (got.url or ""))


def refused(case, ctx):
    loc, env = case
    os.environ.update(env)
    try:
        if "/gcs_" not in loc:
            r = _resolve_dir(loc)
            raise mc.Violation(f"the managed location {loc} resolves to {r} without its service")
    except mc.Violation: raise
    except Exception as e: ctx.outcome(type(e).__name__)
    try:
        d = ds.StreamingDataset(loc)
        got = len(d)
    except Exception as e:
        ctx.outcome(type(e).__name__)
    else:
        raise mc.Violation(f"the managed location {loc} was accepted without its service: {d.input_dir}, {got} samples")
    ctx.step(); ctx.execs += 1; ctx.state(case)


# ---- fetching ---------------------------------------------------------------------------------------------------------
NAMES = ["chunk-0-0.bin", "a b.bin", "x#1.bin", "y?z=1.bin", "p%20q.bin", "é.bin", "local:0.bin", "it's.bin", "a;b&c$HOME.bin", "s3:.bin"]


def decoys(url):
    """Other objects that a mangled version of `url` could name."""
    out = set()
    out.add(url.split("#")[0]); out.add(url.split("?")[0]); out.add(url.split(";")[0]); out.add(url.split(" ")[0])
    out.add(url.replace("%20", " ")); out.add(url.replace(" ", "%20")); out.add(url.replace(" ", "+"))
    out.add(url.lower()); out.add(url.replace("local:", "")); out.add(url.replace("'", ""))
    sch, rest = url.split("://", 1)
    b, k = rest.split("/", 1)
    out.add(f"{sch}://{b}/{k.split('/')[-1]}"); out.add(f"{sch}://{b}/{os.path.normpath(k)}"); out.add(f"{sch}://{b.lower()}/{k}")
    for s in ("s3", "gs", "azure"): out.add(f"{s}://{b}/{k}")
    out.discard(url)
    return out


def source(ctx, n, rename):
    """A local dataset of n one-sample chunks, chunk files renamed."""
    p = ctx.scratch("src")
    ds.write_layout(p, (1,) * n, start=ctx.memo.setdefault("next", 0)); first = ctx.memo["next"]; ctx.memo["next"] += n
    ix = ds.read_index(p)
    for c, nm in zip(ix["chunks"], rename):
        os.rename(os.path.join(p, c["filename"]), os.path.join(p, nm)); c["filename"] = nm
    json.dump(ix, open(os.path.join(p, "index.json"), "w"))
    return p, list(range(first, first + n))


def fetch(case, ctx):
    """Several locations read in the same home folder: right objects, distinct cache folders, stored under their own name."""
    via, locs, names = case
    st = objstore.Store(ctx.scratch("store"))
    objstore.install(st)
    os.environ["DISABLE_S5CMD"] = "0" if via == "s5cmd" else "1"
    if hasattr(dl, "_DISABLE_S5CMD"): dl._DISABLE_S5CMD = via != "s5cmd"
    path0 = os.environ["PATH"]
    if via == "s5cmd": objstore.s5cmd(st, ctx.scratch("bin"))
    home = ctx.scratch("home")
    try:
        own = {}
        srcs = {}
        for loc in locs:
            src, vals = source(ctx, len(names), names)
            srcs[loc] = (src, vals)
            if loc.startswith("local:"):
                tgt = loc[len("local:"):].replace("$ROOT", home)
                shutil.copytree(src, tgt, dirs_exist_ok=True)
            else:
                for f in ["index.json"] + names:
                    with open(os.path.join(src, f), "rb") as h: own[spec_url(loc, f)] = h.read()
        for loc in locs if locs[0].startswith("local:") else ():
            tgt = loc[len("local:"):].replace("$ROOT", home)
            for d in {tgt.replace("local:", ""), tgt.split("#")[0], tgt.split("?")[0], tgt.replace("%20", " ")} - {tgt}:
                if not os.path.exists(d): shutil.copytree(source(ctx, len(names), names)[0], d)
        if not locs[0].startswith("local:"):
            dsrc, _ = source(ctx, len(names), names)
            trash = open(os.path.join(dsrc, names[0]), "rb").read()
            for u in list(own):
                for d in decoys(u):
                    if d not in own: st.put(d, open(os.path.join(dsrc, "index.json"), "rb").read() if d.endswith("index.json") else trash)
            for u, data in own.items(): st.put(u, data)
        folders = {}
        for loc in locs:
            real = loc.replace("$ROOT", home)
            src, vals = srcs[loc]
            d = ds.StreamingDataset(real, cache_dir=os.path.join(home, "cache"))
            got = [ds.dec(d[i]) for i in range(len(d))]
            if got != vals:
                raise mc.Violation(f"{via}: dataset at {loc!r} with chunks {names} delivers {got}, written {vals}")
            folder = d.input_dir.path
            if folder in folders.values():
                raise mc.Violation(f"{via}: {loc!r} and {[k for k, v in folders.items() if v == folder]} share the cache folder {folder}")
            folders[loc] = folder
            for nm in names:
                p = os.path.join(folder, nm)
                if not os.path.exists(p) or open(p, "rb").read() != open(os.path.join(src, nm), "rb").read():
                    raise mc.Violation(f"{via}: chunk {nm!r} of {loc!r} isn't stored under its name in {folder}: {sorted(os.listdir(folder))}")
            ctx.step(len(vals)); ctx.state((via, loc, tuple(names)))
        ds.stop_threads()
        bad = [x for x in st.log if x[0] not in ("get", "head", "list")]
        if bad: raise mc.Violation(f"{via}: reading {locs} changes the storage: {bad}")
        if locs[0].startswith(("s3", "gs", "azure")) and via != "s5cmd":
            other = [x for x in st.log if x[0] == "get" and x[1] not in own]
            if other: raise mc.Violation(f"{via}: reading {locs} fetched {other}")
        for loc in locs:  # and again: still the right data of each location
            d = ds.StreamingDataset(loc.replace("$ROOT", home), cache_dir=os.path.join(home, "cache"))
            got = [ds.dec(d[i]) for i in reversed(range(len(d)))]
            if got[::-1] != srcs[loc][1]:
                raise mc.Violation(f"{via}: dataset at {loc!r} read again among {locs} delivers {got[::-1]}, written {srcs[loc][1]}")
    finally:
        os.environ["PATH"] = path0
        ds.stop_threads()
    ctx.execs += 1
    ctx.sample(dict(via=via, locs=locs, names=names))


def single(case, ctx):
    """One downloader, one file: fetched from exactly its object, or refused."""
    via, loc, name = case
    st = objstore.Store(ctx.scratch("store")); objstore.install(st)
    os.environ["DISABLE_S5CMD"] = "0" if via == "s5cmd" else "1"
    if hasattr(dl, "_DISABLE_S5CMD"): dl._DISABLE_S5CMD = via != "s5cmd"
    path0 = os.environ["PATH"]
    if via == "s5cmd": objstore.s5cmd(st, ctx.scratch("bin"))
    try:
        cache = ctx.scratch("cache d")
        u = spec_url(loc, name)
        for dd in decoys(u): st.put(dd, b"decoy " + dd.encode())
        for present in (False, True):
            if present: st.put(u, b"right " + u.encode())
            d = dl.get_downloader(loc, cache, [{"filename": "other.bin"}, {"filename": name}], {})
            err = None
            try: d.download_chunk_from_index(1)
            except Exception as e: err = e
            p = os.path.join(cache, name)
            files = [f for f in sorted(os.listdir(cache)) if not f.endswith((".lock", ".tmp"))]
            if present and (err or files != [name] or open(p, "rb").read() != st.get(u)):
                raise mc.Violation(f"{via}: {name!r} below {loc!r}: {err!r}, cache holds {[(f, open(os.path.join(cache, f), 'rb').read()[:80]) for f in files]}")
            if not present and (err is None or files):
                raise mc.Violation(f"{via}: {name!r} below {loc!r} doesn't exist: {err!r}, cache holds {[(f, open(os.path.join(cache, f), 'rb').read()[:80]) for f in files]}")
            ctx.step()
        ctx.outcome((via, present))
    finally:
        os.environ["PATH"] = path0
    ctx.execs += 1; ctx.state(case)


COMP = ["data", "a b", "x#1", "y?v=2", "p%20q", "é", "UPPER", "a+b", "it's", "$HOME", "a;b", "local:z", "..x", "s3:", "{x}", "{%Y}"]


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C27", rule="every location form x path components x chunk names: the resolved location, the object each chunk is fetched from (object store with decoys at all mangled names) and the cache folder",
                 bounds=f"paths of {2 if quick else 3} components out of {len(COMP)} kinds; schemes s3 (boto3 and s5cmd), gs, azure, hf, local:, plain paths, Dir objects; {len(NAMES)} kinds of chunk names",
                 assumptions=["the object store is a stand-in with the client libraries' interfaces"])
    paths = [x for x in COMP] + ["/".join(x) for x in itertools.product(COMP, COMP)]
    if not quick: paths += ["/".join(x) for x in itertools.product(COMP[:9], COMP[3:], COMP[:5])]
    cases = []
    for p in paths:
        for s in ("s3://bucket/", "gs://my.bucket-1/", "azure://cont/", "hf://datasets/org/name/", "local:/", "local:rel/"):
            for t in ("", "/"):
                cases.append(("url", s + p + t, "w"))
        for lead in ("", "./", "../w/", "$ROOT/", "$ROOT/link/", "sub/../"):
            for t in ("", "/"):
                if not (lead + p).startswith("local:"): cases.append(("path", lead + p + t, "w"))
        cases.append(("dir", f"/x/{p}|s3://b/{p}", "w")); cases.append(("dir", f"|gs://b/{p}", "w")); cases.append(("dir", f"/x/{p}|", "w"))
    for p in ("/teamspace/studios/this_studio", "/teamspace/studios/this_studio/x/{%Y}", "/teamspace/studios/this_studio/a b",
              "/teamspace/studios", "/teamspace/datasets", "/teamspace", "/teamspacex/datasets/a", "/.project/x", "{a}/{%Y-%m}", "d_{%Y}", "{%Y}/x", "{%Y}/{%Y}", "{b{%Y}", "{%Y%m}"):
        cases.append(("path", p, "w")); cases.append(("path", p, "w/sub"))
    c.phase("resolve", cases, resolve)
    cases = []
    for loc in ("/teamspace/studios/other/x", "/teamspace/studios/this_studio_2/x", "/teamspace/studios/This_Studio/x", "/teamspace/s3_connections/c/x", "/teamspace/s3_folders/f/x", "/teamspace/datasets/d/x",
                "/teamspace/gcs_folders/f/x", "/teamspace/gcs_connections/c"):
        for env in ({}, {"LIGHTNING_CLUSTER_ID": "c", "LIGHTNING_CLOUD_PROJECT_ID": "p", "LIGHTNING_CLOUD_SPACE_ID": "s"}):
            cases.append((loc, env))
    c.phase("refused", cases, refused)
    buckets = {"s3": "s3://bucket/", "gs": "gs://my.bucket-1/", "azure": "azure://cont/"}
    cases = []
    comp2 = COMP if not quick else COMP[:14]
    for via, b in list(buckets.items()) + [("hf", "hf://datasets/org/name/"), ("s5cmd", "s3://bucket/")]:
        for p in comp2 + [f"{a}/{z}" for a, z in itertools.product(comp2[:6], comp2[1:7])]:
            for nm in NAMES + ["index.json", "deep/er.bin"][:1]:
                if via == "s5cmd" and (p not in COMP or any(ch in p + nm for ch in "*?")): continue
                if "?" in b: continue
                for t in ("", "/"):
                    if t and quick and nm != NAMES[2]: continue
                    cases.append((via, b + p + t, nm))
    c.phase("single", cases, single, timeout=200)
    cases = []
    groups = [COMP[i:i + 4] for i in range(0, 12, 4)] + [["a/b", "a", "b", "a-b"], ["x#1", "x#2", "x", "x?1"], ["a b", "a%20b", "a+b", "ab"], ["d", "D", "d/", "d/d"][:2]]
    for via, b in buckets.items():
        for g in groups:
            cases.append((via, [b + p for p in g], NAMES[:6])); cases.append((via, [b + p for p in g], NAMES[5:]))
        cases.append((via, [b + "d", b.replace("://", "://o") + "d", b.replace("://", "://O") + "d"][:2], NAMES[:3]))
    for g in groups:
        cases.append(("local", ["local:$ROOT/" + p for p in g], NAMES[:6])); cases.append(("local", ["local:$ROOT/" + p for p in g], NAMES[5:]))
    cases.append(("cross", ["s3://b/d", "gs://b/d", "azure://b/d"], NAMES[:3]))
    nq = [n for n in NAMES if "?" not in n]
    for g in groups[:3] + groups[5:]:
        g = [p for p in g if "?" not in p]
        cases.append(("s5cmd", ["s3://bucket/" + p for p in g], nq[:4])); cases.append(("s5cmd", ["s3://bucket/" + p for p in g], nq[4:]))
    c.phase("fetch", cases, fetch, timeout=200)
    return c
