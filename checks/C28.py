from lib import mc, ds, envsetup, objstore, opt, sched
import itertools, json, multiprocessing, os, shutil, sys, types
import requests, requests.adapters
import litdata
from litdata import optimize, map as lmap
from litdata.streaming.resolver import Dir, _resolve_dir
from litdata.utilities.broadcast import broadcast_object
import litdata.utilities.dataset_utilities as _du
if hasattr(_du, "_DEFAULT_LIGHTNING_CACHE_DIR"): _du._DEFAULT_LIGHTNING_CACHE_DIR = os.path.join(envsetup.ROOT, "lightning-cache")  # not /cache

PUBLIC, PRIVATE, CLOUD = "http://public.test", "http://private.test", "http://cloud.test"


# ---- the key-value service ---------------------------------------------------------------------------------------------
class Service:
    """A model of the hosted service: a key's first value is kept for good. mode: 'first' any node defines it,
    'rank0' only node 0 does and the others get nothing until then. Every request is a scheduling point;
    `fail` maps the number of a request to what happens to it."""
    def __init__(self, mode, fail=(), token=False, up=(PUBLIC, PRIVATE)):
        self.mode, self.fail, self.token, self.up, self.kv, self.n, self.log = mode, dict(fail), token, up, {}, 0, []
    def send(self, adapter, request, **kw):
        if sched.S: sched.S.point("q", f"request {request.url}")
        k, self.n = self.n, self.n + 1
        what = self.fail.get(k)
        host, path = request.url[:request.url.index("/", 8)], request.url[request.url.index("/", 8):]
        if host not in self.up and host != CLOUD or what == "lost": raise requests.exceptions.ConnectionError(f"request {k} to {request.url} does not get through")
        r = requests.Response()
        r.request, r.url, r.status_code, r.encoding = request, request.url, 200, "utf-8"
        body = json.loads(request.body)
        if host == CLOUD:
            ok = body == {"apiKey": "key", "username": "me"} and path.rstrip("/") == "/v1/auth/login"
            out = {"token": "tok"} if ok else {}
        else:
            if what == "500": r.status_code = 500
            elif what == "204": r.status_code = 204
            elif self.token and request.headers.get("Authorization") != "Bearer tok": r.status_code = 401
            elif path.rstrip("/") != "/broadcast": r.status_code = 404
            elif self.mode == "first" or body["rank"] == "0": self.kv.setdefault(body["key"], body["value"])
            out = {"value": self.kv.get(body.get("key"))} if r.status_code == 200 else {}
            if what == "null" : out = {"value": None}
        self.log.append((k, what, host))
        if what == "noreply": raise requests.exceptions.ConnectionError(f"the reply to request {k} is lost")
        r._content = json.dumps(out).encode()
        return r


def connect(service):
    requests.adapters.HTTPAdapter.send = lambda self, request, **kw: service.send(self, request, **kw)
    os.environ.update(LIGHTNING_APP_EXTERNAL_URL=PUBLIC, LIGHTNING_APP_STATE_URL=PRIVATE)
    if service.token: os.environ.update(LIGHTNING_CLOUD_URL=CLOUD, LIGHTNING_API_KEY="key", LIGHTNING_USERNAME="me")


OBJ = {
    "dir":   lambda k: Dir(path=f"/data/{k}", url=None),
    "url":   lambda k: Dir(path=None, url=f"s3://b/é ü{k}/日本\\u00e9\n'\"%20"),
    "text":  lambda k: f"é\xff\x80{k}",
    "list":  lambda k: [k, (k, b"\x00\xff\xe9"), {"a": None, "b": 1.5 * k}, 2 ** 70],
    "false": lambda k: False if k else 0,
}


def exchange(case, ctx):
    """Nodes exchange values, in every order of their requests, with every request failing in every way."""
    nodes, keys, obj, mode, token, fail, bound, up = case
    base = os.path.realpath(ctx.scratch("x"))
    what = f"{nodes} nodes exchange {obj} under {keys}, the service keeps the value of {'the first node' if mode == 'first' else 'node 0'}, requests {dict(fail)} fail, {len(up)} addresses reachable"
    outcomes = set()
    def main():
        sv = Service(mode, fail, token, up)
        connect(sv)
        got = {}
        def node(k):
            os.environ["DATA_OPTIMIZER_NODE_RANK"] = str(k)
            for i, key in enumerate(keys):
                got[k, i] = broadcast_object(key, OBJ[obj](10 * i + k), rank=k)
        ps = [multiprocessing.Process(target=node, args=(k,)) for k in range(nodes)]
        for p in ps: p.start()
        for p in ps: p.join()
        return got, [p.exitcode for p in ps], sv.n
    def run(prefix): return opt.run(os.path.join(base, "home"), main, prefix=prefix, preempt=("q", "p"), max_steps=600)
    def judge(prefix, r):
        ctx.execs += 1; ctx.step(r["steps"])
        if r["status"] in ("died", "diverged"): raise RuntimeError(f"{what}: {r['status']} {r['detail']}")
        bad = [f for _, f in fail if f in ("500", "204", "lost", "noreply")] or not up
        # a service that waits for node 0 leaves the others waiting when that node was refused
        if r["status"] == "hang" and mode == "rank0" and any(f in ("500", "204") for _, f in fail): return
        if r["status"] != "ok" or not r["main_done"] or r["exc"]: raise mc.Violation(f"{what}: {opt.short(r)} {r['tb'][-800:]} schedule {prefix}")
        got, codes, n = r["value"]
        outcomes.add((tuple(codes), tuple(sorted((k, repr(v)) for k, v in got.items()))))
        for i in range(len(keys)):
            same = [j for j in range(i) if keys[j] == keys[i]]
            vals = [v for (k, j), v in got.items() if j == i]
            offered = [OBJ[obj](10 * j + k) for j in range(len(keys)) if keys[j] == keys[i] for k in range(nodes)]
            if vals and (any(v != vals[0] or type(v) is not type(vals[0]) for v in vals) or not any(vals[0] == o and type(vals[0]) is type(o) for o in offered)):
                raise mc.Violation(f"{what}: key {keys[i]} is {vals} on the nodes, they offered {offered}; schedule {prefix}")
            if vals and mode == "rank0" and vals[0] not in [OBJ[obj](10 * j) for j in range(len(keys))]: raise mc.Violation(f"{what}: key {keys[i]} is {vals}, not the value of node 0; schedule {prefix}")
        if not bad and (any(codes) or len(got) != nodes * len(keys)): raise mc.Violation(f"{what}: nodes ended with {codes}; schedule {prefix}\n{r['log']}")
        for k in range(nodes):
            if codes[k] == 0 and any((k, i) not in got for i in range(len(keys))): raise mc.Violation(f"{what}: node {k} ended without a value; schedule {prefix}")
        if all(f in ("lost", "noreply", "null") for _, f in fail) and len(fail) <= 1 and len(up) == 2 and not token and any(codes): raise mc.Violation(f"{what}: a node failed although one address works: {codes}; schedule {prefix}")
        if up and len(up) < 2 and PRIVATE in up and not fail and any(codes): raise mc.Violation(f"{what}: a node failed although the private address works: {codes}")
    sched.explore(run, bound, on=judge)
    for o in outcomes: ctx.state((case, o)); ctx.outcome(o)


def alone(case, ctx):
    """Without a service every node keeps its own value."""
    obj, k = case
    for n in ("LIGHTNING_APP_EXTERNAL_URL", "LIGHTNING_APP_STATE_URL"): os.environ.pop(n, None)
    x = OBJ[obj](k)
    ctx.execs += 1; ctx.step(); ctx.state(case)
    got = broadcast_object("key", x, rank=k)
    if got is not x and got != x: raise mc.Violation(f"without the service, {x} becomes {got}")


# ---- jobs whose nodes disagree about the folders -------------------------------------------------------------------------
class Fn:
    def __call__(self, x): return f"<{x}>"

class Write:
    def __call__(self, x, output_dir):
        with open(os.path.join(output_dir, f"{x}.txt"), "w") as f: f.write(f"<{x}>")


def jobs(case, ctx):
    """optimize and map on nodes that each resolved another output folder: all the data is in the one the service chose."""
    op, nodes, mode, delay, out, ops = case
    base = os.path.realpath(ctx.scratch("j"))
    n = 4
    st = objstore.Store(os.path.join(base, "store")) if out == "s3" else None
    where = lambda j, k: f"s3://b/é{j}/out{k}" if st else os.path.join(base, f"é{j}", f"out{k}")
    what = f"{ops} x {op} on {nodes} nodes (late by {delay} s) that each name another folder, the service keeps the value of {'the first node' if mode == 'first' else 'node 0'}"
    def job():
        k = int(os.environ["DATA_OPTIMIZER_NODE_RANK"])
        connect(SV[0])
        for j in range(ops):
            if op == "optimize": optimize(Fn(), [f"{j}-{i}" for i in range(n)], where(j, k), num_workers=1, chunk_size=1)
            else: lmap(Write(), [f"{j}-{i}" for i in range(n)], where(j, k), num_workers=1)
    SV = []
    def main():
        SV.append(Service(mode))
        if st: objstore.install(st)
        return opt.on_nodes(job, base, nodes, delay)()
    r = sched.execute(lambda sc: None, main, max_steps=6000)
    ctx.execs += 1; ctx.step(r["steps"]); ctx.state(case)
    if r["status"] in ("died", "diverged"): raise RuntimeError(f"{what}: {r['status']} {r['detail']}")
    if not opt.ok(r): raise mc.Violation(f"{what}: {opt.short(r)} {r['tb'][-1200:]}")
    chosen = []
    def files(j, k):
        if st: return [u[len(where(j, k)) + 1:] for u in st.urls() if u.startswith(where(j, k) + "/")]
        top = where(j, k)
        return [os.path.relpath(os.path.join(d, f), top) for d, _, ff in os.walk(top) for f in ff] if os.path.isdir(top) else []
    def lost(j, text):
        # the keys of the second operation already have the values of the first one
        if ops > 1 and not any(files(1, k) for k in range(nodes)): ctx.known_or_raise(f"{what}: {text}", "two-operators")
        else: raise mc.Violation(f"{what}: {text}")
    for j in range(ops):
        used = []
        for k in range(nodes):
            names = files(j, k)
            if names: used.append((k, sorted(names)))
        if len(used) != 1: return lost(j, f"the data of operation {j + 1} is in {used}")
        k, names = used[0]
        chosen.append(k)
        if op == "map":
            if names != sorted(f"{j}-{i}.txt" for i in range(n)): return lost(j, f"operation {j + 1} wrote {names}")
        else:
            if st:
                p = os.path.join(base, f"got{j}"); os.makedirs(p)
                for u in st.urls():
                    if u.startswith(where(j, k) + "/"):
                        with open(os.path.join(p, u.split("/")[-1]), "wb") as f: f.write(st.get(u))
            else: p = where(j, k)
            got = opt.read(p)
            if sorted(got) != sorted(f"<{j}-{i}>" for i in range(n)): return lost(j, f"the dataset of operation {j + 1} holds {got}")
    if mode == "rank0" and any(chosen): raise mc.Violation(f"{what}: the folders of nodes {chosen} were used, node 0 decides")
    ctx.outcome((op, tuple(chosen)))


# ---- managed locations ---------------------------------------------------------------------------------------------------
class NS(types.SimpleNamespace): pass


def platform(studios, clusters, connections, calls):
    """The SDK of the platform, which reports these studios, clusters and data connections."""
    class LightningClient:
        def __init__(self, *a, **k): pass
        def cluster_service_list_project_clusters(self, project_id):
            calls.append(("clusters", project_id))
            return NS(clusters=[NS(id=i, spec=NS(aws_v1=NS(bucket_name=b))) for i, b in clusters])
        def cloud_space_service_list_cloud_spaces(self, project_id, cluster_id):
            calls.append(("studios", project_id, cluster_id))
            return NS(cloudspaces=[NS(id=i, name=n, display_name=d, cluster_id=c) for i, n, d, c in studios])
        def data_connection_service_list_data_connections(self, project_id):
            calls.append(("connections", project_id))
            return NS(data_connections=[NS(name=n, aws=NS(source=a), s3_folder=NS(source=f)) for n, a, f in connections])
    m = types.ModuleType("lightning_sdk.lightning_cloud.rest_client"); m.LightningClient = LightningClient
    p, q = types.ModuleType("lightning_sdk"), types.ModuleType("lightning_sdk.lightning_cloud")
    p.lightning_cloud, q.rest_client = q, m
    sys.modules.update({"lightning_sdk": p, "lightning_sdk.lightning_cloud": q, "lightning_sdk.lightning_cloud.rest_client": m})


SUBS = ["", "d", "d/e f/é", "d/this_studio", "studios/x/y", "a", "A"]
ENV = dict(LIGHTNING_CLUSTER_ID="c1", LIGHTNING_CLOUD_PROJECT_ID="p1", LIGHTNING_CLOUD_SPACE_ID="s1")


def low(x): return None if x is None else x.lower()


def managed(case, ctx):
    """Every set of studios, clusters and connections the platform reports x every managed path x every missing setting."""
    studios, clusters, connections = case
    calls = []
    platform(studios, clusters, connections, calls)
    names = sorted({x for s in studios for x in s[1:3] if x} | {c[0] for c in connections} | {"a", "A", "b", "a-b"})
    bucket = dict(clusters)
    for missing in (None, *ENV):
        for k in ENV: os.environ.pop(k, None)
        os.environ.update({k: v for k, v in ENV.items() if k != missing})
        for kind in ("studios", "s3_connections", "s3_folders", "datasets", "other"):
            for name in names + (["this_studio"] if kind == "studios" else []):
                for sub in SUBS:
                    path = f"/teamspace/{kind}/{name}" + (f"/{sub}" if sub else "")
                    tail = (f"/{sub}" if sub else "")
                    if kind == "studios" and name != "this_studio":
                        hit = [s for s in studios if name.lower() in (low(s[1]), low(s[2]))]
                        urls = {f"s3://{bucket[s[3]]}/projects/p1/cloudspaces/{s[0]}/code/content{tail}" for s in hit if s[3] in bucket}
                        if missing in ("LIGHTNING_CLUSTER_ID", "LIGHTNING_CLOUD_PROJECT_ID"): urls = set()
                    elif kind in ("s3_connections", "s3_folders"):
                        src = 1 if kind == "s3_connections" else 2
                        urls = {c[src].rstrip("/") + tail for c in connections if c[0] == name}
                        if missing == "LIGHTNING_CLOUD_PROJECT_ID": urls = set()
                    elif kind == "datasets":
                        hit = [s for s in studios if s[0] == "s1" and s[3] in bucket]
                        urls = {f"s3://{bucket[s[3]]}/projects/p1/datasets/{name}{tail}" for s in hit}
                        if missing: urls = set()
                    else: urls = {None}
                    ctx.step()
                    text = f"platform with studios {studios}, clusters {clusters}, connections {connections}, without setting {missing}: {path}"
                    try: got = _resolve_dir(path)
                    except Exception as e:
                        ctx.outcome((kind, type(e).__name__))
                        if urls and not (kind == "studios" and any(s[3] not in bucket for s in hit)): raise mc.Violation(f"{text} is refused ({type(e).__name__}: {e}), it is {urls}")
                        continue
                    ctx.outcome((kind, bool(got.url)))
                    u = got.url.rstrip("/") if got.url and not tail else got.url
                    if u not in urls or got.path != path: raise mc.Violation(f"{text} resolves to {got}, it should be {urls or 'refused'}")
    if any(c[1] != "p1" or c[2:] not in ((), ("c1",)) for c in calls): raise mc.Violation(f"the platform was asked about another project or cluster: {sorted(set(calls))}")
    ctx.execs += 1; ctx.state(case)


def through(case, ctx):
    """A dataset at a managed location is read from the storage the platform reports. (Those of studios would be cached
    below /teamspace itself, outside of the scratch folder: see `managed` for them.)"""
    path, url = case
    platform([("s1", "mine", None, "c1"), ("s2", "other", "Another", "c2")], [("c1", "bucket1"), ("c2", "bucket2")], [("con", "s3://data/x", "s3://bad/x"), ("fol", "s3://bad/y", "s3://folder/y")], [])
    os.environ.update(ENV)
    st = objstore.Store(ctx.scratch("store")); objstore.install(st)
    os.environ["DISABLE_S5CMD"] = "1"
    from litdata.streaming import downloader as dl
    if hasattr(dl, "_DISABLE_S5CMD"): dl._DISABLE_S5CMD = True
    src = ctx.scratch("src")
    ds.write_layout(src, (1, 2))
    for f in os.listdir(src):
        with open(os.path.join(src, f), "rb") as h: st.put(f"{url}/{f}", h.read())
    d = ds.StreamingDataset(path, cache_dir=ctx.scratch("cache"))
    got = [ds.dec(d[i]) for i in range(len(d))]
    ctx.execs += 1; ctx.step(3); ctx.state(case); ctx.outcome(url)
    if got != [0, 1, 2]: raise mc.Violation(f"the dataset at {path} (that is {url}) reads {got}")


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C28", rule="every interleaving of the requests of the nodes to a model of the hosted service, every failure of every request, every kind of value; optimize and map on nodes that disagree about the output folder; every managed path x what the platform reports x every missing setting",
                 bounds=f"2 or 3 nodes, up to 2 keys, {'3' if quick else '6'} deviations, one failed request at a time ({'two' if not quick else 'one'}), up to 2 studios, clusters and connections",
                 assumptions=["the hosted service is modelled as its client documents it (a key's first value stays); the platform's SDK is a stand-in that reports given lists"])
    ex = []
    both = (PUBLIC, PRIVATE)
    b = 3 if quick else 6
    for mode in ("first", "rank0"):
        for obj in OBJ:
            ex.append((2, ("k",), obj, mode, False, (), b, both))
        for keys in (("k", "l"), ("k", "k"), ("input_dir", "output_dir")): ex.append((2, keys, "url", mode, False, (), 3 if quick else 5, both))
        ex.append((3, ("k",), "dir", mode, False, (), 3 if quick else 5, both))
        ex.append((2, ("k",), "dir", mode, True, (), 3 if quick else 5, both))
        for up in ((PRIVATE,), (PUBLIC,), ()): ex.append((2, ("k",), "dir", mode, False, (), 2 if quick else 4, up))
        fails = [((k, f),) for k in range(4) for f in ("lost", "noreply", "500", "204", "null")]
        if not quick: fails += [((i, f), (j, g)) for i, j in itertools.combinations(range(4), 2) for f in ("lost", "noreply", "null") for g in ("lost", "noreply", "null", "500")]
        for f in fails:
            ex.append((2, ("k",), "dir", mode, False, f, 2 if quick else 3, both))
            if not quick or f[0][1] in ("lost", "null"): ex.append((2, ("k", "l"), "text", mode, False, f, 1, both))
    c.phase("exchange", ex, exchange)
    c.phase("alone", [(o, k) for o in OBJ for k in (0, 1)], alone)
    jb = [(op, nodes, mode, delay, out, ops) for op in ("optimize", "map") for mode in ("first", "rank0") for out in ("local", "s3") for nodes, delay in ((2, (0, 0)), (2, (5, 0)), (2, (0, 40)), (3, (0, 0, 0)), (3, (9, 3, 0))) for ops in (1, 2) if not quick or (nodes + len(op) + delay[0] + (mode == "first") + ops) % 2 == 0]
    c.phase("jobs", jb, jobs)
    st = [(i, n, d, cl) for i in ("s1", "s2") for n in (None, "a", "b", "A-b") for d in (None, "a", "B") for cl in ("c1", "c2")]
    sts = [(x,) for x in st] + [(x, y) for x in st for y in st if x[0] != y[0] and (not quick or hash_(x, y) % 8 == 0)] + [()]
    mg = [(s, cl, co) for k, s in enumerate(sts) for cl in ((("c1", "B1"), ("c2", "b-2")), (("c2", "b-2"),)) for co in ((("a", "s3://x/y", "s3://f/g"), ("A", "s3://x/z/", "s3://f/h")), (("a-b", "s3://q", "gs://r"),))[k % 2:][:1]]
    c.phase("managed", mg, managed)
    base = "projects/p1"
    th = [("/teamspace/s3_connections/con/d", "s3://data/x/d"), ("/teamspace/s3_connections/con", "s3://data/x"), ("/teamspace/s3_folders/fol/d", "s3://folder/y/d"), ("/teamspace/datasets/d", f"s3://bucket1/{base}/datasets/d"), ("/teamspace/datasets/d/e", f"s3://bucket1/{base}/datasets/d/e")]
    c.phase("through", th, through)
    return c


def hash_(*a): return sum(ord(x) * (i + 1) for i, x in enumerate(repr(a)))
