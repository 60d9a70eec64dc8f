"""A fake object store behind the client libraries litdata uses (boto3, google-cloud-storage, azure, huggingface_hub, the
s5cmd executable). Objects live in files below one scratch folder, so that forked processes share them; every request is
recorded. Only the outermost client classes are replaced: all litdata code runs unchanged."""
import hashlib, io, os, shutil, sys, types
import boto3, botocore.exceptions


class Store:
    def __init__(self, root, page=1000):
        self.root, self.page = root, page
        os.makedirs(root, exist_ok=True)
        self.log = []
        self.hook = None  # hook(op, url): may raise, or write part of a download

    def _p(self, url):
        return os.path.join(self.root, hashlib.sha1(url.encode()).hexdigest())

    def put(self, url, data):
        p = self._p(url)
        with open(p + ".url.t", "w") as f: f.write(url)
        with open(p + ".t", "wb") as f: f.write(data)
        os.replace(p + ".t", p)
        os.replace(p + ".url.t", p + ".url")

    def get(self, url):
        with open(self._p(url), "rb") as f: return f.read()

    def has(self, url):
        return os.path.exists(self._p(url) + ".url")

    def delete(self, url):
        for p in (self._p(url) + ".url", self._p(url)):
            try: os.remove(p)
            except FileNotFoundError: pass

    def urls(self, prefix=""):
        out = []
        for n in os.listdir(self.root):
            if n.endswith(".url"):
                try:
                    with open(os.path.join(self.root, n)) as f: u = f.read()
                except FileNotFoundError: continue
                if u.startswith(prefix): out.append(u)
        return sorted(out)

    def snapshot(self):
        return {u: self.get(u) for u in self.urls()}

    def clear(self):
        for n in os.listdir(self.root): os.remove(os.path.join(self.root, n))

    def put_tree(self, base, folder):
        """Upload a local folder as base/<relative path>."""
        for d, _, ff in os.walk(folder):
            for f in ff:
                p = os.path.join(d, f)
                with open(p, "rb") as h: self.put(base.rstrip("/") + "/" + os.path.relpath(p, folder), h.read())

    def op(self, name, url):
        self.log.append((name, url))
        if self.hook: self.hook(name, url)


def _write(f, data):
    """In two halves, the first is on the disk before the second is written."""
    h = len(data) // 2
    f.write(data[:h]); f.flush(); f.write(data[h:])
    return len(data)


class MemStore(Store):
    """The same within one process, held in memory."""
    def __init__(self, page=1000):
        self.page, self.log, self.hook, self.d = page, [], None, {}
    def put(self, url, data): self.d[url] = bytes(data)
    def get(self, url): return self.d[url]
    def has(self, url): return url in self.d
    def delete(self, url): self.d.pop(url, None)
    def urls(self, prefix=""): return sorted(u for u in self.d if u.startswith(prefix))
    def snapshot(self): return dict(self.d)
    def clear(self): self.d.clear()


def _client_error(code, msg, op):
    return botocore.exceptions.ClientError({"Error": {"Code": code, "Message": msg}, "ResponseMetadata": {"HTTPStatusCode": int(code) if code.isdigit() else 404}}, op)


class S3:
    """The part of the boto3 S3 client interface that a storage layer may reasonably use."""
    def __init__(self, st): self._s = st
    def _u(self, b, k): return f"s3://{b}/{k}"
    def _need(self, b, k, op):
        if not self._s.has(self._u(b, k)): raise _client_error("404", "Not Found", op)
    def list_objects_v2(self, Bucket, Prefix="", Delimiter="", MaxKeys=1000, ContinuationToken=None, StartAfter="", **kw):
        self._s.op("list", self._u(Bucket, Prefix))
        base = f"s3://{Bucket}/"
        keys = [u[len(base):] for u in self._s.urls(base)]
        items, cps = [], []
        for k in sorted(k for k in keys if k.startswith(Prefix)):
            if Delimiter and Delimiter in k[len(Prefix):]:
                cp = Prefix + k[len(Prefix):].split(Delimiter)[0] + Delimiter
                if not cps or cps[-1] != cp: cps.append(cp); items.append(("p", cp))
            else: items.append(("k", k))
        after = ContinuationToken or StartAfter
        if after: items = [i for i in items if i[1] > after]
        n = min(MaxKeys, self._s.page)
        page = items[:n]
        r = {"KeyCount": len(page), "IsTruncated": len(items) > n, "Name": Bucket, "Prefix": Prefix, "MaxKeys": MaxKeys}
        c = [{"Key": k, "Size": len(self._s.get(self._u(Bucket, k)))} for t, k in page if t == "k"]
        if c: r["Contents"] = c
        p = [{"Prefix": k} for t, k in page if t == "p"]
        if p: r["CommonPrefixes"] = p
        if len(items) > n: r["NextContinuationToken"] = page[-1][1]
        return r
    def list_objects(self, Bucket, Prefix="", Delimiter="", MaxKeys=1000, Marker="", **kw):
        r = self.list_objects_v2(Bucket, Prefix, Delimiter, MaxKeys, StartAfter=Marker)
        r.pop("KeyCount"); t = r.pop("NextContinuationToken", None)
        if t and Delimiter: r["NextMarker"] = t
        return r
    def get_paginator(self, name):
        def paginate(PaginationConfig=None, **kw):
            if name == "list_objects_v2":
                tok = None
                while True:
                    r = self.list_objects_v2(ContinuationToken=tok, **kw)
                    yield r
                    if not r["IsTruncated"]: return
                    tok = r["NextContinuationToken"]
            else: yield self.list_objects(**kw)
        return types.SimpleNamespace(paginate=paginate)
    def delete_object(self, Bucket, Key, **kw):
        self._s.op("delete", self._u(Bucket, Key)); self._s.delete(self._u(Bucket, Key)); return {}
    def delete_objects(self, Bucket, Delete, **kw):
        if len(Delete["Objects"]) > 1000: raise _client_error("MalformedXML", "more than 1000 keys", "DeleteObjects")
        for o in Delete["Objects"]: self.delete_object(Bucket, o["Key"])
        return {"Deleted": [{"Key": o["Key"]} for o in Delete["Objects"]]}
    def head_object(self, Bucket, Key, **kw):
        self._s.op("head", self._u(Bucket, Key)); self._need(Bucket, Key, "HeadObject")
        return {"ContentLength": len(self._s.get(self._u(Bucket, Key)))}
    def head_bucket(self, Bucket, **kw): return {}
    def get_object(self, Bucket, Key, **kw):
        self._s.op("get", self._u(Bucket, Key))
        if not self._s.has(self._u(Bucket, Key)): raise _client_error("NoSuchKey", "The specified key does not exist.", "GetObject")
        return {"Body": io.BytesIO(self._s.get(self._u(Bucket, Key)))}
    def put_object(self, Bucket, Key, Body=b"", **kw):
        self._s.op("put", self._u(Bucket, Key))
        self._s.put(self._u(Bucket, Key), Body.read() if hasattr(Body, "read") else bytes(Body)); return {}
    def upload_file(self, Filename, Bucket, Key, **kw):
        with open(Filename, "rb") as f: data = f.read()
        self._s.op("put", self._u(Bucket, Key)); self._s.put(self._u(Bucket, Key), data)
    def upload_fileobj(self, Fileobj, Bucket, Key, **kw):
        self._s.op("put", self._u(Bucket, Key)); self._s.put(self._u(Bucket, Key), Fileobj.read())
    def download_file(self, Bucket, Key, Filename, ExtraArgs=None, Callback=None, Config=None):
        self._s.op("get", self._u(Bucket, Key)); self._need(Bucket, Key, "HeadObject")
        t = f"{Filename}.{os.urandom(4).hex()}"  # boto3 downloads to a temporary name
        with open(t, "wb") as f: _write(f, self._s.get(self._u(Bucket, Key)))
        os.rename(t, Filename)
    def download_fileobj(self, Bucket, Key, Fileobj, **kw):
        self._s.op("get", self._u(Bucket, Key)); self._need(Bucket, Key, "HeadObject")
        Fileobj.write(self._s.get(self._u(Bucket, Key)))
    def copy(self, CopySource, Bucket, Key, **kw):
        self._need(CopySource["Bucket"], CopySource["Key"], "HeadObject")
        self._s.op("copy", self._u(Bucket, Key))
        self._s.put(self._u(Bucket, Key), self._s.get(self._u(CopySource["Bucket"], CopySource["Key"])))
    def copy_object(self, Bucket, Key, CopySource, **kw):
        self.copy(CopySource, Bucket, Key); return {}


def gcs_client(st):
    from google.api_core.exceptions import NotFound

    class Blob:
        def __init__(self, bucket, name):
            assert name, "empty blob name"
            self.bucket, self.name = bucket, name
        @property
        def _u(self): return f"gs://{self.bucket.name}/{self.name}"
        @property
        def size(self): return len(st.get(self._u)) if st.has(self._u) else None
        def exists(self, *a, **k): st.op("head", self._u); return st.has(self._u)
        def delete(self, *a, **k):
            st.op("delete", self._u)
            if not st.has(self._u): raise NotFound(self.name)
            st.delete(self._u)
        def upload_from_filename(self, filename, *a, **k):
            with open(filename, "rb") as f: data = f.read()
            st.op("put", self._u); st.put(self._u, data)
        def upload_from_file(self, f, *a, **k): st.op("put", self._u); st.put(self._u, f.read())
        def upload_from_string(self, d, *a, **k): st.op("put", self._u); st.put(self._u, d.encode() if isinstance(d, str) else d)
        def download_to_filename(self, filename, *a, **k):
            st.op("get", self._u)
            with open(filename, "wb") as f:  # the real client opens the destination first and removes it when it fails
                ok = st.has(self._u)
                if ok: _write(f, st.get(self._u))
            if not ok: os.remove(filename); raise NotFound(self.name)
        def download_to_file(self, f, *a, **k):
            st.op("get", self._u)
            if not st.has(self._u): raise NotFound(self.name)
            _write(f, st.get(self._u))
        def download_as_bytes(self, *a, **k):
            st.op("get", self._u)
            if not st.has(self._u): raise NotFound(self.name)
            return st.get(self._u)

    class Bucket:
        def __init__(self, name): assert name and "/" not in name; self.name = name
        def blob(self, name, *a, **k): return Blob(self, name)
        def get_blob(self, name, *a, **k): b = Blob(self, name); return b if b.exists() else None
        def list_blobs(self, max_results=None, page_token=None, prefix=None, delimiter=None, **kw):
            st.op("list", f"gs://{self.name}/{prefix or ''}")
            base = f"gs://{self.name}/"
            r = [Blob(self, u[len(base):]) for u in st.urls(base + (prefix or ""))]
            if delimiter: r = [b for b in r if delimiter not in b.name[len(prefix or ""):]]
            return iter(r[:max_results] if max_results else r)
        def copy_blob(self, blob, dest, new_name=None, *a, **k):
            if not st.has(blob._u): raise NotFound(blob.name)
            n = Blob(dest, new_name or blob.name); st.op("copy", n._u); st.put(n._u, st.get(blob._u)); return n
        def delete_blob(self, name, *a, **k): Blob(self, name).delete()
        def delete_blobs(self, blobs, *a, **k):
            for b in list(blobs): (b if isinstance(b, Blob) else Blob(self, b)).delete()

    class Client:
        def __init__(self, *a, **k): pass
        def bucket(self, name, *a, **k): return Bucket(name)
        def get_bucket(self, name, *a, **k): return Bucket(name)
        def list_blobs(self, bucket, *a, **k): return (bucket if isinstance(bucket, Bucket) else Bucket(bucket)).list_blobs(*a, **k)
    return Client


def azure_client(st):
    from azure.core.exceptions import ResourceNotFoundError

    class Down:
        def __init__(self, data): self.d = data; self.size = len(data)
        def readall(self): return self.d
        def readinto(self, f): return _write(f, self.d)
        def chunks(self): return iter([self.d])

    class BlobC:
        def __init__(self, c, b): self._u = f"azure://{c}/{b}"
        def exists(self): return st.has(self._u)
        def download_blob(self, *a, **k):
            st.op("get", self._u)
            if not st.has(self._u): raise ResourceNotFoundError(self._u)
            return Down(st.get(self._u))

    class Service:
        def __init__(self, *a, **k): pass
        def get_blob_client(self, container, blob, *a, **k): assert container and blob; return BlobC(container, blob)
        def get_container_client(self, c): return types.SimpleNamespace(get_blob_client=lambda b: BlobC(c, b), download_blob=lambda b: BlobC(c, b).download_blob())
    return Service


def hf_download(st):
    def hf_hub_download(repo_id, filename, *, cache_dir=None, repo_type=None, subfolder=None, local_dir=None, revision=None, **kw):
        assert repo_id.count("/") == 1
        f = filename if subfolder is None else f"{subfolder}/{filename}"
        u = f"hf://{ {'dataset': 'datasets', 'space': 'spaces', None: 'models', 'model': 'models'}[repo_type] }/{repo_id}/{f}"
        st.op("get", u)
        if not st.has(u): raise FileNotFoundError(u)
        p = os.path.join(local_dir or cache_dir, "snapshots", hashlib.sha1(u.encode()).hexdigest(), os.path.basename(f))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as h: _write(h, st.get(u))
        return p
    return hf_hub_download


def install(st):
    """Route all the client libraries in this process to `st`."""
    boto3.Session.__init__ = lambda self, *a, **k: None  # the real one loads its data files (20 ms)
    boto3.Session.client = lambda self, name, *a, **k: S3(st)
    boto3.client = lambda name, *a, **k: S3(st)
    try:
        import google.cloud.storage as g
        g.Client = gcs_client(st)
    except ImportError: pass
    try:
        import azure.storage.blob as a
        a.BlobServiceClient = azure_client(st)
    except ImportError: pass
    try:
        import huggingface_hub
        huggingface_hub.hf_hub_download = hf_download(st)
    except ImportError: pass


def s5cmd(st, bindir):
    """An `s5cmd` executable over the same objects."""
    os.makedirs(bindir, exist_ok=True)
    p = os.path.join(bindir, "s5cmd")
    with open(p, "w") as f:
        f.write(f'''#!/bin/sh
[ $# = 0 ] && exit 0
while [ "${{1#--}}" != "$1" ]; do shift; done
[ "$1" = cp ] || exit 3
shift
while [ "${{1#--}}" != "$1" ]; do shift; done
[ $# = 2 ] || {{ echo "expected source and destination, got $*" >&2; exit 4; }}
h=$(printf %s "$1" | sha1sum | cut -c1-40)
[ -f "{st.root}/$h" ] || {{ echo "no such object $1" >&2; exit 1; }}
cp "{st.root}/$h" "$2"
''')
    os.chmod(p, 0o755)
    if bindir not in os.environ["PATH"].split(":"):
        os.environ["PATH"] = bindir + ":" + os.environ["PATH"]
