"""Readers sharing a cache folder, run under the controlled scheduler."""
import os, queue, shutil, threading, multiprocessing
from . import ds, envsetup, objstore, opt, sched
import litdata
from litdata.streaming import reader as _reader
from litdata.streaming.item_loader import ParquetLoader, TokensLoader


def thread_classes():
    return [c for c in vars(_reader).values() if isinstance(c, type) and issubclass(c, threading.Thread) and c is not threading.Thread]


def setup_child(home, st=None):
    def setup(sc):
        envsetup.isolate(home)
        queue.Queue = sched.VQueue
        for k, v in list(vars(_reader).items()):
            if isinstance(v, type) and issubclass(v, _QUEUE): setattr(_reader, k, sched.VQueue)
        if st: objstore.install(st)
    return setup
_QUEUE = queue.Queue


class Data:
    """A remote dataset: sample i of chunk k is enc(i)."""
    def __init__(self, root, vec, comp=None, scheme="local", tokens=None, parquet=None):
        self.root = root
        self.folder = os.path.join(root, "remote")
        self.tokens, self.vec, self.parquet = tokens, vec, parquet
        if tokens:
            import torch
            from litdata.streaming.cache import Cache
            os.makedirs(self.folder, exist_ok=True)
            c = Cache(self.folder, chunk_size=tokens * max(vec), compression=comp, item_loader=TokensLoader(block_size=tokens))
            i = 0
            for k in vec:
                c[i] = torch.arange(i * tokens, (i + k) * tokens, dtype=torch.int32); i += k
            c.done(); c.merge()
        elif parquet is not None:
            import pyarrow as pa, pyarrow.parquet as pq
            os.makedirs(self.folder); i = 0
            for k, m in enumerate(vec):
                pq.write_table(pa.table({"i": pa.array(range(i, i + m), pa.int64()), "s": [f"v{j}" for j in range(i, i + m)]}), os.path.join(self.folder, f"p{k}.parquet"), row_group_size=1); i += m
            litdata.index_parquet_dataset(self.folder, num_workers=1)
        else: ds.write_layout(self.folder, vec, compression=comp)
        self.n = sum(vec)
        self.st = None
        self.url = "local:" + self.folder
        if scheme != "local":
            self.st = objstore.Store(os.path.join(root, "store"))
            self.url = f"{scheme}://bucket/ds"
            self.st.put_tree(self.url, self.folder)
        self.index = ds.read_index(self.folder)
        self.bytes = [c["chunk_bytes"] for c in self.index["chunks"]]
        self.disk = [os.path.getsize(os.path.join(self.folder, c["filename"])) for c in self.index["chunks"]]
        if not tokens and parquet is None:
            plain = self.folder
            if comp: plain = os.path.join(root, "plain"); ds.write_layout(plain, vec)
            d = litdata.StreamingDataset(plain); self.expected = [bytes(d[i]) for i in range(self.n)]
    def open(self, cache, **kw):
        kw.update(self.loader())
        return litdata.StreamingDataset(self.url, cache_dir=cache, **kw)
    def loader(self):
        if self.tokens: return dict(item_loader=TokensLoader(block_size=self.tokens))
        return {} if self.parquet is None else dict(item_loader=ParquetLoader(*self.parquet))
    def value(self, x):
        if self.parquet is not None: return int(x["i"])
        return int(x[0]) // self.tokens if self.tokens else ds.dec(x)
    def chunk_of(self, i):
        """The chunk with sample i."""
        for k, n in enumerate(self.vec):
            if i < n: return k
            i -= n
    def whole(self, x, i):
        """Whether x is exactly sample i."""
        if self.parquet is not None: return x == {"i": i, "s": f"v{i}"}
        if self.tokens: return x.tolist() == list(range(i * self.tokens, (i + 1) * self.tokens))
        return bytes(x) == bytes(self.expected[i])


def share(data, world, rank, **kw):
    """The samples that an epoch delivers to a rank."""
    with ds.dist(world, rank):
        d = litdata.StreamingDataset(data.folder, drop_last=False, **data.loader(), **kw)
        it = iter(d)
        out = []
        while True:
            try: out.append(data.value(next(it)))
            except StopIteration: return out


def program(data, cache, lists, watch=None, late=None, shuffle=False, **kw):
    """One process per list of indices (or "iter": its share of an epoch, as a rank of its own); main fails unless every value is right."""
    world = len(lists)
    shares = {r: share(data, world, r, shuffle=shuffle) for r, l in enumerate(lists) if l == "iter"}
    sets = {}
    def reader(rank):
        idx = lists[rank]
        if late and late[rank]: sched._vt_sleep(late[rank])
        if idx == "iter":
            os.environ.update(WORLD_SIZE=str(world), GLOBAL_RANK=str(rank), NNODES="1")
            d = data.open(cache, drop_last=False, shuffle=shuffle, **kw)
            it = iter(d)
            get, idx = (lambda i: next(it)), shares[rank]
        else: get = lambda i: sets[rank][i]
        for i in idx:
            x = get(i)
            if not data.whole(x, i): raise RuntimeError(f"reader {rank}: sample {i} reads {str(x)[:60]}")
        if lists[rank] == "iter":
            try: next(it)
            except StopIteration: pass
            else: raise RuntimeError(f"rank {rank}: more samples than {idx}")
    def main():
        for rank, idx in enumerate(lists): sets[rank] = data.open(cache, **kw)
        sched.S.watch = watch or cache
        ps = [multiprocessing.Process(target=reader, args=(rank,)) for rank in range(world)]
        for p in ps: p.start()
        for p in ps: p.join()
        if any(p.exitcode not in (0, -9) for p in ps): raise RuntimeError(f"readers failed: {[repr(t.exc)[:400] for t in sched.S.tasks if t.exc is not None]}")
    return main


def run(data, cache, home, main, **kw):
    """One execution."""
    return sched.execute(setup_child(home, data.st), main, threads=thread_classes(), files=True, **kw)
