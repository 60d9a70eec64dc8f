"""Helpers that build and read small litdata datasets through the public API."""
import contextlib, itertools, json, os, glob
from . import envsetup
import torch
from torch.utils.data._utils import worker as _tw

import litdata
from litdata import StreamingDataset, StreamingDataLoader, CombinedStreamingDataset
from litdata.streaming.cache import Cache

import queue as _queue
import litdata.streaming.reader as _reader


class _FastQueue(_queue.Queue):
    """Polling waits of the chunk preparation thread are shortened; what they wait for is unchanged."""
    def get(self, block=True, timeout=None):
        return super().get(block, timeout if timeout is None else min(timeout, 0.002))


if getattr(_reader, "Queue", None) is _queue.Queue:
    _reader.Queue = _FastQueue

B = 5040
PAD = 16


def enc(v, size=24):
    """A sample that encodes integer v in `size` bytes."""
    return (b"%08d|" % v).ljust(size, b".")


def dec(s):
    return int(bytes(s)[:8])


def compositions(n):
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first,) + rest


def vectors(max_total, max_chunks=99, min_total=1):
    return [c for n in range(min_total, max_total + 1) for c in compositions(n) if len(c) <= max_chunks]


def write_layout(path, layout, start=0, **kw):
    """Dataset whose chunks hold layout[0], layout[1], ... samples; sample i encodes start+i."""
    os.makedirs(path, exist_ok=True)
    c = Cache(path, chunk_bytes=B, **kw)
    i = 0
    for k in layout:
        for _ in range(k):
            c[i] = enc(start + i, B // k - PAD)
            i += 1
    c.done()
    c.merge()
    return path


def write_items(path, items, merge=True, **kw):
    os.makedirs(path, exist_ok=True)
    c = Cache(path, **kw)
    for i, it in enumerate(items):
        c[i] = it
    c.done()
    if merge:
        c.merge()
    return path


@contextlib.contextmanager
def dist(world=1, rank=0, nodes=1):
    old = {k: os.environ.get(k) for k in ("WORLD_SIZE", "GLOBAL_RANK", "NNODES")}
    os.environ.update(WORLD_SIZE=str(world), GLOBAL_RANK=str(rank), NNODES=str(nodes))
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None: os.environ.pop(k, None)
            else: os.environ[k] = v


@contextlib.contextmanager
def worker(num, wid, dataset=None):
    """Appear as data-loader worker `wid` of `num` (num=0: the main process)."""
    old = _tw._worker_info
    if num > 0:
        _tw._worker_info = _tw.WorkerInfo(id=wid, num_workers=num, seed=0, dataset=dataset)
    else:
        _tw._worker_info = None
    try:
        yield
    finally:
        _tw._worker_info = old


def read_index(path):
    with open(os.path.join(path, "index.json")) as f:
        return json.load(f)


def epoch_samples(ds):
    return [dec(x) for x in ds]


def run_workers(make, num_workers, epoch=None, pre=None):
    """What each of `num_workers` data-loader workers of one rank delivers (each worker iterates its own copy,
    exactly like torch's worker processes do)."""
    out = []
    for w in range(max(1, num_workers)):
        d = make()
        if pre: pre(d)
        with worker(num_workers, w, d):
            it = iter(d)
            out.append([dec(x) for x in it])
    return out


def stop_threads(timeout=2.0):
    """End the background download threads of readers that were left."""
    import threading
    for t in threading.enumerate():
        if t is threading.main_thread() or not t.daemon: continue
        f = getattr(t, "force_stop", None) or getattr(t, "stop", None)
        if callable(f):
            f(); t.join(timeout)
