"""A multiprocessing context whose 'processes' are coroutines (threads under strict hand-off) of this process.

torch's own worker loop and multi-process iterator run unmodified on it; each worker gets a deep copy of its
arguments (as a forked process would) and its own torch worker info. Execution is deterministic: a worker runs
exactly from the moment an index is queued for it until it waits for the next one.
"""
import copy, gc, multiprocessing.context, queue, random, threading, collections
import numpy as np
import torch
import torch.utils.data._utils as _u
from torch.utils.data._utils import worker as _tw, signal_handling as _sh, pin_memory as _pm

_sh._set_worker_signal_handlers = lambda *a: None
_sh._set_worker_pids = lambda *a: None
_sh._remove_worker_pids = lambda *a: None
_sh._set_SIGCHLD_handler = lambda *a: None
_sh._error_if_any_worker_fails = lambda *a: None


# Finalizers of abandoned loaders run their workers: never from a thread that is just ending (lib/mc.py collects).
gc.disable()


class _Kill(BaseException):
    pass


class FakeProcess:
    _n = 1 << 28

    def __init__(self, target=None, args=(), kwargs=None, **_):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        FakeProcess._n += 1
        self.pid = FakeProcess._n
        self.exitcode = None
        self.daemon = True
        self._resume = threading.Semaphore(0)
        self._yielded = threading.Semaphore(0)
        self._alive = False
        self._killed = False
        self.error = None
        self._info = None
        self.blocked_on = None

    def start(self):
        memo = {}
        for a in self.args:  # shared objects are not copied
            if isinstance(a, (FakeQueue, FakeEvent)):
                memo[id(a)] = a
        self._cargs = tuple(a if isinstance(a, (FakeQueue, FakeEvent)) else copy.deepcopy(a, memo) for a in self.args)
        for a in self._cargs:
            if isinstance(a, FakeQueue) and a.owner is None and a.is_index:
                a.owner = self
        self._alive = True
        self._t = threading.Thread(target=self._main, daemon=True)
        self._t.start()
        st = (random.getstate(), torch.get_rng_state(), np.random.get_state())
        self.run_slice()
        random.setstate(st[0]); torch.set_rng_state(st[1]); np.random.set_state(st[2])

    def _main(self):
        _tls.proc = self
        self._resume.acquire()
        try:
            self.target(*self._cargs, **self.kwargs)
            self.exitcode = 0
        except _Kill:
            self.exitcode = -9
        except BaseException as e:
            self.error = e
            self.exitcode = 1
        self._alive = False
        self._yielded.release()

    def run_slice(self):
        if not self._alive:
            return
        old, _tw._worker_info = _tw._worker_info, self._info
        self._resume.release()
        self._yielded.acquire()
        self._info, _tw._worker_info = _tw._worker_info, old

    def yield_(self):
        self._yielded.release()
        self._resume.acquire()
        if self._killed:
            raise _Kill()

    def is_alive(self):
        return self._alive

    def join(self, timeout=None):
        n = 0
        while self._alive and n < 50:
            self.run_slice(); n += 1

    def terminate(self):
        if self._alive:
            self._killed = True
            self.run_slice()
    kill = terminate


_tls = threading.local()


class FakeQueue:
    def __init__(self, *a):
        self.q = collections.deque()
        self.owner = None
        self.is_index = True

    def put(self, x, *a, **k):
        self.q.append(x)
        if self.owner is not None and getattr(_tls, "proc", None) is None:
            self.owner.run_slice()

    def get(self, block=True, timeout=None):
        me = getattr(_tls, "proc", None)
        if me is not None:
            self.owner = me
            while not self.q:
                me.yield_()
            return self.q.popleft()
        if not self.q:
            raise queue.Empty()
        return self.q.popleft()

    def get_nowait(self): return self.get(False)
    def put_nowait(self, x): return self.put(x)
    def empty(self): return not self.q
    def qsize(self): return len(self.q)
    def close(self): pass
    def cancel_join_thread(self): pass
    def join_thread(self): pass


class FakeEvent:
    def __init__(self): self.f = False
    def is_set(self): return self.f
    def set(self): self.f = True
    def clear(self): self.f = False
    def wait(self, t=None): return self.f


class FakeContext(multiprocessing.context.BaseContext):
    _name = "fork"
    Process = FakeProcess
    def Queue(self, maxsize=0): return FakeQueue()
    def SimpleQueue(self): return FakeQueue()
    def Event(self): return FakeEvent()
    def get_start_method(self, allow_none=False): return "fork"


CTX = FakeContext()


def loader(dataset, cls=None, num_workers=0, **kw):
    from litdata import StreamingDataLoader
    cls = cls or StreamingDataLoader
    if num_workers > 0:
        kw.setdefault("multiprocessing_context", CTX)
    return cls(dataset, num_workers=num_workers, **kw)
