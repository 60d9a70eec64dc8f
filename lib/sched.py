"""A controlled scheduler for the real code: threads and (virtual) processes run one at a time; at every visible operation
(queue, process, lock, file operation, sleep) the scheduler decides who continues. Time is virtual: it passes only when
nothing else can happen. One execution runs in one forked child, so that a crash is a real, immediate end of everything."""
import builtins, io, os, pickle, queue as _queue, random, signal, struct, sys, threading, time as _time, traceback, types, copyreg
import multiprocessing, multiprocessing.process as mpp, multiprocessing.queues as mpq
from . import envsetup

REAL = dict(open=builtins.open, time=envsetup.real_time, sleep=envsetup.real_sleep, perf=_time.perf_counter, mono=_time.monotonic)
REAL_CLOSE = os.close
S = None  # the scheduler of this process, if any


class Stop(BaseException):
    """Unwinds a terminated task."""


class Task:
    def __init__(self, tid, name, daemon, kind):
        self.tid, self.name, self.daemon, self.kind = tid, name, daemon, kind
        self.sem = threading.Semaphore(0)
        self.cond, self.deadline, self.timed_out = None, None, False
        self.done = False
        self.exc = None
        self.exitcode = None
        self.env = None
        self.parent = None
        self.last = None


class Sched:
    def __init__(self, prefix=(), crash_at=None, kill=None, fault=None, filepoints=None, preempt=("q", "p", "t", "f"), early_timeouts=False, max_steps=60000, watch=None, hang_after=600.0, snap=None, delays=()):
        self.delays = tuple(delays)  # at a point of a kind to explore, the running task may also be held up for so long
        self.prefix, self.crash_at, self.kill, self.fault = list(prefix), crash_at, kill, fault
        self.snap, self.snapping = snap, False  # snap(step, what): called before every step, to look at the disk
        self.watch, self.preempt, self.early = watch, preempt, early_timeouts
        self.tasks, self.cur = [], None
        self.trace = []       # (number of options, chosen, description)
        self.steps, self.vt, self.idle = 0, 0.0, 0
        self.max_steps, self.hang_after = max_steps, hang_after
        self.base = REAL["time"]()
        self.log = []
        self.keep_log = False
        self.ending = False
        self.result_fd = None
        self.crash_hook = None
        self.last_progress = 0.0
        self.fds = {}  # file descriptors opened below `watch`, by process

    # ------------------------------------------------------------------ tasks
    def me(self):
        t = threading.current_thread()
        return getattr(t, "_vtask", None)

    def spawn(self, fn, name, daemon=False, kind="p"):
        t = Task(len(self.tasks), name, daemon, kind)
        t.parent = self.me()
        t.env = dict(os.environ) if kind == "p" else None
        t.group = t if kind == "p" else t.parent.group
        self.tasks.append(t)
        def body():
            threading.current_thread()._vtask = t
            t.sem.acquire()
            try:
                fn()
                t.exitcode = 0 if t.exitcode is None else t.exitcode
            except Stop:
                pass
            except SystemExit as e:
                t.exitcode = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException as e:
                t.exc = e
                t.exitcode = 1
                traceback.print_exc()
            self._leave(t)
        th = threading.Thread(target=body, daemon=True)
        t.thread = th
        th.start()
        return t

    def _leave(self, t):
        t.done = True
        if t.kind == "p": self._end_group(t, t.exitcode)
        self._dispatch(t, "end")

    def _end_group(self, t, code):
        """The process of t ends: its daemon threads stop where they are, its file descriptors are closed."""
        for x in self.tasks:
            if x.group is t.group and not x.done and (x.daemon or code in (-9, -15)): x.done = True; x.exitcode = code
        if any(x.group is t.group and not x.done for x in self.tasks): return
        for fd in [f for f, g in self.fds.items() if g is t.group]:
            del self.fds[fd]
            try: REAL_CLOSE(fd)
            except OSError: pass

    # ------------------------------------------------------------------ points
    def point(self, kind, what="", cond=None, timeout=None):
        """The running task is about to do `what`; it waits until cond() holds (or the timeout passes: returns False)."""
        t = self.me()
        if t is None or self.ending or self.snapping:
            return True
        self.steps += 1
        if self.snap:
            self.snapping = True
            try: self.snap(self.steps, f"{t.name}: {kind} {what}")
            finally: self.snapping = False
        if self.crash_at is not None and self.steps == self.crash_at:
            self.end("crash", what)
        if self.kill and self.kill[0] == t.name and kind in self.kill[2]:
            k = self.kill[1] = self.kill[1] - 1
            if k == 0:
                self._kill_group(t)
        if self.steps > self.max_steps:
            self.end("hang", f"more than {self.max_steps} steps; {self.describe()}")
        t.cond, t.timed_out = cond, False
        t.deadline = None if timeout is None else self.vt + max(0.0, timeout)
        t.last = f"{kind} {what}"
        if self.keep_log: self.log.append((t.name, kind, what))
        self._dispatch(t, kind)
        if t.dead_req:
            raise Stop()
        return not t.timed_out

    def _kill_group(self, t):
        self._end_group(t, -9)
        self._dispatch(t, "end")
        threading.Event().wait()  # never continues

    def _enabled(self, t):
        if t.done: return False
        if t.dead_req: return True
        if t.cond is None: return t.deadline is None
        try: return bool(t.cond())
        except Stop: raise

    def _dispatch(self, cur, kind):
        en = [t for t in self.tasks if self._enabled(t)]
        fired = None
        if not en:
            waits = [t for t in self.tasks if not t.done and t.deadline is not None]
            if not waits:
                if all(t.done or t.daemon for t in self.tasks):
                    self.end("ok")
                self.end("deadlock", self.describe())
            if all(t.done or t.daemon for t in self.tasks):
                self.end("ok")
            self.idle += 1
            nxt = min(waits, key=lambda t: (t.deadline, t.tid))
            self.vt = max(self.vt, nxt.deadline)
            if self.idle > 400:
                self.vt += 1.0
            if self.vt - self.last_progress > self.hang_after:
                self.end("hang", self.describe())
            if nxt.held:
                (nxt.cond, nxt.deadline), nxt.held = nxt.held, None
                return self._dispatch(cur, kind)
            nxt.timed_out, nxt.deadline, nxt.cond = True, None, None
            fired = nxt
            en = [nxt]
        else:
            if all(t.done or t.daemon for t in self.tasks):
                self.end("ok")
        # options: the running task first, then round robin after it
        n = len(self.tasks)
        en.sort(key=lambda t: (t.tid - cur.tid) % n if kind != "end" else t.tid)
        late = []
        if self.early and fired is None:
            late = [t for t in self.tasks if not t.done and t.deadline is not None and t not in en]
        opts = en + late
        # a running task may only be preempted at points of the kinds to explore
        if en and en[0] is cur and kind not in self.preempt:
            opts = [cur]
        c = 0
        held = self.delays if fired is None and en[0] is cur and kind in self.preempt and any(not t.done for t in self.tasks if t is not cur and t is not cur.parent) else ()
        if len(opts) + len(held) > 1:
            i = len(self.trace)
            c = self.prefix[i] if i < len(self.prefix) else 0
            if c >= len(opts) + len(held):
                self.end("diverged", f"choice {c} of {len(opts)} at {i}: {self.describe()}")
            self.trace.append((len(opts) + len(held), c, en[0] is cur))
        if c >= len(opts):
            cur.held = (cur.cond, cur.deadline)
            cur.cond, cur.deadline = (lambda: False), self.vt + held[c - len(opts)]
            cur.timed_out = False
            return self._dispatch(cur, "held")
        nxt = opts[c]
        if nxt in late:
            self.vt = max(self.vt, nxt.deadline)
            nxt.timed_out = True
        elif fired is None and not (nxt.last or "").endswith("is_alive"):
            self.last_progress = self.vt
            self.idle = 0
        nxt.cond = nxt.deadline = None
        self.cur = nxt
        if nxt is not cur:
            self._switch(cur, nxt)

    def _switch(self, cur, nxt):
        a, b = cur.group, nxt.group
        if a is not b:
            a.env = dict(os.environ)
            if b.env is not None and b.env != a.env:
                for k in list(os.environ):
                    if k not in b.env: del os.environ[k]
                for k, v in b.env.items():
                    if os.environ.get(k) != v: os.environ[k] = v
        nxt.sem.release()
        if not cur.done or cur.exitcode == -9:
            cur.sem.acquire()

    def describe(self):
        return "; ".join(f"{t.name}: {'ended' if t.done else t.last}" for t in self.tasks)

    # ------------------------------------------------------------------ running
    def main(self, fn, fd):
        self.result_fd = fd
        t = Task(0, "main", False, "p")
        t.group = t
        t.env = dict(os.environ)
        self.tasks.append(t)
        threading.current_thread()._vtask = t
        self.cur = t
        try:
            self.value = fn()
            t.exitcode = 0
        except BaseException as e:
            self.value = None
            t.exc = e
            t.exitcode = 1
            self.tb = traceback.format_exc(limit=-5)
        t.done = True
        self.main_done = True
        self._dispatch(t, "end")
        threading.Event().wait()

    value, tb, main_done = None, "", False

    def end(self, status, detail=""):
        """Finish the execution: nothing runs any more."""
        self.ending = True
        if status in ("crash",) and self.crash_hook: self.crash_hook()
        m = self.tasks[0]
        r = dict(status=status, detail=detail, steps=self.steps, trace=self.trace, value=self.value, vt=self.vt, main_done=self.main_done,
                 exc=None if m.exc is None else (type(m.exc).__name__, str(m.exc)[:3000]), tb=self.tb,
                 tasks=[(t.name, t.done, t.exitcode, None if t.exc is None else repr(t.exc)[:300] + " ... " + repr(t.exc)[-200:]) for t in self.tasks], log=self.log)
        try: b = pickle.dumps(r)
        except Exception: r["value"] = repr(self.value); b = pickle.dumps(r)
        b = struct.pack("<I", len(b)) + b
        while b: b = b[os.write(self.result_fd, b):]
        os._exit(0)


Task.dead_req = False
Task.held = None


# ---------------------------------------------------------------------- virtual processes and queues
class VQueue:
    """multiprocessing.Queue / queue.Queue."""
    def __init__(self, maxsize=0, *, ctx=None):
        self._q, self._max = [], maxsize
        self._copy = ctx is not None
    def put(self, obj, block=True, timeout=None):
        S.point("q", "put")
        self._q.append(vcopy(obj) if self._copy else obj)
    def get(self, block=True, timeout=None):
        if not block: return self.get_nowait()
        if not S.point("q", "get", cond=lambda: len(self._q) > 0, timeout=timeout) or not self._q:
            raise _queue.Empty()
        return self._q.pop(0)
    def get_nowait(self):
        S.point("q", "get_nowait")
        if not self._q: raise _queue.Empty()
        return self._q.pop(0)
    def put_nowait(self, o): self.put(o)
    def empty(self): return not self._q
    def qsize(self): return len(self._q)
    def full(self): return False
    def close(self): pass
    def join_thread(self): pass
    def cancel_join_thread(self): pass
    def task_done(self): pass


_SKIP = {"_parent_pid", "_parent_name", "_popen", "_closed", "_identity", "_config", "_vtask", "_config", "_start_method"}


class _P(pickle.Pickler):
    def __init__(self, f, keep):
        super().__init__(f, protocol=4); self.keep = keep
    def persistent_id(self, o):
        if isinstance(o, (VQueue, mpp.BaseProcess, types.FunctionType, types.ModuleType, type, threading.Thread)) or type(o).__name__ in ("_GeneratorContextManager", "lock", "RLock"):
            self.keep.append(o)
            return len(self.keep) - 1
        return None


class _U(pickle.Unpickler):
    def __init__(self, f, keep):
        super().__init__(f); self.keep = keep
    def persistent_load(self, i): return self.keep[i]


def vcopy(o):
    """What arrives in another process: a copy, except for queues, processes and functions."""
    keep, f = [], io.BytesIO()
    _P(f, keep).dump(o)
    f.seek(0)
    return _U(f, keep).load()


def _start(self):
    d = {k: v for k, v in self.__dict__.items() if k not in _SKIP}
    child = object.__new__(type(self))
    child.__dict__.update({k: v for k, v in self.__dict__.items() if k in _SKIP})
    child.__dict__.update(vcopy(d))
    S.point("p", f"start {self.name}")
    tag = getattr(self, "_target", None)
    S.nproc = getattr(S, "nproc", 0) + 1
    name = f"{tag.__name__ if tag else type(self).__name__}-{S.nproc}"
    self._vtask = S.spawn(child.run, name, daemon=bool(self._config.get("daemon")), kind="p")


def _join(self, timeout=None):
    S.point("p", "join", cond=lambda: self._vtask.done, timeout=timeout)


def _alive(self):
    t = getattr(self, "_vtask", None)
    if t is None: return False
    S.point("p", "is_alive")
    return not t.done


def _term(self):
    t = getattr(self, "_vtask", None)
    if t and not t.done:
        S.point("p", "terminate")
        S._end_group(t, -15)


def _exitcode(self):
    t = getattr(self, "_vtask", None)
    return t.exitcode if t and t.done else None


def _vt_time(): return S.base + S.vt if S and S.me() is not None else REAL["time"]()
def _vt_perf(): return 1000.0 + S.vt if S and S.me() is not None else REAL["perf"]()
def _vt_sleep(x=0, *a):
    if S and S.me() is not None: S.point("s", "sleep", cond=lambda: False, timeout=x)
    else: REAL["sleep"](min(x, 0.001))


# ---------------------------------------------------------------------- virtual threads (threading.Thread subclasses of litdata)
def virtual_thread(cls):
    """Run instances of this Thread subclass as tasks."""
    def start(self):
        S.point("p", f"start thread")
        self._vtaskobj = S.spawn(self.run, f"{cls.__name__}-{sum(t.kind == 't' for t in S.tasks) + 1}", daemon=self.daemon, kind="t")
    def join(self, timeout=None):
        t = getattr(self, "_vtaskobj", None)
        if t is not None: S.point("p", "join thread", cond=lambda: t.done, timeout=timeout)
    def is_alive(self):
        t = getattr(self, "_vtaskobj", None)
        if t is None: return False
        S.point("p", "thread is_alive")
        return not t.done
    cls.start, cls.join, cls.is_alive = start, join, is_alive


# ---------------------------------------------------------------------- files
class VFile:
    """A file opened for writing: its data reaches the disk when it is flushed or closed."""
    def __init__(self, f, path): self.__dict__["_f"], self.__dict__["_path"] = f, path
    def close(self):
        if not self._f.closed:
            S.point("f", f"close {_short(self._path)}")
            self._f.close()
    def flush(self):
        S.point("f", f"flush {_short(self._path)}"); self._f.flush()
        _fault("flush", self._path)
    def __enter__(self): self._f.__enter__(); return self
    def __exit__(self, *a): self.close()
    def __iter__(self): return iter(self._f)
    def __getattr__(self, n): return getattr(self._f, n)
    def __setattr__(self, n, v): setattr(self._f, n, v)


def _short(p):
    try: p = os.fspath(p)
    except TypeError: return str(p)
    if isinstance(p, bytes): p = os.fsdecode(p)
    return p[len(S.watch) + 1:] if S.watch and p.startswith(S.watch) else p


def _watched(p):
    if S is None or not S.watch or S.me() is None or S.ending: return False
    try: p = os.fspath(p)
    except TypeError: return False
    if isinstance(p, bytes): p = os.fsdecode(p)
    return os.path.isabs(p) and p.startswith(S.watch)


def _fault(op, p):
    if S.fault and S.fault(op, _short(p), S.me()):
        raise OSError(28, "injected fault", str(p))


def install_files():
    real_open = REAL["open"]
    def vopen(file, mode="r", *a, **k):
        if isinstance(file, int) or not _watched(file): return real_open(file, mode, *a, **k)
        S.point("f", f"open:{mode} {_short(file)}")
        _fault("open:" + mode, file)
        f = real_open(file, mode, *a, **k)
        return VFile(f, os.fspath(file)) if set(mode) & set("wax+") else f
    builtins.open = vopen
    io.open = vopen
    def wrap(mod, name, nargs):
        orig = getattr(mod, name)
        def w(*a, **k):
            hit = [x for x in a[:nargs] if isinstance(x, (str, os.PathLike)) and _watched(x)]
            if hit:
                S.point("f", f"{name} {' '.join(_short(x) for x in hit)}")
                _fault(name, hit[-1])
            return orig(*a, **k)
        w.__name__ = name
        setattr(mod, name, w)
    for n, k in (("remove", 1), ("unlink", 1), ("rename", 2), ("replace", 2), ("listdir", 1), ("scandir", 1), ("rmdir", 1), ("stat", 1), ("mkdir", 1), ("open", 1)):
        wrap(os, n, k)
    wrapped_open = os.open
    def vos_open(path, *a, **k):
        fd = wrapped_open(path, *a, **k)
        if _watched(path): S.fds[fd] = S.me().group
        return fd
    def vos_close(fd):
        if S is not None: S.fds.pop(fd, None)
        return REAL_CLOSE(fd)
    os.open, os.close = vos_open, vos_close
    import fcntl, shutil
    real_flock = fcntl.flock
    def vflock(fd, op):
        if S is not None and S.me() is not None and not S.ending and fd in S.fds: S.point("f", "flock" if not op & fcntl.LOCK_UN else "unflock")
        return real_flock(fd, op)
    fcntl.flock = vflock
    def vcopyfile(src, dst, *, follow_symlinks=True):
        """Copies in two halves, with a point between them."""
        if not _watched(dst): return orig_copyfile(src, dst, follow_symlinks=follow_symlinks)
        S.point("f", f"copy {_short(src)} {_short(dst)}")
        _fault("copy", dst)
        if os.path.isdir(dst): raise IsADirectoryError(dst)
        with real_open(src, "rb") as f: data = f.read()
        with real_open(dst, "wb") as f:
            f.write(data[:len(data) // 2]); f.flush()
            S.point("f", f"half {_short(dst)}")
            _fault("half", dst)
            f.write(data[len(data) // 2:])
        return dst
    orig_copyfile = shutil.copyfile
    shutil.copyfile = vcopyfile


class VFileLock:
    """filelock.FileLock: the installed one keeps its state for the whole (real) process. The lock file stays when it is released."""
    def __init__(self, lock_file, timeout=-1, *a, **k): self.lock_file, self.timeout, self._fd, self._n = os.fspath(lock_file), timeout, None, 0
    def acquire(self, timeout=None, *a, **k):
        import fcntl, filelock
        timeout, t0 = self.timeout if timeout is None else timeout, _vt_perf()
        while self._fd is None:
            fd = os.open(self.lock_file, os.O_RDWR | os.O_CREAT, 0o644)
            try:
                fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
                if os.fstat(fd).st_nlink: self._fd = fd; break
            except BlockingIOError: pass
            os.close(fd)
            if 0 <= timeout <= _vt_perf() - t0: raise filelock.Timeout(self.lock_file)
            _vt_sleep(0.05)
        self._n += 1
        return self
    def release(self, force=False):
        import fcntl
        self._n -= 1
        if self._fd is not None and (force or self._n <= 0):
            fd, self._fd, self._n = self._fd, None, 0
            fcntl.flock(fd, fcntl.LOCK_UN); os.close(fd)
    is_locked = property(lambda self: self._fd is not None)
    def __enter__(self): return self.acquire()
    def __exit__(self, *a): self.release()


def install_locks():
    import filelock
    real = {filelock.FileLock, filelock.UnixFileLock}
    for n, m in list(sys.modules.items()):
        if n.startswith("litdata") or n == "filelock":
            for k, v in list(vars(m).items()):
                if isinstance(v, type) and v in real: setattr(m, k, VFileLock)


def install(sched, threads=(), files=False):
    """Replace processes, queues, time (and files) in this (forked) process."""
    global S
    S = sched
    B = mpp.BaseProcess
    B.start, B.join, B.is_alive, B.terminate, B.kill = _start, _join, _alive, _term, _term
    B.exitcode = property(_exitcode)
    mpq.Queue = VQueue
    real_pid = os.getpid()
    def vpid():
        t = S.me()
        return real_pid if t is None else real_pid + 100000 * t.group.tid
    os.getpid = vpid
    signal.signal = lambda *a: None
    multiprocessing.set_start_method = lambda *a, **k: None
    _time.time, _time.perf_counter, _time.monotonic, _time.sleep = _vt_time, _vt_perf, _vt_perf, _vt_sleep
    rt = {envsetup.real_time: _vt_time, REAL["perf"]: _vt_perf, REAL["mono"]: _vt_perf, envsetup.real_sleep: _vt_sleep, envsetup._short_sleep: _vt_sleep}
    for n, m in list(sys.modules.items()):
        if n.startswith(("litdata", "filelock")):
            for k, v in list(vars(m).items()):
                try:
                    if v in rt: setattr(m, k, rt[v])
                except TypeError: pass
    for c in threads: virtual_thread(c)
    if files: install_files(); install_locks()


def execute(setup, main, **kw):
    """One execution in a forked child: setup(sched) installs what is needed, main() is the program. Returns its result."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            threads, files = kw.pop("threads", ()), kw.pop("files", False)
            sc = Sched(**kw)
            install(sc, threads=threads, files=files)
            setup(sc)
            sc.main(main, w)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(7)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 20)
        if not b: break
        buf += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if len(buf) < 4:
        return dict(status="died", detail=f"wait status {st}", trace=[], steps=0, exc=None, tasks=[], value=None, main_done=False, tb="", log=[], vt=0)
    return pickle.loads(buf[4:])


def explore(run, bound, limit=None, on=None, part=(0, 1)):
    """All schedules with at most `bound` deviations from the default one. run(prefix) -> result with a trace;
    on(prefix, result) judges it. `part` = (i, k): only every k-th of the first deviations, from the i-th on. Returns (executions, complete)."""
    todo = [((), 0)]
    n = 0
    while todo:
        prefix, dev = todo.pop()
        r = run(prefix)
        n += 1
        if on and (prefix or part[0] == 0): on(prefix, r)
        if limit and n >= limit: return n, not todo
        if dev >= bound: continue
        tr = r["trace"]
        more = [(prefix + tuple(0 for _ in range(i - len(prefix))) + (c,), dev + 1) for i in range(len(prefix), len(tr)) for c in range(1, tr[i][0])]
        todo += more if dev else more[part[0]::part[1]]
    return n, True
