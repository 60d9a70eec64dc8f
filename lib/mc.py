"""Small model-checking kernel: exhaustive case enumeration over forked shards, statistics, evidence, replay."""
import gc, hashlib, importlib, itertools, json, os, pickle, shutil, signal, struct, sys, time, traceback, faulthandler, select
from . import envsetup

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
_now = envsetup.real_time
_sleep = envsetup.real_sleep


class Violation(Exception):
    """The property is broken on this case. `key` names the specific failing case/history (for known findings)."""
    def __init__(self, what, key=None):
        super().__init__(what)
        self.what, self.key = what, key


class HarnessError(Exception):
    """The harness itself could not run: never reported as a violation."""


def canon(x):
    if isinstance(x, dict):
        return "{" + ",".join(f"{canon(k)}:{canon(v)}" for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(v) for v in x) + "]"
    return repr(x)


def h64(x):
    return struct.unpack("<q", hashlib.blake2b(canon(x).encode(), digest_size=8).digest())[0]


class Ctx:
    """Given to a case function: counters, scratch folder and a free-form per-shard memo."""
    def __init__(self, root, tier, seed):
        self.root, self.tier, self.seed = root, tier, seed
        self.states, self.outcomes = set(), set()
        self.transitions = 0
        self.execs = 0
        self.extra = {}
        self.memo = {}
        self.samples = []
        self._n = 0
        self.deadline = None
        self.capped = False
        self.heartbeat = lambda: None
        self.known = set()

    def known_or_raise(self, what, key):
        """A violation that may be a listed finding: counted and passed over if listed, raised otherwise."""
        if key in self.known:
            self.add("known:" + key)
            return
        raise Violation(what, key)

    def scratch(self, name="d"):
        self._n += 1
        p = os.path.join(self.root, f"{name}{self._n}")
        os.makedirs(p)
        return p

    def state(self, s):
        self.states.add(h64(s))

    def outcome(self, s):
        self.outcomes.add(h64(s))

    def step(self, n=1):
        self.transitions += n

    def add(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)


class Check:
    def __init__(self, pid, level="model_checking", rule="", bounds="", assumptions=()):
        self.pid, self.level, self.rule, self.bounds, self.assumptions = pid, level, rule, bounds, list(assumptions)
        self.phases = []

    def phase(self, name, cases, fn, timeout=120, nproc=None, keep_scratch=False):
        """cases: list of picklable case descriptions. fn(case, ctx) raises Violation or any exception on failure."""
        self.phases.append(dict(name=name, cases=cases, fn=fn, timeout=timeout, nproc=nproc, keep=keep_scratch))


def _clean_env(snapshot):
    os.environ.clear()
    os.environ.update(snapshot)


def _child(fd_in, fd_out, phase, root, tier, seed, errpath, deadline):
    """Worker: reads case indices from fd_in, writes pickled results to fd_out."""
    sys.stdout.flush(); sys.stderr.flush()
    devnull = os.open(errpath, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(devnull, 1); os.dup2(devnull, 2)
    faulthandler.enable(file=open(errpath + ".fault", "w"))
    faulthandler.register(signal.SIGUSR1, file=open(errpath + ".stack", "w"), all_threads=True)
    os.setpgid(0, 0)
    ctx = Ctx(root, tier, seed)
    ctx.deadline = deadline
    ctx.known = phase["known"]
    envsetup.isolate(os.path.join(root, "iso"))
    snap = dict(os.environ)
    cases, fn = phase["cases"], phase["fn"]
    out = os.fdopen(fd_out, "wb")
    def send(obj):
        b = pickle.dumps(obj)
        out.write(struct.pack("<I", len(b)) + b); out.flush()
    ctx.heartbeat = lambda: send(("hb",))
    inp = os.fdopen(fd_in, "rb")
    ngc = 0
    while True:
        b = inp.read(4)
        if len(b) < 4:
            break
        i = struct.unpack("<I", b)[0]
        if i == 0xFFFFFFFF:
            break
        viol = None
        before = set(os.listdir(root))
        try:
            fn(cases[i], ctx)
        except Violation as v:
            viol = (v.what, v.key)
            if os.environ.get("VERIF_DEBUG"):
                viol = (v.what + "\n" + traceback.format_exc(limit=-8), v.key)
        except HarnessError as e:
            send(("harness", i, f"{e}\n{traceback.format_exc(limit=-8)}"))
            _clean_env(snap)
            continue
        except MemoryError:
            send(("harness", i, "out of memory"))
            continue
        except BaseException as e:  # an error of the code under test that the property does not allow
            viol = (f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}", None)
        _clean_env(snap)
        if not phase["keep"]:
            for n in set(os.listdir(root)) - before:
                p = os.path.join(root, n)
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        if not gc.isenabled():
            ngc += 1
            if ngc % 5 == 0: gc.collect()
        send(("done", i, viol))
    send(("stats", list(ctx.states), list(ctx.outcomes), ctx.transitions, ctx.execs, ctx.extra, ctx.samples, ctx.capped))
    out.flush()
    os._exit(0)


def run_phase(phase, tier, seed, nproc, deadline, max_viol, log):
    cases = phase["cases"]
    N = len(cases)
    nproc = min(phase["nproc"] or nproc, max(1, N))
    base = os.path.join(envsetup.ROOT, phase["name"].replace("/", "_"))
    os.makedirs(base, exist_ok=True)
    res = dict(done=0, viol=[], harness=[], states=set(), outcomes=set(), transitions=0, execs=0, extra={}, samples=[], capped=False)
    nxt = 0
    workers = {}
    spawned = 0
    def spawn():
        nonlocal spawned
        spawned += 1
        root = os.path.join(base, f"w{spawned}")
        os.makedirs(root)
        pr, cw = os.pipe(); cr, pw = os.pipe()
        errpath = os.path.join(base, f"w{spawned}.err")
        pid = os.fork()
        if pid == 0:
            try:
                os.close(pr); os.close(pw)
                for w in workers.values():
                    os.close(w["pw"]); os.close(w["pr"])
                _child(cr, cw, phase, root, tier, seed, errpath, deadline)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(cw); os.close(cr)
        workers[pr] = dict(pid=pid, pr=pr, pw=pw, cur=None, t=_now(), buf=b"", root=root, err=errpath, finishing=False)
        return workers[pr]
    def feed(w):
        nonlocal nxt
        if nxt < N and len(res["viol"]) < max_viol and not res["capped"]:
            if deadline and _now() > deadline:
                res["capped"] = True
            else:
                w["cur"], w["t"] = nxt, _now()
                os.write(w["pw"], struct.pack("<I", nxt))
                nxt += 1
                return
        w["cur"] = None
        w["finishing"] = True
        w["t"] = _now()
        os.write(w["pw"], struct.pack("<I", 0xFFFFFFFF))
    def retire(w):
        for fd in (w["pr"], w["pw"]):
            try: os.close(fd)
            except OSError: pass
        workers.pop(w["pr"], None)
        try: os.killpg(w["pid"], signal.SIGKILL)
        except OSError: pass
        try: os.kill(w["pid"], signal.SIGKILL)
        except OSError: pass
        try: rc = os.waitpid(w["pid"], 0)[1]
        except ChildProcessError: rc = 0
        shutil.rmtree(w["root"], ignore_errors=True)
        return rc
    for _ in range(nproc):
        feed(spawn())
    while workers:
        r, _, _ = select.select(list(workers), [], [], 1.0)
        for fd in r:
            w = workers[fd]
            b = os.read(fd, 1 << 20)
            if not b:  # died
                cur, fin = w["cur"], w["finishing"]
                rc = os.waitpid(w["pid"], os.WNOHANG)[1] if False else None
                fault = ""
                try: fault = open(w["err"] + ".fault").read()[-1500:]
                except OSError: pass
                rc = retire(w)
                if cur is not None:
                    sig = os.WTERMSIG(rc) if os.WIFSIGNALED(rc) else None
                    if sig == signal.SIGKILL:
                        res["harness"].append((cur, "shard killed (SIGKILL), probably out of memory"))
                    else:
                        res["viol"].append((cur, f"process died (status {rc}, signal {sig})\n{fault}", None))
                    res["done"] += 1
                    if nxt < N and len(res["viol"]) < max_viol:
                        feed(spawn())
                elif not fin:
                    res["harness"].append((None, "shard died"))
                continue
            w["buf"] += b
            while len(w["buf"]) >= 4:
                n = struct.unpack("<I", w["buf"][:4])[0]
                if len(w["buf"]) < 4 + n:
                    break
                msg = pickle.loads(w["buf"][4:4 + n]); w["buf"] = w["buf"][4 + n:]
                if msg[0] == "hb":
                    w["t"] = _now()
                elif msg[0] == "done":
                    res["done"] += 1
                    if msg[2]:
                        res["viol"].append((msg[1], msg[2][0], msg[2][1]))
                    feed(w)
                elif msg[0] == "harness":
                    res["harness"].append((msg[1], msg[2])); res["done"] += 1
                    feed(w)
                elif msg[0] == "stats":
                    res["states"].update(msg[1]); res["outcomes"].update(msg[2])
                    res["transitions"] += msg[3]; res["execs"] += msg[4]
                    for k, v in msg[5].items():
                        res["extra"][k] = res["extra"].get(k, 0) + v
                    res["samples"] += msg[6]
                    res["capped"] = res["capped"] or msg[7]
                    retire(w)
                    break
        t = _now()
        for w in list(workers.values()):
            if t - w["t"] > (phase["timeout"] if not w["finishing"] else 60):
                cur = w["cur"]
                stack = ""
                try:
                    os.kill(w["pid"], signal.SIGUSR1); _sleep(0.3)
                    stack = open(w["err"] + ".stack").read()[-3000:]
                except OSError: pass
                retire(w)
                if cur is not None:
                    res["viol"].append((cur, f"no termination within {phase['timeout']} s\n{stack}", None)); res["done"] += 1
                    if nxt < N and len(res["viol"]) < max_viol:
                        feed(spawn())
    shutil.rmtree(base, ignore_errors=True)
    return res


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=<id> key=<key> :: <what fails>
                head, _, what = line[7:].partition(" :: ")
                d = dict(kv.split("=", 1) for kv in head.split(" ", 1))
                known.append((d["property"], d["key"], what))
    return known


def main(pid, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = _now()
    mod = importlib.import_module(f"checks.{pid}")
    if "--replay" in argv:
        rep = json.load(open(argv[argv.index("--replay") + 1]))
        chk = mod.build(rep["tier"], rep["seed"])
        ph = next(p for p in chk.phases if p["name"] == rep["phase"])
        case = pickle.loads(bytes.fromhex(rep["case_pickle"]))
        ctx = Ctx(os.path.join(envsetup.ROOT, "replay"), rep["tier"], rep["seed"])
        ctx.known = {k for p, k, _ in load_known() if p == pid}
        os.makedirs(ctx.root)
        envsetup.isolate(os.path.join(ctx.root, "iso"))
        print("replaying", rep["case"])
        try:
            ph["fn"](case, ctx)
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
            print(f"VIOLATION property={pid} replay={argv[argv.index('--replay') + 1]}")
            sys.stdout.flush()
            envsetup._cleanup()
            os._exit(1)
        print("no violation on replay")
        sys.stdout.flush()
        envsetup._cleanup()
        os._exit(0)
    chk = mod.build(tier, seed)
    gc.collect(); gc.freeze()
    budget = float(os.environ.get("VERIF_BUDGET", 600 if tier == "quick" else 7200))
    deadline = t0 + budget
    nproc = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    only = os.environ.get("VERIF_PHASE")
    known = load_known()
    known_keys = {k for p, k, _ in known if p == pid}
    tot = dict(states=set(), outcomes=set(), transitions=0, execs=0, cases=0, extra={}, samples=[], phases={}, capped=False)
    viols, harness = [], []
    for ph in chk.phases:
        if only and only not in ph["name"]:
            continue
        tp = _now()
        ph["known"] = known_keys
        r = run_phase(ph, tier, seed, nproc, deadline, 6, None)
        tot["states"] |= {h64((ph["name"], s)) for s in r["states"]}; tot["outcomes"] |= r["outcomes"]
        tot["transitions"] += r["transitions"]; tot["execs"] += r["execs"]; tot["cases"] += r["done"]
        for k, v in r["extra"].items():
            tot["extra"][k] = tot["extra"].get(k, 0) + v
        tot["samples"] += [f"{ph['name']}: {s}" for s in r["samples"][:2]]
        if not r["samples"] and ph["cases"]:
            tot["samples"].append(f"{ph['name']}: {canon(ph['cases'][0])[:300]}")
        tot["phases"][ph["name"]] = dict(cases=r["done"], of=len(ph["cases"]), executions=r["execs"], states=len(r["states"]),
                                         transitions=r["transitions"], outcomes=len(r["outcomes"]), wall_s=round(_now() - tp, 1), capped=r["capped"])
        tot["capped"] |= r["capped"]
        viols += [(ph, c, w, k) for c, w, k in r["viol"]]
        harness += [(ph, c, w) for c, w in r["harness"]]
        print(f"[{pid}] {ph['name']}: {tot['phases'][ph['name']]}", flush=True)
    reported, hit = [], {k[6:]: v for k, v in tot["extra"].items() if k.startswith("known:")}
    rdir = os.path.join(VERIF, "evidence", "replay")
    for ph, c, w, k in viols:
        case = ph["cases"][c]
        key = k or hashlib.blake2b((ph["name"] + canon(case)).encode(), digest_size=6).hexdigest()
        kn = next((x for x in known if x[0] == pid and x[1] == key), None)
        if kn:
            hit[key] = kn[2]
            continue
        reported.append((ph, case, w, key))
    for p, key, what in known:
        if p == pid:
            print(f"KNOWN-FINDING: property={pid} {what}" + ("" if key in hit else " (not reproduced in this run)"))
    for n, (ph, case, w, key) in enumerate(reported):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, phase=ph["name"], tier=tier, seed=seed, case=canon(case), key=key, what=w,
                           case_pickle=pickle.dumps(case).hex()), f, indent=1)
        print(f"--- {pid} phase={ph['name']} key={key}\n    case: {canon(case)[:300]}\n    {w[:2500]}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
    for ph, c, w in harness:
        print(f"HARNESS-ERROR {pid} {ph['name']} case={canon(ph['cases'][c])[:300] if c is not None else None}: {w[:2000]}")
    wall = round(_now() - t0, 2)
    execs = max(tot["execs"], tot["cases"])
    cov = dict(exhaustive=not tot["capped"] and not reported, samples=tot["samples"][:8], phases=tot["phases"], bounds=chk.bounds,
               distinct_outcomes=len(tot["outcomes"]), **{k: v for k, v in tot["extra"].items()})
    if chk.level == "model_checking":
        cov.update(states=len(tot["states"]) or tot["cases"], transitions=tot["transitions"], traces_validated_against_impl=execs)
    else:
        cov.update(evaluations=execs, distinct_nontrivial=len(tot["states"]) or tot["cases"], rule=chk.rule)
    if chk.rule:
        cov["rule"] = chk.rule
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level=chk.level, coverage=cov, assumptions=chk.assumptions,
                       wall_s=wall, violations=len(reported)), f, indent=1)
    print(f"[{pid}] {tier}: cases={tot['cases']} executions={execs} states={len(tot['states'])} transitions={tot['transitions']} "
          f"outcomes={len(tot['outcomes'])} violations={len(reported)} wall={wall}s", flush=True)
    envsetup._cleanup()
    if reported:
        os._exit(1)
    if harness:
        os._exit(2)
    os._exit(0)
