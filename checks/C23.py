from lib import mc, ds, envsetup, opt
import itertools, json, os, pickle, shutil
import numpy as np, torch
import litdata
from litdata import optimize
from litdata.streaming.cache import Cache
from litdata.streaming.item_loader import TokensLoader, PyTreeLoader
from litdata.utilities.encryption import Encryption, FernetEncryption, RSAEncryption

import litdata.streaming.item_loader as il
if hasattr(il, "_FORCE_DOWNLOAD_TIME"): il._FORCE_DOWNLOAD_TIME = 0.06
if hasattr(il, "_MAX_WAIT_TIME"): il._MAX_WAIT_TIME = 20

MARK = "TOPSECRETMARKER"
E = {}


class Xor(Encryption):
    """A user-defined algorithm, with a checksum so that a wrong key is noticed."""
    def __init__(self, key, level): self.key, self.level = key, level
    algorithm = property(lambda self: "xor")
    def encrypt(self, data): return bytes((b + self.key) % 256 for b in data + bytes([sum(data) % 256, 7]))
    def decrypt(self, data):
        d = bytes((b - self.key) % 256 for b in data)
        if not d or d[-1] != 7 or sum(d[:-2]) % 256 != d[-2]: raise ValueError("wrong key")
        return d[:-2]
    def state_dict(self): return {"algorithm": self.algorithm, "level": self.level}
    def save(self, p): open(p, "w").write(json.dumps([self.key, self.level]))
    @classmethod
    def load(cls, p, password): return cls(*json.load(open(p)))


# kind of data -> sample for v
KINDS = {
    "str":   lambda v: f"{MARK}{v}",
    "bytes": lambda v: f"{MARK}{v}".encode(),
    "dict":  lambda v: {"a": v, "b": f"{MARK}{v}"},
    "list":  lambda v: [f"{MARK}{v}", v, float(v)],
    "ten":   lambda v: torch.tensor([*MARK.encode(), v], dtype=torch.uint8),
    "npy":   lambda v: np.array([*MARK.encode(), v], dtype=np.uint8),
}


def text(v):
    if isinstance(v, torch.Tensor): return f"t{v.tolist()}"
    if isinstance(v, np.ndarray): return f"n{v.tolist()}"
    if isinstance(v, dict): return "{" + ",".join(f"{k}:{text(x)}" for k, x in v.items()) + "}"
    if isinstance(v, (list, tuple)): return "[" + ",".join(map(text, v)) + "]"
    return str(v)


def same(a, b):
    """Whether data written with a can be read with b."""
    if a is None: return True
    return b is not None and a[:-2] == b[:-2] and a.split("-")[1] == b.split("-")[1] and a[-1] == b[-1]


def write(path, kind, key, compression, layout):
    cache = Cache(path, chunk_size=2, compression=compression, encryption=E[key] if key else None)
    i = 0
    for m in layout:
        for _ in range(m): cache[i] = KINDS[kind](i); i += 1
        w = cache._writer
    cache.done(); cache.merge()
    return i


def leaks(path):
    out = []
    for d, _, ff in os.walk(path):
        for f in ff:
            with open(os.path.join(d, f), "rb") as h:
                if MARK.encode() in h.read(): out.append(f)
    return out


def pair(case, ctx):
    """Written with one setting, read with every other."""
    kind, compression, n, wkey = case
    p = ctx.scratch("d"); envsetup.isolate(ctx.scratch("home"))
    what = f"{kind} {compression} {n} samples written with {wkey}"
    try: write(p, kind, wkey, compression, (n,))
    except Exception as e:
        if wkey and wkey.startswith("rsa") and "C" == wkey[-1]: ctx.outcome("too large"); return     # RSA is limited to 190 bytes
        raise mc.Violation(f"{what}: {e!r}")
    if wkey and leaks(p): raise mc.Violation(f"{what}: the data is in clear in {leaks(p)}")
    want = [text(KINDS[kind](i)) for i in range(n)]
    for rkey in [None, *E]:
        ok = wkey is None or wkey == rkey
        d = litdata.StreamingDataset(p, encryption=E[rkey] if rkey else None)
        # every sample twice, so that a failed attempt doesn't make the next one succeed
        for i in [*range(n), *range(n)]:
            try: got = text(d[i])
            except Exception as e: got = e
            ctx.step()
            if ok:
                if got != want[i]: raise mc.Violation(f"{what}, read with {rkey}: sample {i} is {got!r}, expected {want[i]!r}")
            elif not isinstance(got, Exception):
                raise mc.Violation(f"{what}: sample {i} can be read with {rkey}: {got!r}")
        ctx.outcome((wkey, rkey, ok)); ctx.state((case, rkey))
        ds.stop_threads()


def order(case, ctx):
    """Every access sequence; two datasets of different keys and levels are open at once."""
    (k1, k2), compression, seq = case
    envsetup.isolate(ctx.scratch("home"))
    paths = [ctx.scratch("a"), ctx.scratch("b")]
    for p, k in zip(paths, (k1, k2)): write(p, "str", k, compression, (5,))
    # the second holds other samples
    dd = [litdata.StreamingDataset(p, encryption=E[k]) for p, k in zip(paths, (k1, k2))]
    bad = litdata.StreamingDataset(paths[0], encryption=E[k2])
    for which, i in seq:
        if which < 2:
            got = text(dd[which][i])
            if got != f"{MARK}{i}": raise mc.Violation(f"{case}: dataset {which} sample {i} reads {got!r}")
        else:
            try: got = text(bad[i])
            except Exception: got = None
            if got is not None and k1 != k2: raise mc.Violation(f"{case}: sample {i} is read with the wrong key: {got!r}")
        ctx.step()
    ctx.state(case)
    ds.stop_threads()


def saved(case, ctx):
    """Histories of save / load / pickle; the result decrypts what the original encrypted, and the other way round."""
    kind, level, password, ops = case
    cls = dict(fernet=FernetEncryption, rsa=RSAEncryption)[kind]
    d = ctx.scratch("k")
    what = f"{kind} {level} password {password!r} after {ops}"
    orig = cls(password, level=level)
    clear = b"x" * 20 + MARK.encode()
    secret = orig.encrypt(clear)
    cur = orig
    try:
        for k, op in enumerate(ops):
            f = os.path.join(d, f"f{k}")
            if op == "save":
                cur.save(f)
                with open(f, "rb") as h: raw = h.read()
                if len(password) > 3 and password.encode() in raw or json.dumps(password)[1:-1].encode() in raw and len(password) > 3:
                    raise mc.Violation(f"{what}: the saved file holds the password in clear")
                other = None
                try:
                    other = cls.load(f, password + "x")
                    out = other.decrypt(secret)
                except Exception: pass
                else: raise mc.Violation(f"{what}: loaded with a wrong password, it decrypts to {out!r}")
                cur = cls.load(f, password)
            elif op == "pickle": cur = pickle.loads(pickle.dumps(cur))
            elif op == "keys":
                cur.save_keys(f + "a", f + "b")
                new = cls(password, level=level)
                if password:
                    try: new.load_keys(f + "a", f + "b", password + "x")
                    except Exception: pass
                    else: raise mc.Violation(f"{what}: the keys are loaded with a wrong password")
                    new = cls(password, level=level)
                new.load_keys(f + "a", f + "b", password)
                cur = new
            ctx.step()
            if cur.level != level or cur.algorithm != orig.algorithm: raise mc.Violation(f"{what}: level or algorithm changed")
            if cur.decrypt(secret) != clear: raise mc.Violation(f"{what}: decrypts differently")
            if orig.decrypt(cur.encrypt(clear)) != clear: raise mc.Violation(f"{what}: encrypts differently")
            if cur.state_dict() != orig.state_dict(): raise mc.Violation(f"{what}: {cur.state_dict()}")
    except mc.Violation: raise
    except Exception as e: raise mc.Violation(f"{what}: {e!r}")
    if cls(password, level=level).level != level: raise mc.Violation("level")
    try: out = cls(password, level=level).decrypt(secret)
    except Exception: pass
    else: raise mc.Violation(f"{what}: a different object with the same password decrypts to {out!r}")
    ctx.state(case)


def layouts(case, ctx):
    """Token data: either encrypted and readable, or refused."""
    key, level, reader = case
    p = ctx.scratch("d"); envsetup.isolate(ctx.scratch("home"))
    toks = lambda i: torch.frombuffer(bytearray(MARK.encode() + bytes([i])), dtype=torch.uint8).to(torch.uint8)
    loader = TokensLoader(block_size=16)
    try:
        cache = Cache(p, chunk_size=32, encryption=E[key] if key else None, item_loader=loader if level == "tokens" else None)
        for i in range(4): cache[i] = toks(i)
        cache.done(); cache.merge()
    except Exception as e:
        if key is None: raise mc.Violation(f"{case}: {e!r}")
        ctx.outcome("refused"); return
    if key and leaks(p): raise mc.Violation(f"{case}: the data is in clear in {leaks(p)}")
    try:
        d = litdata.StreamingDataset(p, encryption=E[key] if key else None, item_loader=TokensLoader(block_size=16) if reader == "tokens" else None)
        got = [text(d[i]) for i in range(4)]
    except Exception as e: got = e
    want = [text(toks(i)) for i in range(4)]
    ctx.outcome((case, isinstance(got, Exception))); ctx.state(case)
    if isinstance(got, Exception):
        if reader == level: raise mc.Violation(f"{case}: {got!r}")
    elif got != want: raise mc.Violation(f"{case}: reads {got}, expected {want}")
    ds.stop_threads()


def whole(case, ctx):
    """Through optimize with several workers, appended to, then read."""
    key, compression, nworkers, n, append = case
    root = os.path.realpath(ctx.scratch("w")); out = os.path.join(root, "out")
    f = lambda i: {"x": f"{MARK}{i}"}
    r = opt.run(os.path.join(root, "h"), lambda: optimize(f, list(range(n)), out, chunk_size=2, num_workers=nworkers, compression=compression, encryption=E[key]))
    if not opt.ok(r): raise mc.Violation(f"{case}: {opt.short(r)}")
    if append:
        r = opt.run(os.path.join(root, "h2"), lambda: optimize(f, list(range(n, n + 3)), out, chunk_size=2, num_workers=nworkers, compression=compression, encryption=E[key] if append == "same" else None, mode="append"))
        if append == "same" and not opt.ok(r): raise mc.Violation(f"{case}: {opt.short(r)}")
        if append == "none" and opt.ok(r): raise mc.Violation(f"{case}: appending in clear to encrypted data isn't refused")
        if append == "none": ctx.state(case); return      # what the caller wanted in clear was refused
        n += 3
    if leaks(out): raise mc.Violation(f"{case}: the data is in clear in {leaks(out)}")
    envsetup.isolate(os.path.join(root, "home"))
    d = litdata.StreamingDataset(out, encryption=E[key])
    got = [text(d[i]) for i in range(len(d))]
    if got != [text(f(i)) for i in range(n)]: raise mc.Violation(f"{case}: reads {got}")
    for rkey in [None, *E]:
        if rkey == key: continue
        d = litdata.StreamingDataset(out, encryption=E[rkey] if rkey else None)
        for i in range(len(d)):
            try: got = d[i]
            except Exception: continue
            raise mc.Violation(f"{case}: read with {rkey}: {got!r}")
        ds.stop_threads()
    ctx.step(); ctx.state(case)


def build(tier, seed):
    quick = tier == "quick"
    for n, p in (("1", "pw"), ("2", "pw"), ("3", "other")):
        for l in ("sample", "chunk"):
            if n == "3" and l == "chunk" and quick: continue
            # the keys of one number share everything but the level
            e = FernetEncryption(p, level=l)
            if l == "chunk":
                s = E[f"fernet-{n}-S"]
                e.salt, e.key, e.fernet = s.salt, s.key, s.fernet
            E[f"fernet-{n}-{l[0].upper()}"] = e
    for n in ("1", "2"):
        for l in ("sample", "chunk"):
            if n == "2" and l == "chunk" and quick: continue
            e = RSAEncryption("pw", level=l)
            if l == "chunk": e.private_key, e.public_key = E[f"rsa-{n}-S"].private_key, E[f"rsa-{n}-S"].public_key
            E[f"rsa-{n}-{l[0].upper()}"] = e
    for k in (3, 5):
        for l in ("sample", "chunk"): E[f"xor-{k}-{l[0].upper()}"] = Xor(k, l)
    c = mc.Check("C23", rule="every pair of (write settings, read settings), every sample read twice; every access sequence over datasets of two keys; every history of save, load, pickle",
                 bounds=f"{len(E)} encryption objects (3 algorithms, 2-3 keys, 2 levels), 6 kinds of data, 1-5 samples, compression none and zstd, access sequences to length {3 if quick else 4}")
    c.phase("pairs", [(k, z, n, w) for k in KINDS for z in (None, "zstd") for n in ((1, 5) if quick else (1, 2, 3, 5, 6)) for w in [None, *E]], pair)
    acc = [(w, i) for w in (0, 1, 2) for i in (0, 1, 3)]
    keys = [("fernet-1-S", "fernet-2-S"), ("fernet-1-C", "fernet-2-C"), ("fernet-1-C", "fernet-1-S"), ("xor-3-C", "xor-5-C"), ("xor-3-S", "xor-5-S"), ("xor-3-C", "fernet-1-C")]
    c.phase("orders", [(k, z, s) for k in keys for z in ((None,) if quick else (None, "zstd")) for s in itertools.product(acc, repeat=2 if quick else 3)] +
            [(k, None, s) for k in keys[1:2] for s in itertools.product(acc, repeat=3)], order)
    c.phase("saved", [(k, l, p, o) for k in ("fernet", "rsa") for l in ("sample", "chunk") for p in ("password", "", "pässwörd \"'") for o in [x for n in (1, 2, 3) for x in itertools.product(("save", "pickle", "keys"), repeat=n)]
                      if (k == "rsa" or not {"pickle", "keys"} & set(o)) and (not quick or len(o) < 3)], saved)
    c.phase("layouts", [(k, a, b) for k in [None, *E] for a in ("tokens", "tree") for b in ("tokens", "tree")], layouts)
    opt.warm()
    c.phase("whole", [(k, z, w, n, a) for k in E if not (k.startswith("rsa") and k.endswith("C")) for z in (None, "zstd") for w in (1, 2) for n in (3, 4) for a in (None, "same", "none") if not quick or (w == 2) == (n == 4)], whole)
    return c
