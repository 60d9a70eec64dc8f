from lib import mc, ds, envsetup, fakemp
import itertools, math, os
from collections import Counter

BASE = 100


def col(b):
    return [ds.dec(x) for x in b]


def dataset(layout, comb=None, **kw):
    if comb is None:
        return ds.StreamingDataset(os.path.join(DATA, "0_" + "-".join(map(str, layout))), **kw)
    dd = [ds.StreamingDataset(os.path.join(DATA, f"{i}_" + "-".join(map(str, l))), **kw) for i, l in enumerate(layout)]
    return ds.CombinedStreamingDataset(dd, seed=kw.get("seed", 42), weights=None if comb == "all" else [0.5] * len(layout), iterate_over_all=comb == "all")


def epochs_of(ld, n):
    return [list(map(tuple, ld)) for _ in range(n)]


def expected(cfg, n, ctx):
    """The first n epochs of a freshly built loader that is only ever iterated completely (memoised per shard)."""
    layout, comb, W, bs, sh, dl, seed, pers = cfg
    key = ("ref", cfg)
    if len(ctx.memo.get(key, ())) < n:
        d = dataset(layout, comb, shuffle=sh, drop_last=dl, seed=seed)
        ctx.memo[key] = epochs_of(fakemp.loader(d, batch_size=bs, num_workers=W, collate_fn=col), n)
        ctx.execs += 1
    return ctx.memo[key]


def epochs(case, ctx):
    """Complete epochs: content, batch sizes, reported length, reproducibility, fresh shuffles; over all ranks."""
    layout, world, W, bs, sh, dl, seed, pers = case
    n = sum(layout)
    E = 4 if n >= 8 else 3
    tot = [Counter() for _ in range(E)]
    seqs = []
    for r in range(world):
        with ds.dist(world, r, 1):
            def mk():
                d = dataset(layout, None, shuffle=sh, seed=seed); d.set_drop_last(dl)
                kw = {"persistent_workers": True} if pers else {}
                return fakemp.loader(d, batch_size=bs, num_workers=W, collate_fn=col, **kw)
            ld = mk()
            rep = [len(ld)]
            got = []
            for e in range(E):
                got.append(list(ld)); rep.append(len(ld))
            ctx.execs += 1
            what = f"chunks {layout}, rank {r} of {world}, {W} workers, batch {bs}, shuffle {sh}, drop_last {dl}, seed {seed}, persistent {pers}"
            for e, g in enumerate(got):
                if rep[e] != len(g) or rep[e + 1] != len(g):
                    raise mc.Violation(f"{what}: epoch {e + 1} reported {rep[e]}/{rep[e + 1]} batches, delivered {len(g)}")
                if any(len(b) > bs for b in g) or sum(len(b) < bs for b in g) > max(1, W):
                    raise mc.Violation(f"{what}: epoch {e + 1} has batches {g}")
                for b in g: tot[e].update(b)
                ctx.step(len(g)); ctx.outcome(g)
            if epochs_of(mk(), E) != [list(map(tuple, g)) for g in got]:
                raise mc.Violation(f"{what}: a second run delivers other batches")
            if not sh and any(g != got[0] for g in got):
                raise mc.Violation(f"{what}: the epochs of an unshuffled loader differ: {got}")
            flat = [[x for b in g for x in b] for g in got]
            seqs.append(flat)
            ctx.state(case + (r,))
    for e in range(E):
        if not dl and tot[e] != Counter(range(n)):
            raise mc.Violation(f"{case}: epoch {e + 1} of all ranks delivers {sorted(tot[e].elements())}")
        if dl and (set(tot[e].values()) - {1} or set(tot[e]) - set(range(n))):
            raise mc.Violation(f"{case}: epoch {e + 1} of all ranks delivers {sorted(tot[e].elements())}")
    if sh and n >= 10:
        for r, sq in enumerate(seqs):
            f = [tuple(x) for x in sq]
            if world == 1 and len(set(f)) != len(f):
                raise mc.Violation(f"{case}: two of {E} epochs have the same shuffle")
            if len(layout) >= 6 and world > 1 and len({frozenset(x) for x in f}) == 1:  # one node: its chunks are dealt anew in each epoch
                raise mc.Violation(f"{case}: rank {r} gets the same samples in each of {E} epochs")
    ctx.sample(dict(case=case, epochs=seqs))


def history(case, ctx):
    """Every sequence of operations on one loader: F full epoch, 1/2 leave the epoch after that many batches,
    N len(), S state_dict(). The i-th iteration that is started delivers the i-th epoch."""
    cfg, ops = case
    layout, comb, W, bs, sh, dl, seed, pers = cfg
    d = dataset(layout, comb, shuffle=sh, drop_last=dl, seed=seed)
    kw = {"persistent_workers": True} if pers else {}
    ld = fakemp.loader(d, batch_size=bs, num_workers=W, collate_fn=col, **kw)
    ref = expected(cfg, sum(o in "F12" for o in ops), ctx)
    e = 0
    for i, o in enumerate(ops):
        what = f"{cfg}: after {ops[:i]}, "
        if o == "F":
            got = list(map(tuple, ld))
            if got != ref[e]:
                raise mc.Violation(what + f"epoch {e + 1} delivers {got}, expected {ref[e]}")
            e += 1
        elif o in "12":
            it = iter(ld)
            got = []
            for _ in range(int(o)):
                try: got.append(tuple(next(it)))
                except StopIteration: break
            if hasattr(it, "close"): it.close()
            del it
            if got != ref[e][:int(o)]:
                raise mc.Violation(what + f"epoch {e + 1} starts with {got}, expected {ref[e][:int(o)]}")
            e += 1
        elif o == "N":
            if comb is None and len(ld) != len(ref[0]):
                raise mc.Violation(what + f"len() is {len(ld)}, an epoch has {len(ref[0])} batches")
        elif o == "S":
            ld.state_dict()
        ctx.step()
    ctx.execs += 1
    ctx.state(case)


def hist_group(case, ctx):
    cfg, opss = case
    for ops in opss:
        history((cfg, ops), ctx)


def settings(case, ctx):
    """One dataset object handed to loader after loader with changing settings; each behaves like a loader over a
    fresh dataset built with these settings."""
    layout, seq, uses = case
    d = dataset(layout, None, shuffle=False, seed=42)
    for i, ((W, bs, sh, dl), use) in enumerate(zip(seq, uses)):
        ld = fakemp.loader(d, batch_size=bs, num_workers=W, shuffle=sh, drop_last=dl, collate_fn=col)
        what = f"chunks {layout}: loader {i + 1} of {seq[:i + 1]} (uses {uses[:i + 1]}), "
        ref = expected((layout, None, W, bs, sh, dl, 42, False), 2, ctx)
        for u in use:
            if u == "N":
                if len(ld) != len(ref[0]):
                    raise mc.Violation(what + f"len() is {len(ld)}, a fresh loader delivers {len(ref[0])} batches")
            elif u == "D":
                if len(d) != sum(map(len, ref[0])):
                    raise mc.Violation(what + f"the dataset's len() is {len(d)}, a fresh one delivers {sum(map(len, ref[0]))} samples")
            elif u == "F":
                got = list(map(tuple, ld))
                if got != ref[0]:
                    raise mc.Violation(what + f"delivers {got}, a fresh loader {ref[0]}")
            elif u == "1":
                it = iter(ld); g = [tuple(next(it))] if ref[0] else []; it.close(); del it
                if g != ref[0][:1]:
                    raise mc.Violation(what + f"starts with {g}, a fresh loader with {ref[0][:1]}")
        ctx.step()
        ctx.state((layout, seq[:i + 1], uses[:i + 1]))
    ctx.execs += 1


def resumed(case, ctx):
    """A resumed loader that leaves the resumed epoch early and starts again behaves like one never interrupted."""
    cfg, k, left = case
    layout, comb, W, bs, sh, dl, seed, pers = cfg
    ref = expected(cfg, 3, ctx)
    if k >= len(ref[0]): return
    mk = lambda: fakemp.loader(dataset(layout, comb, shuffle=sh, drop_last=dl, seed=seed), batch_size=bs, num_workers=W, collate_fn=col)
    a = mk(); it = iter(a)
    for _ in range(k): next(it)
    s = a.state_dict(); it.close()
    b = mk(); b.load_state_dict(s)
    it = iter(b); got = []
    for _ in range(left):
        try: got.append(tuple(next(it)))
        except StopIteration: break
    it.close()
    if got != ref[0][k:k + left]:
        raise mc.Violation(f"{cfg}: resumed after {k} batches, delivers {got}, expected {ref[0][k:k + left]}")
    for e in (1, 2):
        got = list(map(tuple, b))
        if got != ref[e]:
            raise mc.Violation(f"{cfg}: resumed after {k} batches, left after {left} more; then epoch {e + 1} delivers {got}, expected {ref[e]}")
    ctx.execs += 1; ctx.step(); ctx.state(case)


def build(tier, seed):
    global DATA
    quick = tier == "quick"
    DATA = os.path.join(envsetup.ROOT, "data")
    vec = ds.vectors(4 if quick else 6) + [(3, 2, 4), (5, 5, 2), (4, 4, 4), (1,) * 7, (12,), (2,) * 6]
    for v in dict.fromkeys(vec + [(2, 3), (3, 1), (4,), (3, 3, 3), (3, 2, 3)]):
        for i in range(2):
            ds.write_layout(os.path.join(DATA, f"{i}_" + "-".join(map(str, v))), v, start=i * BASE)
    c = mc.Check("C26", rule="every chunk vector x ranks x workers x batch x shuffle x drop x seed over 3-4 epochs; every operation history of one loader; every sequence of loaders with changing settings over one dataset; resumed loaders left early",
                 bounds=f"compositions of up to {4 if quick else 6} samples + larger; up to 3 workers, 2 ranks; histories of {3 if quick else 4} operations; {2 if quick else 3} loaders over one dataset")
    cases = []
    for v in vec:
        for world, W, bs in itertools.product((1, 2), (0, 1, 2, 3), (1, 2, 3)):
            for sh, dl in itertools.product((False, True), (False, True)):
                for sd in ((42,) if quick else (42, 1, 2)):
                    if quick and (sum(v) + len(v) + world + W + bs + sh + dl) % 2 and sum(v) < 5: continue
                    cases.append((v, world, W, bs, sh, dl, sd, False))
                    if W and (sum(v) > 4 or not quick): cases.append((v, world, W, bs, sh, dl, sd, True))
    c.phase("epochs", cases, epochs, timeout=120)
    L = 3 if quick else 4
    opss = [o for k in range(1, L + 1) for o in itertools.product("F12NS", repeat=k) if o[-1] in "F12N"]
    cases = []
    for v in [(2, 3), (3, 1), (5, 5, 2)] + ([] if quick else [(3, 3, 3), (1,) * 7]):
        for W, bs, sh, dl in itertools.product((0, 1, 2), (1, 2), (False, True), (False, True)):
            for pers in ((False, True) if W else (False,)):
                if quick and dl and (not sh or sum(v) < 6): continue
                for j in range(0, len(opss), 40):
                    cases.append(((v, None, W, bs, sh, dl, 42, pers), opss[j:j + 40]))
    for vv in [((2, 3), (3, 1))]:
        for W, bs, sh, comb in itertools.product((0, 1, 2), (1, 2), (False, True), ("all", "weights")):
            for j in range(0, len(opss), 40):
                cases.append(((vv, comb, W, bs, sh, False, 42, False), opss[j:j + 40]))
    c.phase("histories", cases, hist_group, timeout=200)
    S = [(W, bs, sh, dl) for W in (0, 2) for bs in (1, 3) for sh in (False, True) for dl in (False, True)]
    U = ("N", "F", "1N", "FN", "D", "FD", "")
    cases = []
    for v in [(3, 2, 3)] + ([] if quick else [(5, 5, 2), (1,) * 7]):
        for a, b in itertools.product(S, S):
            if a == b: continue
            for u in (("N", "N"), ("F", "N"), ("1", "F"), ("D", "D"), ("FN", "FN"), ("", "NF"), ("ND", "F")):
                if u == ("D", "D") and (a[0] or b[0]) and False: continue
                cases.append((v, (a, b), u))
        if not quick:
            for a, b, d in itertools.product(S[::3], S[1::3], S[2::3]):
                cases.append((v, (a, b, d), ("NF", "1N", "FND")))
    c.phase("settings", cases, settings, timeout=120)
    cases = []
    for v in [(2, 3), (5, 5, 2)]:
        for W, bs, sh in itertools.product((0, 1, 2), (1, 2), (False, True)):
            for k in range(1, 6):
                for left in range(1, 4):
                    cases.append(((v, None, W, bs, sh, False, 42, False), k, left))
    for W, bs, comb in itertools.product((0, 1, 2), (1, 2), ("all", "weights")):
        for k in range(1, 4):
            for left in range(1, 3):
                cases.append(((((2, 3), (3, 1)), comb, W, bs, False, False, 42, False), k, left))
    c.phase("resumed-left-early", cases, resumed, timeout=120)
    return c
