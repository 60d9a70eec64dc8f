from lib import mc, ds, envsetup, fakemp
import os, copy, itertools

BASE = 100  # samples of dataset i encode BASE*i + j

def dset(i, layout, **kw):
    return ds.StreamingDataset(os.path.join(DATA, f"{i}_" + "-".join(map(str, layout))), **kw)

def col(b):
    return [ds.dec(x) for x in b]

def faithful(seq, refs, what):
    """seq must be a merge of prefixes of refs. returns how many of each."""
    pos = [0] * len(refs)
    for x in seq:
        i = x // BASE
        if i >= len(refs) or pos[i] >= len(refs[i]) or refs[i][pos[i]] != x:
            raise mc.Violation(f"{what}: sample {x} of dataset {i} out of order, repeated or skipped: {seq}, own orders {refs}")
        pos[i] += 1
    return pos

def mix(case, ctx):
    layouts, weights, shuffle, batching, bs = case
    lens = [sum(l) for l in layouts]
    first = None
    for seed in SEEDS:
        def make():
            dd = [dset(i, l, shuffle=shuffle) for i, l in enumerate(layouts)]
            c = ds.CombinedStreamingDataset(dd, seed=seed, weights=weights, iterate_over_all=weights is None, batching_method=batching)
            c.set_batch_size(bs)
            return c
        refs = [ds.epoch_samples(dset(i, l, shuffle=shuffle)) for i, l in enumerate(layouts)]
        c = make()
        if weights is None and len(c) != sum(lens):
            raise mc.Violation(f"reported length {len(c)} instead of {sum(lens)}")
        seq = [ds.dec(x) for x in c]
        ctx.step(len(seq)); ctx.execs += 1; ctx.state((case, seed)); ctx.outcome(seq)
        pos = faithful(seq, refs, f"seed {seed}")
        if weights is None:
            if pos != lens:
                raise mc.Violation(f"not everything delivered: {pos} of {lens}: {seq}")
        else:
            if not any(p == n and w > 0 for p, n, w in zip(pos, lens, weights)):
                raise mc.Violation(f"stopped although no dataset was exhausted: {pos} of {lens} weights {weights}: {seq}")
            if any(p and not w for p, w in zip(pos, weights)):
                raise mc.Violation(f"drew from a dataset of weight zero: {seq} weights {weights}")
        if [ds.dec(x) for x in make()] != seq:
            raise mc.Violation(f"the mixture is not determined by the seed {seed}")
        # batches of one stream, as long as the stream lasts
        if batching == "per_stream":
            left = list(lens)
            for b in [seq[i:i + bs] for i in range(0, len(seq), bs)]:
                ids = {x // BASE for x in b}
                for x in b: left[x // BASE] -= 1
                if len(ids) > 1 and not any(left[i] == 0 for i in ids):
                    raise mc.Violation(f"seed {seed}: batch {b} mixes streams none of which is exhausted: {seq}")
        # second epoch through the same object
        c2 = make()
        e1 = [ds.dec(x) for x in c2]
        e2 = [ds.dec(x) for x in c2]
        if weights is None and sorted(e2) != sorted(seq):
            raise mc.Violation(f"second epoch incomplete: {e2}")
        if len(set(e2)) != len(e2):
            raise mc.Violation(f"second epoch repeats samples: {e2}")
        # a first epoch left early, then a whole one
        c3 = make(); it = iter(c3)
        for _ in range(min(2, len(seq))): next(it)
        e3 = [ds.dec(x) for x in c3]
        if not shuffle and e3 != seq:
            raise mc.Violation(f"restarting after a partial epoch gives {e3} instead of {seq}")
    ctx.sample(dict(case=case, seed=seed, mixed=seq))

def ratio(case, ctx):
    weights, batching, bs = case
    n = 120
    cnt = [0, 0]; tot = 0
    for seed in range(40):
        dd = [dset(i, (n,)) for i in range(2)]
        c = ds.CombinedStreamingDataset(dd, seed=seed, weights=weights, iterate_over_all=False, batching_method=batching)
        c.set_batch_size(bs)
        it = iter(c)
        for _ in range(n):
            cnt[ds.dec(next(it)) // BASE // 2] += 1; tot += 1
        ctx.execs += 1; ctx.step(n)
    p = weights[0] / sum(weights)
    got = cnt[0] / tot
    sigma = (p * (1 - p) * bs / tot) ** 0.5 if batching == "per_stream" else (p * (1 - p) / tot) ** 0.5
    ctx.state(case)
    if abs(got - p) > 6 * sigma + 1e-9:
        raise mc.Violation(f"weights {weights}: share of the first dataset {got:.3f}, requested {p:.3f} (sigma {sigma:.4f})")

def resume(case, ctx):
    layouts, weights, shuffle, batching, bs, nw, seed = case
    def mk():
        dd = [dset(i, l, shuffle=shuffle) for i, l in enumerate(layouts)]
        c = ds.CombinedStreamingDataset(dd, seed=seed, weights=weights, iterate_over_all=weights is None, batching_method=batching)
        return fakemp.loader(c, num_workers=nw, batch_size=bs, collate_fn=col)
    l = mk()
    ref, states = [], {}
    for e in range(3):
        bl = []
        for b in l:
            bl.append(b); s = l.state_dict(); states[(e, len(bl))] = (s, copy.deepcopy(s))
        ref.append(bl); ctx.step(len(bl))
    for (e, k), (s, c) in states.items():
        if s != c:
            raise mc.Violation(f"saved state (epoch {e+1}, {k} batches) changed by further iteration: {c} -> {s}")
    if weights is None:
        for e, bl in enumerate(ref):
            flat = sorted(x for b in bl for x in b)
            if flat != sorted(BASE * i + j for i, lay in enumerate(layouts) for j in range(sum(lay))):
                raise mc.Violation(f"epoch {e+1} does not deliver everything exactly once: {bl}")
    def check(e, k, state, chain, hist):
        l2 = mk(); keep = copy.deepcopy(state)
        l2.load_state_dict(state)
        ctx.execs += 1; ctx.state((case, tuple(hist), e, k))
        want = ([ref[e][k:]] if k < len(ref[e]) else []) + ([ref[e + 1]] if e < 2 else [])
        saved = []
        for j, w in enumerate(want):
            first = j == 0 and k < len(ref[e])
            got = []
            for b in l2:
                got.append(b); ctx.step()
                saved.append(((e, k + len(got)) if first else (e + 1, len(got))) + (copy.deepcopy(l2.state_dict()),))
                if len(got) > len(w) + 2: break
            if j == 0 and k == len(ref[e]) and got == [] and w:  # nothing left of the interrupted epoch
                got = list(l2)
            if got != w:
                raise mc.Violation(f"resumed {hist} in epoch {e+1} after {k} of {len(ref[e])} batches: expected {w} got {got} (part {j}); uninterrupted: {ref}")
        if state != keep:
            raise mc.Violation(f"the loaded state was changed by iterating: {keep} -> {state}")
        if chain:
            for ee, kk, s in saved:
                if ee <= 1 and (ctx.tier != "quick" or (kk + k) % 2):
                    check(ee, kk, s, chain - 1, hist + [(e, k)])
    for e in (0, 1):
        for k in range(1, len(ref[e]) + 1):
            check(e, k, states[(e, k)][1], 1, [])
    l3 = mk(); l3.load_state_dict(mk().state_dict())
    if list(l3) != ref[0]:
        raise mc.Violation("resuming from the initial state does not start with the first epoch")
    ctx.outcome(ref); ctx.sample(dict(case=case, uninterrupted=ref))

def build(tier, seed):
    global DATA, SEEDS
    SEEDS = range(4) if tier == "quick" else range(12)
    DATA = os.path.join(envsetup.ROOT, "data")
    q = tier == "quick"
    pool = [(1,), (2,), (1, 2), (4,), (2, 3)] if q else [(1,), (2,), (1, 1), (1, 2), (4,), (2, 3), (3, 3), (7,)]
    for i in range(3):
        for v in pool + [(3,), (5,), (1, 2, 1)]:
            ds.write_layout(os.path.join(DATA, f"{i}_" + "-".join(map(str, v))), v, start=BASE * i)
    for i in range(2):
        ds.write_layout(os.path.join(DATA, f"{i}_120"), (120,), start=2 * BASE * i)
    pairs = list(itertools.product(pool, pool)) + [((1,), (2,), (4,)), ((2, 3), (1,), (2,)), ((4,), (4,), (1, 2))]
    W = [None, (1, 1), (1, 3), (0, 1), (1, 0)]
    cases = []
    for ls in pairs:
        for w in W:
            if w is not None and len(ls) == 3:
                w = w + (2,)
            for sh, (bm, bs) in itertools.product((False, True), (("stratified", 2), ("per_stream", 2), ("per_stream", 3))):
                cases.append((ls, w, sh, bm, bs))
    c = mc.Check("C07", rule="every pair/triple of small datasets x weights x shuffle x batching x seeds; every checkpoint position of two epochs resumed (twice)",
                 bounds=f"{len(pairs)} dataset tuples of up to 7 samples each, {len(SEEDS)} seeds, workers 0..3, batch 1..3, resume chains of depth 2",
                 assumptions=["torch worker processes are replaced by deterministic coroutines running torch's own worker loop",
                              "the share of each dataset is compared with its weight at 6 sigma over 40 fixed seeds"])
    c.phase("mixture", cases, mix, timeout=100)
    c.phase("ratio", [((1, 3), "stratified", 1), ((1, 1), "stratified", 2), ((9, 1), "stratified", 1), ((1, 2), "per_stream", 4)], ratio, timeout=100)
    rp = [((4,), (2, 3)), ((1, 2, 1), (2,)), ((5,), (5,)), ((1,), (4,)), ((3,), (2,), (4,))]
    if not q:
        rp += list(itertools.product(pool, pool))
    rc = []
    for ls, nw, bs, w, bm, sh in itertools.product(rp, (0, 1, 2, 3), (1, 2, 3), (None, (1, 1), (1, 3)), ("stratified", "per_stream"), (False, True)):
        if bm == "per_stream" and bs == 1: continue
        if q and (sh and w == (1, 1)): continue
        if q and nw in (1, 3) and sh: continue
        if w is not None and len(ls) == 3: w = w + (2,)
        rc.append((ls, w, sh, bm, bs, nw, 42))
    c.phase("resume", rc, resume, timeout=200)
    return c
