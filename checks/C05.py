from lib import mc, ds, envsetup, fakemp
import os

def col(b):
    return [ds.dec(x) for x in b]

def one(case, ctx):
    layout, (nodes, rpn, nw), bs = case
    path = os.path.join(DATA, "-".join(map(str, layout)))
    world, N = nodes * rpn, sum(layout)
    for shuffle in (False, True):
        ranks = []
        for r in range(world):
            with ds.dist(world, r, nodes):
                d = ds.StreamingDataset(path, shuffle=shuffle, drop_last=True)
                l = fakemp.loader(d, num_workers=nw, batch_size=bs, collate_fn=col)
                eps = []
                for e in range(3 if nodes > 1 else 2):
                    if e != 1:
                        L, D = len(l), len(d)
                    b = list(l)
                    if e == 1:
                        L, D = len(l), len(d)
                    n = sum(map(len, b))
                    if L != len(b) or D != n:
                        raise mc.Violation(f"rank {r} epoch {e+1} shuffle={shuffle}: reported {L} batches / {D} samples, delivered {len(b)} / {n}: {b}")
                    if any(len(x) != bs for x in b):
                        raise mc.Violation(f"rank {r} epoch {e+1} shuffle={shuffle}: incomplete batch despite drop_last: {b}")
                    eps.append(b); ctx.step(n); ctx.execs += 1
                ranks.append(eps)
        for e in range(len(ranks[0])):
            cnt = [sum(map(len, rk[e])) for rk in ranks]
            if len(set(cnt)) != 1:
                raise mc.Violation(f"ranks deliver different numbers of samples {cnt} in epoch {e+1} shuffle={shuffle}: {[rk[e] for rk in ranks]}")
            flat = [x for rk in ranks for b in rk[e] for x in b]
            if nodes > 1 and shuffle and e > 0 and len(set(flat)) != len(flat) and set(flat) <= set(range(N)):
                chunk_of = [c for c, k in enumerate(layout) for _ in range(k)]
                holders = {}
                for ri, rk in enumerate(ranks):
                    for bi, b in enumerate(rk[0]):
                        for x in b: holders.setdefault(chunk_of[x], set()).add((ri, bi % max(1, nw)))
                if all(flat.count(x) <= len(holders.get(chunk_of[x], ())) for x in flat):
                    ctx.known_or_raise(f"multi-node, epoch {e+1}, shuffled: samples of chunks shared between workers are repeated: {[rk[e] for rk in ranks]}", "multinode-epoch2-shared-chunk")
                    continue
            if len(set(flat)) != len(flat) or not set(flat) <= set(range(N)):
                raise mc.Violation(f"repeated or foreign samples in epoch {e+1} shuffle={shuffle}: {[rk[e] for rk in ranks]}")
            if N - len(flat) >= world * bs:
                raise mc.Violation(f"{N - len(flat)} of {N} samples dropped in epoch {e+1} shuffle={shuffle}, allowed < {world * bs}: {[rk[e] for rk in ranks]}")
            ctx.state((case, shuffle, e)); ctx.outcome(ranks)
    ctx.sample(dict(layout=layout, nodes=nodes, ranks_per_node=rpn, workers=nw, batch=bs, delivered=ranks))

def build(tier, seed):
    global DATA
    DATA = os.path.join(envsetup.ROOT, "data")
    maxN = 5 if tier == "quick" else 7
    vec = ds.vectors(maxN, min_total=2) + [(2, 2, 2, 2), (3, 1, 4), (4, 5), (7, 2), (5, 3, 2, 1), (10,), (3, 3, 3, 3), (1,) * 9, (13,)]
    vec = list(dict.fromkeys(vec))
    for v in vec:
        ds.write_layout(os.path.join(DATA, "-".join(map(str, v))), v)
    topo = [(1, 2, 0), (1, 2, 1), (1, 2, 2), (1, 2, 3), (1, 3, 0), (1, 3, 2), (2, 1, 0), (2, 1, 2), (2, 2, 1), (1, 1, 2), (1, 1, 3), (1, 1, 0)]
    if tier != "quick":
        topo += [(1, 4, 0), (1, 4, 2), (3, 1, 2), (2, 2, 2), (1, 1, 4), (3, 2, 0)]
    cases = [(v, t, bs) for v in vec for t in topo for bs in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))
             if sum(v) >= t[0] * t[1] * bs and (tier != "quick" or bs < 3 or len(v) <= 4)]
    c = mc.Check("C05", rule="every chunk-size vector x topology x batch size, shuffled and not, 2-3 epochs through the real StreamingDataLoader",
                 bounds=f"compositions of 2..{maxN} samples + larger layouts; <=2-3 nodes, <=4 ranks, <=4 workers; batch 1..4",
                 assumptions=["torch worker processes are replaced by deterministic coroutines running torch's own worker loop",
                              "the dataset holds at least one batch per rank"])
    c.phase("drop_last", cases, one, timeout=100)
    return c
