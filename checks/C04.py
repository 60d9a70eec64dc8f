from lib import mc, ds, envsetup
import os, itertools

def _topologies(tier):
    out = []
    for nodes in (1, 2, 3):
        for rpn in (1, 2, 3):
            for nw in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
                tot = nodes * rpn * max(1, nw)
                if tot <= (6 if tier == "quick" else 12) and nodes * rpn <= 6:
                    out.append((nodes, rpn, nw))
    return out

def one(case, ctx):
    layout, (nodes, rpn, nw), bs = case
    path = os.path.join(DATA, "-".join(map(str, layout)))
    world, N = nodes * rpn, sum(layout)
    for shuffle in (False, True):
        seqs = {}
        for seed in (42, 7) if shuffle else (42,):
            for epoch in (1, 2, 3):
                seen, per_rank = [], []
                for r in range(world):
                    with ds.dist(world, r, nodes):
                        def make():
                            d = ds.StreamingDataset(path, shuffle=shuffle, drop_last=False, seed=seed)
                            d.set_batch_size(bs)
                            d.set_num_workers(max(1, nw))
                            d.set_epoch(epoch)
                            return d
                        L = len(make())
                        got = ds.run_workers(make, nw)
                        n = sum(map(len, got))
                        ctx.step(n); ctx.execs += max(1, nw)
                        if n != L:
                            raise mc.Violation(f"rank {r}: reported length {L}, delivered {n} (shuffle={shuffle} epoch={epoch} seed={seed}): {got}")
                        per_rank.append(got)
                        seen += [x for w in got for x in w]
                if epoch == 1:
                    first = per_rank
                if sorted(seen) != list(range(N)):
                    if shuffle and nodes > 1 and epoch > 1:
                        # the recorded finding, stated exactly: a sample is delivered once per worker that its chunk
                        # was shared between in the first epoch
                        chunk_of = [c for c, k in enumerate(layout) for _ in range(k)]
                        held = [{chunk_of[x] for x in w} for rk in first for w in rk]
                        want = sorted(x for x in range(N) for h in held if chunk_of[x] in h)
                        if sorted(seen) == want:
                            ctx.known_or_raise(f"multi-node, epoch {epoch}, shuffled: chunks shared between workers are delivered more than once: {first} then {per_rank}", "multinode-epoch2-shared-chunk")
                            seqs[(seed, epoch)] = per_rank
                            continue
                    dup = sorted({x for x in seen if seen.count(x) > 1}); miss = sorted(set(range(N)) - set(seen))
                    raise mc.Violation(f"samples not delivered exactly once: duplicated {dup} missing {miss} shuffle={shuffle} epoch={epoch} seed={seed}: {per_rank}")
                if not shuffle and seen != list(range(N)):
                    raise mc.Violation(f"unshuffled order is not the written order cut in contiguous shares (epoch={epoch}): {per_rank}")
                ctx.state((layout, nodes, rpn, nw, bs, shuffle, seed, epoch)); ctx.outcome(per_rank)
                seqs[(seed, epoch)] = per_rank
                # determinism: the same configuration again, built from scratch, gives the same order
                if shuffle and epoch == 2:
                    again = []
                    for r in range(world):
                        with ds.dist(world, r, nodes):
                            again.append(ds.run_workers(make, nw))
                    if again != per_rank:
                        raise mc.Violation(f"order is not determined by seed and epoch: {per_rank} then {again}")
        # a shuffled run really depends on seed and epoch
        if shuffle and N >= 6 and world == 1 and nw <= 1:
            flat = {k: str(v) for k, v in seqs.items()}
            if len({flat[(42, e)] for e in (1, 2, 3)}) < 2 or len({flat[(s, e)] for s in (42, 7) for e in (1, 2, 3)}) < 3:
                raise mc.Violation(f"shuffled order ignores the epoch or the seed: {flat}")
    ctx.sample(dict(layout=layout, nodes=nodes, ranks_per_node=rpn, workers=nw, batch=bs, last=per_rank))

def build(tier, seed):
    global DATA
    DATA = os.path.join(envsetup.ROOT, "data")
    maxN = 5 if tier == "quick" else 7
    vec = ds.vectors(maxN) + [(2, 2, 2, 2), (3, 1, 4), (4, 4), (1, 1, 1, 1, 1, 1, 1, 1), (5, 3, 2, 1), (10,), (3, 3, 3, 3)]
    vec = list(dict.fromkeys(vec))
    for v in vec:
        ds.write_layout(os.path.join(DATA, "-".join(map(str, v))), v)
    cases = [(v, t, bs) for v in vec for t in _topologies(tier) for bs in ((1, 2) if tier == "quick" else (1, 2, 3))]
    c = mc.Check("C04", rule="every chunk-size vector x topology x batch size; each case runs 3 epochs, unshuffled and shuffled with 2 seeds",
                 bounds=f"compositions of 1..{maxN} samples into chunks + larger layouts; <=3 nodes, <=3 ranks/node, <=3-4 workers; batch 1..3; 3 epochs; 2 seeds",
                 assumptions=["workers are simulated in-process by setting torch's worker info, each with its own dataset object",
                              "each worker of each rank has at least one sample (N >= world*workers)"])
    c.phase("partition", cases, one, timeout=100)
    return c
