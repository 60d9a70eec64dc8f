from lib import mc, ds, envsetup, fakemp
import os, copy, itertools

def col(b):
    return [ds.dec(x) for x in b]

def mk(case):
    layout, world, rank, nw, bs, shuffle, drop = case
    path = os.path.join(DATA, "-".join(map(str, layout)))
    d = ds.StreamingDataset(path, shuffle=shuffle, drop_last=drop)
    return fakemp.loader(d, num_workers=nw, batch_size=bs, collate_fn=col)

def one(case, ctx):
    layout, world, rank, nw, bs, shuffle, drop = case
    with ds.dist(world, rank, 1):
        EP = 3
        ref, states = [], {}
        l = mk(case)
        for e in range(EP):
            bl = []
            for b in l:
                bl.append(b)
                s = l.state_dict()
                states[(e, len(bl))] = (s, copy.deepcopy(s))
            ref.append(bl)
            ctx.step(len(bl))
        for (e, k), (s, c) in states.items():
            if s != c:
                raise mc.Violation(f"the state saved in epoch {e+1} after {k} batches was changed by further iteration: {c} -> {s}")
        n = len(ref[0])
        ctx.execs += 1
        def expect(e, k):
            """batches that follow (e,k): [rest of epoch e if any] + epoch e+1"""
            return ([ref[e][k:]] if k < len(ref[e]) else []) + ([ref[e + 1]] if e + 1 < EP else [])
        def resume_and_check(e, k, state, chain, hist):
            exp = expect(e, k)
            keep = copy.deepcopy(state)
            l2 = mk(case)
            l2.load_state_dict(state)
            ctx.execs += 1; ctx.state((case, tuple(hist), e, k))
            saved = []
            for j, want in enumerate(exp):
                got = []
                for b in l2:
                    got.append(b)
                    ctx.step()
                    ee, kk = (e, k + len(got)) if (j == 0 and k < len(ref[e])) else (e + 1, len(got))
                    saved.append((ee, kk, l2.state_dict()))
                    if len(got) > len(want) + 2:
                        break
                if got != want:
                    raise mc.Violation(f"resumed {hist} in epoch {e+1} after {k} of {len(ref[e])} batches: expected {want} then got {got} (part {j}); uninterrupted run: {ref}")
            if state != keep:
                raise mc.Violation(f"the loaded state was changed by iterating: {keep} -> {state}")
            if chain > 0:
                for ee, kk, s in saved:
                    if (ee, kk) > (1, n) or (CHAIN_ALL is False and (kk + k) % 2 and kk != n):
                        continue
                    resume_and_check(ee, kk, copy.deepcopy(s), chain - 1, hist + [(e, k)])
        for e in (0, 1):
            for k in range(1, len(ref[e]) + 1):
                resume_and_check(e, k, copy.deepcopy(states[(e, k)][1]), CHAIN, [])
        # a state taken before anything was consumed
        s0 = mk(case).state_dict()
        l2 = mk(case); l2.load_state_dict(s0)
        if list(l2) != ref[0]:
            raise mc.Violation("resuming from the initial state does not start with the first epoch")
        ctx.outcome(ref)
        ctx.sample(dict(case=case, uninterrupted=ref))

def broken(case, ctx):
    """epochs left early: `for b in loader: ... break`, then a new pass, checkpointed and resumed"""
    layout, world, rank, nw, bs, shuffle, drop = case
    with ds.dist(world, rank, 1):
        n = len(list(mk(case)))
        for leave in range(1, n):
            l = mk(case)
            it = iter(l)
            first = [next(it) for _ in range(leave)]
            del it
            states, second = [], []
            for b in l:
                second.append(b); ctx.step()
                states.append(copy.deepcopy(l.state_dict()))
                if len(second) > n + 2:
                    break
            third = list(l)
            ctx.execs += 1
            flat = lambda bl: sorted(x for b in bl for x in b)
            if not drop and world == 1 and (flat(second) != list(range(sum(layout))) or flat(third) != list(range(sum(layout)))):
                raise mc.Violation(f"left an epoch after {leave} of {n} batches: the next passes deliver {second} and {third}, not everything once")
            for k, s in enumerate(states, 1):
                if ctx.tier == "quick" and (k + leave) % 2 and k != n:
                    continue
                l2 = mk(case); l2.load_state_dict(copy.deepcopy(s))
                ctx.execs += 1; ctx.state((case, leave, k))
                rest = list(l2)
                if k < len(second):
                    if rest != second[k:]:
                        raise mc.Violation(f"left an epoch after {leave} of {n} batches, saved after {k} batches of the next pass, resumed: {rest} instead of {second[k:]} (passes {first}, {second}, {third})")
                    rest = list(l2)
                if rest != third:
                    raise mc.Violation(f"left an epoch after {leave} of {n} batches, saved after {k} batches of the next pass, resumed: following epoch {rest} instead of {third} (passes {first}, {second})")
                # resumed, left early, passed over again: as the original loader would
                if k < len(second) - 1:
                    l3 = mk(case); l3.load_state_dict(copy.deepcopy(s))
                    it = iter(l3); next(it); del it
                    if list(l3) != third:
                        raise mc.Violation(f"resumed after {k} batches, left after one more: the next pass is not the epoch after")
        ctx.outcome(n)

def build(tier, seed):
    global DATA, CHAIN, CHAIN_ALL
    CHAIN, CHAIN_ALL = (1, False) if tier == "quick" else (2, True)
    DATA = os.path.join(envsetup.ROOT, "data")
    vec = [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (1, 1, 1), (1, 3, 1), (2, 3, 2), (4, 1, 3), (3, 3, 3), (7,), (1, 1, 1, 1, 1), (2, 2, 2, 2)]
    if tier != "quick":
        vec = ds.vectors(6) + [(2, 3, 2), (4, 1, 3), (3, 3, 3), (2, 2, 2, 2), (5, 4), (10,)]
    for v in vec:
        ds.write_layout(os.path.join(DATA, "-".join(map(str, v))), v)
    cases = []
    for v, nw, bs, sh in itertools.product(vec, (0, 1, 2, 3), (1, 2, 3), (False, True)):
        cases.append((v, 1, 0, nw, bs, sh, False))
        if sum(v) >= 4 and nw in (0, 2):
            for r in (0, 1):
                cases.append((v, 2, r, nw, bs, sh, True))
                cases.append((v, 2, r, nw, bs, sh, False))
        if sh and nw in (0, 2):
            cases.append((v, 1, 0, nw, bs, sh, True))
    c = mc.Check("C06", rule="every checkpoint position of epochs 1 and 2, resumed to the end of the following epoch, and again from positions of the resumed run",
                 bounds=f"{len(vec)} chunk layouts x workers 0..3 x batch 1..3 x shuffle x drop_last x world 1..2; resume chains of depth {CHAIN+1}",
                 assumptions=["torch worker processes are replaced by deterministic coroutines running torch's own worker loop"])
    c.phase("resume", cases, one, timeout=200)
    bc = [k for k in cases if k[1] == 1 or not k[2]]
    if tier == "quick":
        bc = [k for k in bc if sum(k[0]) in (3, 5, 8) and k[3] != 3]
    c.phase("broken", bc, broken, timeout=200)
    # the same for loaders over combined datasets (whose mixture itself is C07's)
    from checks import C07
    C07.DATA = DATA
    layouts = [((4,), (2, 3)), ((1, 2, 1), (2,)), ((3,), (2,), (4,))]
    for ls in layouts:
        for i, v in enumerate(ls):
            ds.write_layout(os.path.join(DATA, f"{i}_" + "-".join(map(str, v))), v, start=C07.BASE * i)
    cc = []
    for ls, nw, bs, w, bm, sh in itertools.product(layouts, (0, 1, 2), (2, 3), (None, (1, 3)), ("stratified", "per_stream"), (False, True)):
        if tier == "quick" and (sh != (nw == 1)):
            continue
        cc.append((ls, w + (2,) if w is not None and len(ls) == 3 else w, sh, bm, bs, nw, 42))
    c.phase("combined", cc, C07.resume, timeout=200)
    return c
