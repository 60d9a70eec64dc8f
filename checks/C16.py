from lib import mc, ds, envsetup
import os, itertools, shutil
from collections import Counter
from fractions import Fraction
import torch
from litdata import train_test_split, StreamingDataset
from litdata.streaming.cache import Cache
from litdata.streaming.item_loader import TokensLoader
from litdata.streaming.resolver import Dir


def sizes_ok(n, frac):
    f = Fraction(repr(frac)) * n
    lo = f.numerator // f.denominator
    return {lo, int(n * frac)}


def content(d, n, kind, what, order_free=False):
    """Samples of `d` by iteration and by index; both must agree."""
    dec = ds.dec if kind != "tok" else (lambda v: int(v[0]) // 2)
    ln = len(d)
    it = [dec(v) for v in d]
    ix = [dec(d[i]) for i in range(ln)]
    if ln != len(it):
        raise mc.Violation(f"{what}: len() is {ln}, iteration gives {len(it)} samples {it}")
    if (Counter(it) != Counter(ix)) if order_free else (it != ix):
        raise mc.Violation(f"{what}: iteration gives samples {it}, access by index gives {ix}")
    if not set(it) <= set(range(n)):
        raise mc.Violation(f"{what}: foreign samples {it}")
    try:
        v = d[ln]
    except Exception:
        pass
    else:
        raise mc.Violation(f"{what}: index {ln} of a part of {ln} returned sample {dec(v)}")
    return it


def check_split(parts, whole, splits, n, kind, what, ctx, order_free, deep):
    got = []
    if len(parts) != len(splits):
        raise mc.Violation(f"{what}: {len(parts)} parts for {splits}")
    for j, (p, f) in enumerate(zip(parts, splits)):
        c = content(p, n, kind, f"{what} part {j}", order_free)
        if len(c) not in sizes_ok(len(whole), f):
            raise mc.Violation(f"{what}: part {j} ({f} of {len(whole)}) has {len(c)} samples")
        got.append(c)
        ctx.step(len(c))
        if deep and c:
            deep_part(p, c, n, kind, f"{what} part {j}", ctx, order_free)
    tot = Counter(x for c in got for x in c)
    if tot - Counter(whole):
        raise mc.Violation(f"{what}: the parts {got} are not disjoint parts of {sorted(whole)}")
    if sum(map(Fraction, map(repr, splits))) == 1 and len(whole) - sum(tot.values()) >= len(splits):
        raise mc.Violation(f"{what}: {len(whole) - sum(tot.values())} of {len(whole)} samples are in no part: {got}")
    return got


def deep_part(p, c, n, kind, what, ctx, order_free):
    """Distributed iteration, slices and resumption of a part."""
    from litdata.utilities.train_test_split import deepcopy_dataset
    dec = ds.dec if kind != "tok" else (lambda v: int(v[0]) // 2)
    if [dec(v) for v in p[0:len(c)]] != [dec(p[i]) for i in range(len(c))]:
        raise mc.Violation(f"{what}: a slice differs from single accesses")
    world = 2
    got = []
    for r in range(world):
        with ds.dist(world, r, 1):
            q = deepcopy_dataset(p); q.reset(); q.set_drop_last(False)
            q.distributed_env = type(q.distributed_env).detect()
            got += [dec(v) for v in q]
    if Counter(got) != Counter(c):
        raise mc.Violation(f"{what}: two ranks together deliver {sorted(got)}, the part holds {sorted(c)}")
    ctx.execs += 1
    for k in range(1, len(c)):
        a = deepcopy_dataset(p); a.reset()
        it = iter(a)
        first = [dec(next(it)) for _ in range(k)]
        s = a.state_dict(k, 1, 1)
        rest = []
        while True:
            try: rest.append(dec(next(it)))
            except StopIteration: break
        b = deepcopy_dataset(p); b.reset()
        b.load_state_dict(s)
        res = [dec(v) for v in b]
        if res != rest:
            raise mc.Violation(f"{what}: resumed after {k} samples {first} it delivers {res}, expected {rest}")
        ctx.step(len(res))


def one(case, ctx):
    kind, layout, mode, sub, shuffle, seed, tests = case
    n = sum(layout)
    path = os.path.join(DATA, kind + "-".join(map(str, layout)))
    root = ctx.scratch()
    kw = {}
    if kind == "tok": kw["item_loader"] = TokensLoader(block_size=2)
    if mode == "remote":
        os.makedirs(os.path.join(root, "c"))
        src = Dir(path=os.path.join(root, "c"), url="local:" + path)
    else:
        src = path
    mk = lambda **k2: StreamingDataset(src, subsample=sub, shuffle=shuffle, seed=seed, **kw)
    d = mk()
    what0 = f"{kind} chunks {layout} subsample={sub} shuffle={shuffle} seed={seed} {mode}"
    whole = content(d, n, kind, what0, shuffle)
    ctx.execs += 1
    if len(whole) not in sizes_ok(n, sub):
        raise mc.Violation(f"{what0}: {len(whole)} of {n} samples")
    if sub <= 1 and len(set(whole)) != len(whole):
        raise mc.Violation(f"{what0}: repeated samples {whole}")
    c = Counter(whole)
    if sub >= 1 and len({c.get(i, 0) for i in range(n)}) > (1 if sub == int(sub) else 2):
        raise mc.Violation(f"{what0}: copies of the samples are unbalanced {whole}")
    if sub >= 1 and min(c.get(i, 0) for i in range(n)) < int(sub):
        raise mc.Violation(f"{what0}: samples missing from whole copies {whole}")
    ctx.state((kind, layout, sub, shuffle, seed)); ctx.outcome(whole)
    if whole and tests and tests[0] == "self":
        deep_part(d, whole, n, kind, what0, ctx, shuffle)
    for t in tests:
        if t == "self": continue
        splits, sseed, nested = t
        parts = train_test_split(mk(), list(splits), seed=sseed)
        w = f"{what0}: split {splits} seed {sseed}"
        got = check_split(parts, whole, splits, n, kind, w, ctx, shuffle, nested == "deep")
        ctx.execs += 1
        ctx.state((kind, layout, sub, shuffle, splits, sseed))
        ctx.outcome(got)
        if [content(p, n, kind, w, shuffle) for p in train_test_split(mk(), list(splits), seed=sseed)] != got and not shuffle:
            raise mc.Violation(f"{w}: splitting again with the same seed gives other parts")
        if nested and nested != "deep":
            for j, p in enumerate(parts):
                if not got[j]: continue
                sub2 = train_test_split(p, list(nested), seed=sseed + 1)
                check_split(sub2, got[j], nested, n, kind, f"{w}, part {j} split again {nested}", ctx, shuffle, False)
                ctx.execs += 1
                ctx.state((kind, layout, sub, shuffle, splits, sseed, nested, j))
    ctx.sample(dict(case=case[:6], whole=whole, splits=[t for t in tests][:2]))


def build(tier, seed):
    global DATA
    quick = tier == "quick"
    DATA = os.path.join(envsetup.ROOT, "data")
    vec = ds.vectors(5 if quick else 7) + [(3, 2, 4), (1,) * 7, (10,), (5, 5)]
    vec = list(dict.fromkeys(vec))
    for v in vec:
        ds.write_layout(os.path.join(DATA, "plain" + "-".join(map(str, v))), v)
    for v in [(2, 2, 2), (3, 3)]:
        p = os.path.join(DATA, "tok" + "-".join(map(str, v)))
        os.makedirs(p)
        c = Cache(p, chunk_size=v[0] * 2, item_loader=TokensLoader(block_size=2))
        for i in range(sum(v)): c[i] = torch.arange(2 * i, 2 * i + 2)
        c.done(); c.merge()
    SPL = [(0.5, 0.5), (0.8, 0.2), (0.6, 0.3, 0.1), (0.2, 0.2), (1.0,), (0.0, 1.0), (0.1, 0.1, 0.8), (0.25, 0.25, 0.25, 0.25)]
    cases = []
    S = (42, 7) if quick else (42, 7, 1, 2, 3)
    for v in vec:
        for sub in (0.1, 0.3, 0.5, 0.9, 1.0, 1.5, 2.0, 2.3):
            if int(sum(v) * sub) == 0 and False: continue
            for sh in (False, True):
                for sd in (S if sh else S[:1]):
                    cases.append(("plain", v, "local", sub, sh, sd, ("self",) if sub != 1.0 and sum(v) <= 5 else ()))
        for sub, sh in ((1.0, False), (1.0, True), (0.6, False), (0.6, True), (2.0, False), (1.5, True)):
            n = int(sum(v) * sub)
            tests = [(sp, sd, nest) for sp in SPL for sd in S for nest in ((None, (0.5, 0.5)) if len(sp) < 4 and sd == S[0] else (None,))]
            if sum(v) <= 4: tests.append(((0.6, 0.4), 42, "deep")); tests.append(((0.3, 0.7), 7, "deep"))
            for i in range(0, len(tests), 6):
                cases.append(("plain", v, "local", sub, sh, 42, tuple(tests[i:i + 6])))
    for v in [(2, 2, 2), (3, 3)]:
        for sub, sh in ((1.0, False), (0.5, True), (1.5, False)):
            cases.append(("tok", v, "local", sub, sh, 42, ("self",) + tuple((sp, 42, "deep") for sp in SPL[:3])))
    for v in [(2, 2), (1, 2, 1)]:
        for sub, sh in ((1.0, False), (0.5, True)):
            cases.append(("plain", v, "remote", sub, sh, 42, tuple((sp, 42, None) for sp in SPL[:3])))
    c = mc.Check("C16", rule="every chunk-size vector x subsample fraction x shuffle x split list x seed; splits of splits; parts iterated, indexed, sliced, resumed and distributed",
                 bounds="compositions of up to %d samples + larger layouts; 8 fractions; 8 split lists; 2-5 seeds; nesting depth 2" % (5 if quick else 7))
    c.phase("split", cases, one, timeout=120)
    return c
