from lib import mc, ds, envsetup
import os, io, itertools, math, collections, pickle, datetime, decimal
import numpy as np, torch
from litdata.streaming.cache import Cache
from litdata.streaming.writer import BinaryWriter
from litdata.utilities import _pytree

Point = collections.namedtuple("Point", ["x", "y"])
_pytree._register_namedtuple(Point, serialized_type_name="verif.Point") if hasattr(_pytree, "_register_namedtuple") else None

TORCH_DT = [torch.float32, torch.float64, torch.complex64, torch.complex128, torch.float16, torch.uint8, torch.int8,
            torch.int16, torch.int32, torch.int64, torch.bool]
NP_DT = [np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64, np.float16, np.float32,
         np.float64, np.complex64, np.complex128, np.bool_]
SHAPES = [(), (0,), (1,), (3,), (0, 2), (2, 0), (1, 1), (2, 3), (3, 1, 2), (2, 0, 3), (1, 2, 1, 2)]


def tens(dt, sh, k=0):
    n = int(np.prod(sh)) if sh else 1
    t = (torch.arange(n) * 3 + 1 + k) % 7
    return (t > 3).reshape(sh) if dt == torch.bool else t.to(dt).reshape(sh)


def arr(dt, sh, k=0):
    n = int(np.prod(sh)) if sh else 1
    return (((np.arange(n) * 3 + 1 + k) % 7).astype(dt) if dt != np.bool_ else (np.arange(n) + k) % 2 == 0).reshape(sh)


def pil(mode, size):
    from PIL import Image
    n = size[0] * size[1] * {"L": 1, "RGB": 3, "RGBA": 4, "1": 1, "I": 4, "F": 4, "CMYK": 4}[mode]
    if mode == "1":
        im = Image.new("1", size)
        for x in range(size[0]):
            for y in range(size[1]): im.putpixel((x, y), (x + y) % 2)
        return im
    raw = bytes((i * 7 + 3) % 64 for i in range(n))
    return Image.frombytes(mode, size, raw)


def jpeg(size, path):
    from PIL import Image
    pil("RGB", size).save(path, "JPEG", quality=90)
    return Image.open(path)


def png(size, path):
    from PIL import Image
    pil("RGB", size).save(path, "PNG")
    return Image.open(path)


def leaf(spec, root):
    k = spec[0]
    if k == "py": return eval(spec[1], dict(np=np, torch=torch, datetime=datetime, decimal=decimal, Point=Point, float=float))
    if k == "torch": return tens(getattr(torch, spec[1]), spec[2], *spec[3:])
    if k == "np": return arr(np.dtype(spec[1]).type, spec[2], *spec[3:])
    if k == "view":   # not contiguous
        t = tens(getattr(torch, spec[1]), (4, 6))
        return {"t": t.t(), "step": t[::2, 1::2], "col": t[:, 2]}[spec[2]]
    if k == "npview":
        a = arr(np.dtype(spec[1]).type, (4, 6))
        return {"t": a.T, "step": a[::2, 1::2], "col": a[:, 2], "F": np.asfortranarray(a)}[spec[2]]
    if k == "pil": return pil(spec[1], spec[2])
    if k == "jpeg": return jpeg(spec[1], os.path.join(root, f"{spec[1]}.jpg"))
    if k == "png": return png(spec[1], os.path.join(root, f"{spec[1]}.png"))
    raise mc.HarnessError(spec)


PY = ["'abc'", "''", "'\\u00e9\\u4e2d\\U0001f600\\n\\0 x'", "'/'", "'a' * 300", "0", "-1", "2**63 - 1", "-2**63", "2**40", "True", "False",
      "0.0", "-0.0", "1.5", "float('inf')", "float('-inf')", "float('nan')", "5e-324", "1e308", "b''", "b'\\x00\\xff'", "b'z' * 300",
      "None", "3 + 4j", "{1, 2}", "frozenset({'a'})", "range(3)", "np.float32(1.5)", "np.int16(7)", "np.float64(2.5)", "np.bool_(True)",
      "bytearray(b'ab')", "decimal.Decimal('1.10')", "datetime.date(2020, 1, 2)", "torch.Size([2, 3])", "slice(1, 2)", "np.array(5)",
      "np.array([1, 'a', None], dtype=object)", "np.array([[1, 'a'], [None, 2.5]], dtype=object)", "Ellipsis", "type(None)"]
LEAVES = ([("py", p) for p in PY]
          + [("torch", str(d).split(".")[1], s) for d in TORCH_DT for s in SHAPES]
          + [("np", np.dtype(d).name, s) for d in NP_DT for s in SHAPES]
          + [("view", d, v) for d in ("int64", "float32") for v in ("t", "step", "col")]
          + [("npview", d, v) for d in ("int64", "float32") for v in ("t", "step", "col", "F")]
          + [("pil", m, s) for m in ("L", "RGB", "RGBA", "1", "I", "F", "CMYK") for s in ((1, 1), (3, 2), (2, 5))]
          + [("jpeg", s) for s in ((8, 8), (17, 9))] + [("png", s) for s in ((3, 2),)])
SMALL = [("py", "'s'"), ("py", "7"), ("py", "2.5"), ("py", "True"), ("py", "b'\\x01'"), ("py", "None"), ("torch", "int32", (3,)),
         ("torch", "float32", (2, 2)), ("np", "int64", (2,)), ("np", "float32", (1, 2)), ("pil", "RGB", (2, 2)), ("torch", "int64", ())]


def equal(a, b, path="sample"):
    """a: written, b: read."""
    from PIL import Image
    from PIL.JpegImagePlugin import JpegImageFile
    if isinstance(a, JpegImageFile):
        from torchvision.io import decode_jpeg
        with open(a.filename, "rb") as f:
            ref = decode_jpeg(torch.frombuffer(f.read(), dtype=torch.uint8))
        return isinstance(b, torch.Tensor) and torch.equal(ref, b) or f"{path}: jpeg differs"
    if isinstance(a, Image.Image):
        ok = isinstance(b, Image.Image) and a.mode == b.mode and a.size == b.size and a.tobytes() == b.tobytes()
        return ok or f"{path}: image {a} read as {b}"
    if isinstance(a, torch.Size):
        return (isinstance(b, tuple) and tuple(a) == tuple(int(x) for x in b)) or f"{path}: {a} {b}"
    if isinstance(a, torch.Tensor):
        ok = isinstance(b, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)
        return ok or f"{path}: tensor {a!r} {a.dtype} {tuple(a.shape)} read as {b!r} {getattr(b,'dtype',None)} {getattr(b,'shape',None)}"
    if isinstance(a, np.ndarray):
        ok = isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and (a.tolist() == b.tolist())
        return ok or f"{path}: array {a!r} {a.dtype} {a.shape} read as {b!r}"
    if isinstance(a, bool) or a is None:
        return (type(a) is type(b) and a == b) or f"{path}: {a!r} read as {b!r}"
    if isinstance(a, (int, float)) and not isinstance(a, np.generic):
        kind = "iu" if isinstance(a, int) else "f"
        okt = type(b) is type(a) or (isinstance(b, np.generic) and b.dtype.kind in kind and b.dtype.itemsize == 8)
        v = b.item() if isinstance(b, np.generic) else b
        same = okt and (v == a or (a != a and v != v)) and (not isinstance(a, float) or math.copysign(1, a) == math.copysign(1, v))
        return same or f"{path}: {a!r} ({type(a).__name__}) read as {b!r} ({type(b).__name__})"
    if isinstance(a, np.generic):
        ok = (a == b) and (not hasattr(b, "dtype") or a.dtype == b.dtype)
        return bool(ok) or f"{path}: {a!r} read as {b!r}"
    if type(a) is not type(b):
        return f"{path}: {type(a).__name__} {a!r} read as {type(b).__name__} {b!r}"
    if isinstance(a, dict):
        if list(a) != list(b) and not (set(a) == set(b)): return f"{path}: keys {list(a)} read as {list(b)}"
        if [type(k) for k in sorted(a, key=repr)] != [type(k) for k in sorted(b, key=repr)]: return f"{path}: key types changed"
        if isinstance(a, collections.defaultdict) and a.default_factory is not b.default_factory: return f"{path}: default factory"
        rs = [equal(a[k], b[k], f"{path}[{k!r}]") for k in a]
    elif isinstance(a, (list, tuple, collections.deque)):
        if len(a) != len(b): return f"{path}: length {len(a)} read as {len(b)}"
        if isinstance(a, collections.deque) and a.maxlen != b.maxlen: return f"{path}: maxlen"
        rs = [equal(x, y, f"{path}[{i}]") for i, (x, y) in enumerate(zip(a, b))]
    else:
        return a == b or f"{path}: {a!r} read as {b!r}"
    return next((r for r in rs if r is not True), True)


def roundtrip(samples, ctx, tag, may_refuse=False):
    path = ctx.scratch()
    c = Cache(path, chunk_size=max(1, len(samples)))
    try:
        for i, s in enumerate(samples):
            c[i] = s
        c.done(); c.merge()
    except Exception as e:
        if may_refuse:
            ctx.add("refused"); ctx.outcome((tag, type(e).__name__))
            return
        raise mc.Violation(f"{tag}: writing {samples!r} fails: {type(e).__name__}: {e}")
    ctx.execs += 1; ctx.step(len(samples)); ctx.state(tag)
    try:
        d = ds.StreamingDataset(path)
        got = [d[i] for i in range(len(samples))]
        got2 = list(ds.StreamingDataset(path))
    except Exception as e:
        raise mc.Violation(f"{tag}: {samples!r} was written, reading it fails: {type(e).__name__}: {e}")
    for g in (got, got2):
        if len(g) != len(samples):
            raise mc.Violation(f"{tag}: {len(samples)} samples written, {len(g)} read")
        for i, (a, b) in enumerate(zip(samples, g)):
            r = equal(a, b, f"sample {i}")
            if r is not True:
                raise mc.Violation(f"{tag}: {r}")
    ctx.outcome(tag[:2] if isinstance(tag, tuple) else tag)


def wrap(shape, ls):
    """Nestings of depth <= 3 over leaves."""
    a, b = ls[0], ls[-1]
    return {
        "dict": lambda: {"a": a, "b": b}, "list": lambda: [a, b], "tuple": lambda: (a, b), "one": lambda: [a], "tuple1": lambda: (a,),
        "dict-int": lambda: {0: a, 5: b}, "dict-mixed": lambda: {"0": a, 0: b}, "dict-empty-key": lambda: {"": a, "a b\"'": b},
        "named": lambda: Point(a, b), "odict": lambda: collections.OrderedDict([("z", a), ("a", b)]),
        "ddict": lambda: collections.defaultdict(list, {"k": a, "j": b}), "deque": lambda: collections.deque([a, b], maxlen=5),
        "nest1": lambda: {"a": [a, (b, {"c": a})], "d": b}, "nest2": lambda: [[a], [], {"x": (), "y": {}}, (b,)],
        "nest3": lambda: (Point([a], {"k": b}), collections.OrderedDict(q=(a, b))), "nest4": lambda: {"l": [], "v": a, "m": {}, "w": b},
        "nest5": lambda: [{"a": a}, {"a": b}, [[[a]]]], "nest6": lambda: {"a": {"b": {"c": {"d": a}}}, "e": b}, "unsorted": lambda: {"z": a, "m": b, "a": a},
    }[shape]()


NEST = ["dict", "list", "tuple", "one", "tuple1", "dict-int", "dict-mixed", "dict-empty-key", "named", "odict", "ddict", "deque", "nest1", "nest2", "nest3",
        "nest4", "nest5", "nest6", "unsorted"]


def leaves_case(case, ctx):
    for spec in case:
        root = ctx.scratch()
        for how in ("bare", "dict", "tuple"):
            v = leaf(spec, root)
            s = v if how == "bare" else {"a": 1, "v": v, "z": "end"} if how == "dict" else (v, b"tail", v)
            roundtrip([s], ctx, (how, spec))
        ctx.sample(spec)


def nest_case(case, ctx):
    shape, specs = case
    root = ctx.scratch()
    ls = [leaf(s, root) for s in specs]
    s = wrap(shape, ls)
    roundtrip([s, s], ctx, (shape, specs))


def seq_case(case, ctx):
    """Two samples of the same structure and kind whose leaves differ (value, shape, dtype, key order): the second is
    read back exactly, or refused when written."""
    kind, a, b = case
    root = ctx.scratch()
    if kind == "keys":
        mk = lambda order, base: {k: base + i for i, k in enumerate("abc") if k in order and True} if order is None else {k: base + "abc".index(k) for k in order}
        roundtrip([mk(a, 10), mk(b, 20), {"x": 0} and mk(a, 30)], ctx, case, may_refuse=sorted(a) != sorted(b))
        roundtrip([{"o": [mk(a, 1)], "t": "q"}, {"t": "r", "o": [mk(b, 5)]}], ctx, ("nested",) + case, may_refuse=sorted(a) != sorted(b))
        return
    if kind == "struct":
        env = dict(Point=Point)
        roundtrip([eval(a, env), eval(b, env), eval(a, env)], ctx, case, may_refuse=True)
        return
    va, vb = leaf(a, root), leaf(b, root)
    roundtrip([va, vb, va], ctx, ("bare",) + case, may_refuse=(kind != "same"))
    roundtrip([{"x": va, "y": 1}, {"x": vb, "y": 2}], ctx, ("dict",) + case, may_refuse=(kind != "same"))


def images_case(case, ctx):
    n, how = case
    from PIL import Image
    root = ctx.scratch()
    ims = [jpeg((8 + i, 9), os.path.join(root, f"i{i}.jpg")) for i in range(n)]
    s = {"list": list(ims), "tuple": tuple(ims)}[how]
    path = ctx.scratch()
    c = Cache(path, chunk_size=2)
    c[0] = {"id": 3, "im": s}; c[1] = {"id": 4, "im": s}
    c.done(); c.merge()
    ctx.execs += 1; ctx.state(case); ctx.step(2)
    d = ds.StreamingDataset(path)
    for i in (0, 1):
        got = d[i]["im"]
        if len(got) != n or any(equal(a, b) is not True for a, b in zip(ims, got)):
            raise mc.Violation(f"{how} of {n} JPEG images is not read back")


def build(tier, seed):
    quick = tier == "quick"
    c = mc.Check("C03", rule="every leaf (kind, dtype, shape) bare and in containers; every nesting template x leaf pair; every pair of samples of one kind written one after the other",
                 bounds=f"{len(LEAVES)} leaves; {len(NEST)} nestings x {len(SMALL)}^2 leaf pairs; key orders of 3 keys; pairs of dtypes and shapes")
    ch = [LEAVES[i:i + 6] for i in range(0, len(LEAVES), 6)]
    c.phase("leaves", ch, leaves_case)
    pool = SMALL if quick else SMALL + LEAVES[:30]
    c.phase("nesting", [(n, (a, b)) for n in NEST for a in pool for b in (pool if not quick else SMALL)], nest_case)
    seq = []
    for kind, names in (("torch", ("int32", "float32", "int64", "bool")), ("np", ("int32", "float32", "int64", "bool"))):
        shp = [(), (0,), (3,), (5,), (2, 2), (0, 2), (4, 1)]
        for (d1, s1), (d2, s2) in itertools.product(itertools.product(names, shp), repeat=2):
            rank = lambda s: 1 if len(s) == 1 else 2 if len(s) > 1 else (2 if kind == "torch" else 0)
            seq.append(("same" if d1 == d2 and (len(s1) == len(s2)) else "mixed", (kind, d1, s1), (kind, d2, s2, 2)))
    for fam in (["'abc'", "''", "'\\u00e9'", "'a' * 300"], ["0", "-1", "2**63 - 1"], ["0.5", "float('inf')", "-0.0"], ["b''", "b'abc'"], ["None", "{1}", "3j", "range(2)"], ["True", "False"]):
        for a, b in itertools.product(fam, repeat=2):
            seq.append(("same", ("py", a), ("py", b)))
    for m, n in itertools.product(("L", "RGB", "RGBA", "1"), repeat=2):
        seq.append(("same", ("pil", m, (2, 3)), ("pil", n, (4, 1))))
    keys = [k for r in (2, 3) for k in itertools.permutations("abc", r)]
    seq += [("keys", a, b) for a, b in itertools.product(keys, repeat=2)]
    st = ["[1]", "[1, 2]", "[1, 2, 3]", "(1, 2)", "[[1], 2]", "{'a': 1, 'b': 2}", "{'a': 1, 'c': 2}", "5", "{'a': [1, 2]}", "{'a': [1], 'b': 7}", "Point(1, 2)"]
    seq += [("struct", a, b) for a, b in itertools.product(st, repeat=2)]
    c.phase("sequences", seq, seq_case)
    c.phase("image-lists", [(n, h) for n in range(1, 5) for h in ("list", "tuple")], images_case)
    return c
