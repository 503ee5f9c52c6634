"""C05: operations that stay in the quantized domain commute with dequantization."""

from __future__ import annotations

import copy
import itertools
import pickle

import torch

import fastforward as ff

from fastforward.quantization.affine import static as affine_static
from fastforward.quantized_tensor import QuantizedTensor

from mc import refs
from mc.harness import Family, Stats, check

PROP = "C05"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operation chains (depth 1 and 2) on quantized tensors, replayed against the float operation on dequantized operands"
ASSUMPTIONS = [
    "small scope: <=3 dims, <=12 elements, power-of-two scales and small integer offsets so that both sides are exact",
    "operation arguments come from the listed alphabets; chains have at most two operations",
]

# --------------------------------------------------------------------- operands


def make_operand(shape, spec, tile, off, raw="f32", sign=1, base=0):
    """A quantized tensor whose tiles all have different parameters, with distinct values."""
    n = refs.num_tiles(shape, tile)
    scales = torch.tensor([sign * 2.0 ** (-(t % 3)) for t in range(n)])
    offset = None
    if off != "none":
        offset = torch.tensor([float((t * 3 + base) % 7 - 3) for t in range(n)])
        if off == "frac":
            offset = offset + 0.25
    data = []
    for i, idx in enumerate(refs.indices(shape)):
        t = refs.tile_index(idx, shape, tile)
        o = refs.round_half_even(offset[t].item()) if offset is not None else 0.0
        q = (i * 5 + base) % 15 - 7
        data.append((q + o) * scales[t].item())
    x = torch.tensor(data).reshape(shape)
    kw = {} if raw == "f32" else {"output_dtype": torch.int8}
    return affine_static.quantize_per_granularity(x, scales, offset, refs.make_granularity(spec), 4, **kw)


def decode(a):
    if isinstance(a, dict):
        (kind, v), = a.items()
        if kind == "slice":
            return slice(*v)
        if kind == "long":
            return torch.tensor(v, dtype=torch.long)
        if kind == "bool":
            return torch.tensor(v, dtype=torch.bool)
        if kind == "tuple":
            return tuple(decode(i) for i in v)
        if kind == "list":
            return [decode(i) for i in v]
    if a == "...":
        return Ellipsis
    return a


def apply(op, x):
    """Apply an operation to an ordinary or a quantized tensor."""
    name, args = op[0], [decode(a) for a in op[1]]
    if name == "getitem":
        return x[args[0]]
    if name == "flip_cat":
        return torch.cat([x, x], *args)
    if name == "mulr":
        return args[0] * x
    if name == "torch.mul":
        return torch.mul(x, *args)
    if name == "topk.values":
        return x.topk(*args).values
    if name == "topk.indices":
        return x.topk(*args).indices
    if name == "view_as":
        return x.view_as(torch.zeros(args[0]))
    if name == "torch.reshape":
        return torch.reshape(x, *args)
    if name == "torch.transpose":
        return torch.transpose(x, *args)
    if name == "torch.unsqueeze":
        return torch.unsqueeze(x, *args)
    if name == "take_along_dim":
        return torch.take_along_dim(x, *args)
    if name == "deepcopy":
        return copy.deepcopy(x)
    if name == "pickle":
        return pickle.loads(pickle.dumps(x))
    if name == "to.cpu":
        return x.to("cpu")
    if name == "to.copy":
        return x.to("cpu", copy=True)
    return getattr(x, name)(*args)


def index_alphabet(shape):
    """Index expressions for one tensor of the given shape."""
    n = len(shape)

    def one(d):
        yield from range(-d, d)
        yield {"slice": [None, None, None]}
        yield {"slice": [1, None, None]}
        yield {"slice": [0, 1, None]}
        yield {"slice": [None, None, 2]}
        yield {"slice": [-1, None, None]}
        yield {"slice": [d, None, None]}

    if n == 0:
        yield "..."
        yield None
        yield {"tuple": []}
        return
    d0 = shape[0]
    simple = list(one(d0)) + [None, "..."]
    yield from simple
    yield {"long": list(range(d0))[::-1]}
    yield {"long": [0]}
    yield {"long": 0}
    yield {"list": [d0 - 1, 0]}
    yield {"list": [0]}
    yield {"bool": [i % 2 == 0 for i in range(d0)]}
    yield {"bool": [False] * d0}
    yield {"list": [i % 2 == 1 for i in range(d0)]}
    yield {"tuple": [{"long": [0, d0 - 1]}, "..."]}
    yield {"tuple": [None, {"long": [d0 - 1]}]}
    yield {"bool": [[(i + j) % 2 == 0 for j in range(shape[1])] for i in range(d0)]} if n == 2 else 0
    if n >= 2:
        d1, dl = shape[1], shape[-1]
        for a in simple:
            for b in itertools.chain(one(d1), [None, "..."]):
                if a == "..." and b == "...":
                    continue
                yield {"tuple": [a, b]}
        yield {"tuple": [{"slice": [None, None, None]}, {"long": [d1 - 1, 0]}]}
        yield {"tuple": [{"long": [0, d0 - 1]}, {"long": [d1 - 1, 0]}]}
        yield {"tuple": [{"long": [d0 - 1]}, 0]}
        yield {"tuple": [0, {"long": [d1 - 1, 0]}]}
        yield {"tuple": [{"slice": [None, None, None]}, {"list": [d1 - 1, 0]}]}
        yield {"tuple": [{"slice": [None, None, None]}, {"bool": [i % 2 == 0 for i in range(d1)]}]}
        yield {"tuple": [True, {"slice": [None, None, None]}]}
        for l in one(dl):
            yield {"tuple": ["...", l]}
            yield {"tuple": ["...", None, l]}
            yield {"tuple": ["...", l, None]}
            yield {"tuple": [0, "...", l]} if n >= 2 else 0
    if n == 3:
        for a in (0, {"slice": [None, None, None]}, {"slice": [1, None, None]}, None):
            for b in (0, {"slice": [None, None, None]}, {"slice": [1, None, None]}, None, "..."):
                for c in (-1, {"slice": [None, None, None]}, {"slice": [0, 1, None]}, None):
                    yield {"tuple": [a, b, c]}
        yield {"tuple": [{"slice": [None, None, None]}, {"long": [0, shape[1] - 1]}, {"slice": [None, None, None]}]}
        yield {"tuple": [{"long": [0, 0]}, {"slice": [None, None, None]}, {"long": [0, shape[2] - 1]}]}


def reshapes(shape):
    n = refs.numel(shape)
    out = [[n], [1, n], [n, 1], [-1], [1, -1]]
    for d in refs.divisors(n):
        out.append([d, n // d])
        if len(shape) == 3:
            out.append([d, -1])
    out.append([max(n - 1, 0), 2])  # does not fit
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return seen


def ops_for(shape, tier, brief=False):
    n = len(shape)
    for s in reshapes(shape):
        yield ["view", [{"tuple": s}]]
        yield ["reshape", [{"tuple": s}]]
        if not brief:
            yield ["view", s]
            yield ["reshape", s]
            yield ["torch.reshape", [{"tuple": s}]]
            if -1 not in s:
                yield ["view_as", [{"tuple": s}]]
    for a in range(-n, n):
        for b in range(-n, n):
            yield ["transpose", [a, b]]
            if not brief:
                yield ["torch.transpose", [a, b]]
    for a in range(-n - 1, n + 1):
        yield ["unsqueeze", [a]]
        if not brief:
            yield ["torch.unsqueeze", [a]]
    for lead in ([], [2], [1]):
        for tail in itertools.product(*([-1, d] if d != 1 else [-1, 3] for d in shape)):
            yield ["expand", [{"tuple": lead + list(tail)}]]
            if not brief:
                yield ["expand", lead + list(tail)]
    for s in (2, 0.5, -1, -2.0, 0.25, 3, 1):
        for name in ("mul", "torch.mul", "mulr") if not brief else ("mul",):
            yield [name, [s]]
    for d in range(-n, n):
        for k in range(0, shape[d] + 1):
            for largest in (True, False):
                yield ["topk.values", [k, d, largest]]
                if not brief:
                    yield ["topk.indices", [k, d, largest]]
        yield ["flip_cat", [d]]
        idx = (torch.arange(refs.numel(shape)).reshape(shape) % shape[d]).tolist()
        yield ["take_along_dim", [{"long": idx}, d]]
    yield ["take_along_dim", [{"long": [0, refs.numel(shape) - 1]}]]
    for name in ("contiguous", "clone", "detach", "deepcopy", "pickle", "to.cpu", "to.copy", "cpu"):
        yield [name, []]
    if brief:
        for i in (0, -1, None, "...", {"slice": [1, None, None]}, {"tuple": ["...", -1]}, {"tuple": ["...", None, 0]},
                  {"tuple": [{"slice": [None, None, None]}, None]}, {"long": [0, 0]}):
            yield ["getitem", [i]]
    else:
        seen = set()
        for i in index_alphabet(shape):
            if repr(i) not in seen:
                seen.add(repr(i))
                yield ["getitem", [i]]


# Operations that must stay quantized: {operation: granularities}
MUST = {
    "view": "tensor", "view_as": "tensor", "reshape": "tensor", "torch.reshape": "tensor", "transpose": "tensor",
    "torch.transpose": "tensor", "expand": "tensor", "take_along_dim": "tensor", "topk.values": "tensor",
    "mul": "tensor", "torch.mul": "tensor", "mulr": "tensor", "flip_cat": "tensor",
    "unsqueeze": "tensor channel tile", "torch.unsqueeze": "tensor channel tile",
    "contiguous": "tensor channel tile block", "clone": "tensor channel tile block", "detach": "tensor channel tile block",
    "deepcopy": "tensor channel tile block", "pickle": "tensor channel tile block", "to.cpu": "tensor channel tile block",
    "cpu": "tensor channel tile block",
}
INT_FREE = {"mul", "torch.mul", "mulr"}


def must_be_quantized(op, kind):
    if op[0] == "getitem":
        return kind in ("tensor", "channel")
    return kind in MUST.get(op[0], "").split()


def same(a, b):
    return a.shape == b.shape and bool(torch.equal(a.float(), b.float()))


def snapshot(q):
    p = q.quant_args()
    return (q.raw_data.clone(), p.scale.clone() if isinstance(p.scale, torch.Tensor) else p.scale,
            None if p.offset is None else p.offset.clone(), p.granularity, p.num_bits)


def unchanged(q, s):
    p = q.quant_args()
    return (same(q.raw_data, s[0]) and torch.equal(p.scale, s[1]) and (p.offset is None) == (s[2] is None)
            and (s[2] is None or torch.equal(p.offset, s[2])) and p.granularity is s[3] and p.num_bits == s[4])


def attempt(op, x):
    try:
        return apply(op, x), None
    except Exception as e:  # refusal; judged by the caller
        return None, e


def step(op, q, f, kind, strict, trail):
    """One transition of both the code and the float model. Returns (next quantized, next float, outcome)."""
    before = snapshot(q)
    want, werr = attempt(op, f)
    got, gerr = attempt(op, q)
    check(unchanged(q, before), "operand-altered", lambda: trail)
    if werr is not None:
        check(gerr is not None, "invalid-accepted", lambda: f"{trail}: float op raises {werr!r}, got {got}")
        return None, None, "invalid"
    if gerr is not None:
        check(not (must_be_quantized(op, kind) and op[0] not in ()), "refused", lambda: f"{trail}: {type(gerr).__name__}: {gerr}")
        # An operation without a quantized implementation is refused for that reason, in strict mode only
        refusal = isinstance(gerr, (ff.exceptions.QuantizationError, NotImplementedError)) and strict
        check(refusal or op[0] == "to.copy", "crash", lambda: f"{trail}: {gerr!r}")
        return None, None, "refused"
    if isinstance(got, QuantizedTensor):
        check(got.shape == want.shape, "shape", lambda: f"{trail}: {got.shape} want {want.shape}")
        deq = got.dequantize()
        check(same(deq, want), "dequantized-value", lambda: f"{trail}: {deq.tolist()} want {want.tolist()}")
        if op[0] not in INT_FREE and op[0] != "topk.values" and op[0] not in ("deepcopy", "pickle", "to.cpu", "to.copy", "cpu", "detach"):
            raw, rerr = attempt(op, q.raw_data)
            check(rerr is None and same(got.raw_data, raw), "integers", lambda: f"{trail}: {got.raw_data} want {raw}")
        check(got.quant_args().num_bits == q.quant_args().num_bits, "bits", trail)
        if op[0] in ("clone", "deepcopy", "pickle", "to.copy"):
            check(got.data_ptr() != q.data_ptr() or got.numel() == 0, "aliased-copy", lambda: trail)
        return got, want, "quantized"
    check(not must_be_quantized(op, kind) or op[0] == "topk.indices", "not-quantized", lambda: f"{trail}: {type(got)}")
    if op[0] != "topk.indices":
        check(not strict or got.dtype in (torch.long, torch.bool), "silent-dequantize", lambda: f"{trail}: {got}")
    if op[0] == "topk.indices":
        check(same(f.gather(decode(op[1][1]), got), f.topk(*[decode(a) for a in op[1]]).values), "indices", lambda: f"{trail}: {got}")
    else:
        check(same(got, want), "float-value", lambda: f"{trail}: {got} want {want}")
    return None, None, "float"


def _operands(tier, brief=False):
    shapes = [(), (1,), (3,), (2, 3), (3, 1), (2, 2), (2, 1, 3), (2, 3, 2)]
    if tier == "thorough":
        shapes += [(1, 1), (1, 3), (4,), (2, 2, 2), (3, 1, 2), (1, 2, 3)]
    if brief:
        shapes = [(2, 3), (2, 1, 2)] if tier == "quick" else [(3,), (2, 3), (2, 2), (3, 1), (2, 1, 2), (2, 3, 2)]
    for shape in shapes:
        for spec, tile in refs.granularities(shape):
            if brief and spec[0] in ("block", "tile") and tier == "quick":
                continue
            if tier == "quick" and spec[0] == "block" and len(shape) == 3 and (spec[1] + spec[3])[0] < 0:
                continue
            yield shape, spec, tile


def gen_single(tier):
    for shape, spec, tile in _operands(tier):
        variants = itertools.product(("none", "int", "frac"), ("f32", "i8"), (1, -1))
        for off, raw, sign in variants:
            if sign == -1 and (off == "frac" or raw == "i8") and tier == "quick":
                continue
            if spec[0] not in ("tensor",) and tier == "quick" and (raw == "i8" or off == "frac" or sign == -1):
                continue
            for strict in (True, False):
                if spec[0] in ("block", "tile") and not strict and tier == "quick":
                    continue
                yield {"shape": list(shape), "gran": spec, "tile": list(tile), "off": off, "raw": raw, "sign": sign, "strict": strict}


def run_single(case):
    shape, tile, kind = tuple(case["shape"]), tuple(case["tile"]), case["gran"][0]
    q = make_operand(shape, case["gran"], tile, case["off"], case["raw"], case["sign"])
    f = q.dequantize().clone()
    states, seen = set(), {}
    n = 0
    with ff.strict_quantization(case["strict"]):
        for op in ops_for(shape, "quick"):
            n += 1
            _, want, outcome = step(op, q, f, kind, case["strict"], f"{op}")
            seen[outcome] = seen.get(outcome, 0) + 1
            if want is not None:
                states.add((tuple(want.shape), tuple(want.flatten().tolist())))
    return Stats(states=len(states) + 1, transitions=n, traces=n, outcome=sorted(seen.items()))


def gen_chain(tier):
    for shape, spec, tile in _operands(tier, brief=True):
        for off in ("none", "int"):
            for op in ops_for(shape, tier, brief=True):
                yield {"shape": list(shape), "gran": spec, "tile": list(tile), "off": off, "op": op}


def kind_of(q):
    g = q.quant_args().granularity
    return {"PerTensor": "tensor", "PerChannel": "channel", "PerTile": "tile"}.get(type(g).__name__, "block")


def run_chain(case):
    shape, tile, kind = tuple(case["shape"]), tuple(case["tile"]), case["gran"][0]
    q = make_operand(shape, case["gran"], tile, case["off"])
    f = q.dequantize().clone()
    q1, f1, outcome = step(case["op"], q, f, kind, True, f"{case['op']}")
    n, seen = 1, {outcome: 1}
    if q1 is None:
        return Stats(states=1, transitions=1, traces=1, outcome=outcome)
    for op in ops_for(tuple(q1.shape), "quick", brief=True):
        if 0 in q1.shape and op[0] not in ("clone", "contiguous", "unsqueeze"):
            continue
        n += 1
        _, _, outcome = step(op, q1, f1, kind_of(q1), True, f"{case['op']} then {op}")
        seen[outcome] = seen.get(outcome, 0) + 1
    return Stats(states=n, transitions=n, traces=n, outcome=sorted(seen.items()))


# --------------------------------------------------------------------- concatenation

CAT_SPECS = [
    [s, o, b, raw]
    for s in (1.0, 0.5)
    for o in (None, 0.0, 3.0, 3.25, -2.0)
    for b in (4, 3)
    for raw in ("f32", "i8")
    if not (b == 3 and raw == "i8")
] + ["float", "channel"]


def gen_cat(tier):
    for a in CAT_SPECS:
        for b in CAT_SPECS:
            for strict in (True, False):
                yield {"parts": [a, b], "strict": strict}
    third = [[1.0, None, 4, "f32"], [1.0, 3.0, 4, "f32"], [0.5, None, 4, "f32"], "float"]
    for a, b, c in itertools.product(third, repeat=3):
        for strict in (True, False):
            yield {"parts": [a, b, c], "strict": strict}


def run_cat(case):
    parts = []
    for k, spec in enumerate(case["parts"]):
        grid = torch.tensor([[-4.0, 3.0, 0.0], [2.0, -1.0, -3.0]]) + 0.0
        if spec == "float":
            parts.append(grid + k)
        elif spec == "channel":
            parts.append(affine_static.quantize_per_granularity(grid, torch.tensor([1.0, 0.5]), None, ff.PerChannel(0), 4))
        else:
            s, o, b, raw = spec
            off = None if o is None else torch.tensor([o])
            kw = {} if raw == "f32" else {"output_dtype": torch.int8}
            x = (grid + (refs.round_half_even(o) if o is not None else 0.0)) * s
            parts.append(affine_static.quantize_per_granularity(x, torch.tensor([s]), off, ff.PerTensor(), b, **kw))
    floats = [p.dequantize() if isinstance(p, QuantizedTensor) else p for p in parts]
    before = [snapshot(p) if isinstance(p, QuantizedTensor) else None for p in parts]
    seen = []
    with ff.strict_quantization(case["strict"]):
        for dim in (0, 1, -1, -2):
            want = torch.cat(floats, dim)
            for form in (0, 1):
                arg = list(parts) if form == 0 else tuple(parts)
                try:
                    got = torch.cat(arg, dim) if form == 0 else torch.cat(arg, dim=dim)
                except Exception as e:
                    check(case["strict"], "cat-refused", lambda: f"{type(e).__name__}: {e}")
                    all_same = all(p == case["parts"][0] for p in case["parts"]) and case["parts"][0] not in ("float", "channel")
                    check(not all_same, "cat-same-grid-refused", lambda: repr(e))
                    seen.append("refused")
                    continue
                if isinstance(got, QuantizedTensor):
                    check(same(got.dequantize(), want), "cat-value", lambda: f"{got.dequantize()} want {want}")
                    lo, hi = refs.int_bounds(got.quant_args().num_bits)
                    check(lo <= got.raw_data.min() and got.raw_data.max() <= hi, "cat-outside-grid",
                          lambda: f"{got.raw_data} does not fit {got.quant_args().num_bits} bits")
                    seen.append("quantized")
                else:
                    check(not case["strict"] or all(s == "float" for s in case["parts"]), "cat-silent-dequantize", "")
                    check(same(got, want), "cat-float-value", lambda: f"{got} want {want}")
                    seen.append("float")
        for p, s in zip(parts, before):
            if s is not None:
                check(unchanged(p, s), "operand-altered", "")
    return Stats(states=len(parts), transitions=8, traces=1, outcome=seen)


FAMILIES = [
    Family("single", gen_single, run_single,
           "all shapes x granularities x offsets x storage types x scale signs x strict flag; every operation with every argument of its alphabet"),
    Family("chain2", gen_chain, run_chain, "every first operation followed by every second operation on its result"),
    Family("cat", gen_cat, run_cat, "all pairs and triples of operand parameter sets x dims x strict flag"),
]
