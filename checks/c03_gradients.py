"""C03: gradients through fake quantization follow the straight-through rule."""

from __future__ import annotations

import itertools

import torch

import fastforward as ff

from fastforward.quantization import affine
from fastforward.quantization.affine import static as affine_static
from fastforward.quantization.ste import round_ste, ste

from mc import refs
from mc.harness import Family, Stats, check

PROP = "C03"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "small scope: <=3 dims, <=16 elements; power-of-two scales and dyadic gradients, so sums are exact",
    "an element counts as clipped iff its nearest integer lies outside the b-bit range",
]

DELTAS = (0.0, 0.25, -0.25, 0.375, -0.375)


def _grad_ref(shape, tile, xs, gs, scales, offsets, bits):
    """Hand-derived derivatives of  s * (clamp(x/s - o) + o)  with d round = identity."""
    lo, hi = refs.int_bounds(bits)
    n = refs.num_tiles(shape, tile)
    dx, ds, do = [], [0.0] * n, [0.0] * n
    for x, g, idx in zip(xs, gs, refs.indices(shape)):
        t = refs.tile_index(idx, shape, tile)
        s = scales[t]
        o = refs.round_half_even(offsets[t]) if offsets is not None else 0.0
        v = x / s - o
        q = refs.round_half_even(v)
        if q < lo or q > hi:
            bound = lo if q < lo else hi
            dx.append(0.0)
            ds[t] += g * (bound + o)
            do[t] += g * s
        else:
            dx.append(g)
            ds[t] += g * (q + o - x / s)
    return dx, ds, do


def _shapes(tier):
    cap = 12 if tier == "quick" else 24
    yield ()
    for n in (1, 2, 3):
        for shape in itertools.product((1, 2, 3, 4), repeat=n):
            if refs.numel(shape) <= cap:
                yield shape


def gen_static(tier):
    for shape in _shapes(tier):
        for spec, tile in refs.granularities(shape, negative=False):
            for bits in (2, 3) if tier == "quick" else (1, 2, 3, 4):
                for off in ("none", "int", "frac"):
                    yield {"shape": list(shape), "gran": spec, "tile": list(tile), "bits": bits, "off": off}


def _case(case):
    shape, tile, bits = tuple(case["shape"]), tuple(case["tile"]), case["bits"]
    n = refs.num_tiles(shape, tile)
    scales = [2.0 ** (-(t % 3)) for t in range(n)]
    offsets = {
        "none": None,
        "int": [float((t * 3) % 5 - 2) for t in range(n)],
        "frac": [float((t * 3) % 5 - 2) + 0.25 for t in range(n)],
    }[case["off"]]
    lo, hi = refs.int_bounds(bits)
    span = hi - lo + 5
    xs, gs = [], []
    for i, idx in enumerate(refs.indices(shape)):
        t = refs.tile_index(idx, shape, tile)
        o = refs.round_half_even(offsets[t]) if offsets is not None else 0.0
        k = lo - 2 + (i * 3 + 1) % span
        xs.append((k + o + DELTAS[i % len(DELTAS)]) * scales[t])
        gs.append(float(2 ** (i % 4)) * (-1 if i % 3 == 1 else 1) + 0.5)
    return shape, tile, bits, scales, offsets, xs, gs


def run_static(case):
    shape, tile, bits, scales, offsets, xs, gs = _case(case)
    dx, ds, do = _grad_ref(shape, tile, xs, gs, scales, offsets, bits)
    gran = refs.make_granularity(case["gran"])
    n = len(scales)
    routes = ["functional", "module", "export", "f64"]
    for route in routes:
        dt = torch.float64 if route == "f64" else torch.float32
        x = torch.tensor(xs, dtype=dt).reshape(shape).requires_grad_()
        g = torch.tensor(gs, dtype=dt).reshape(shape)
        if route == "module":
            q = ff.nn.LinearQuantizer(num_bits=bits, symmetric=offsets is None, allow_one_sided=False, granularity=gran)
            q.quantization_range = (-torch.ones(n), torch.ones(n))
            with torch.no_grad():
                q.scale.copy_(torch.tensor(scales))
                if offsets is not None:
                    q.offset.copy_(torch.tensor(offsets))
            scale, offset = q.scale, q.offset
            y = q(x).dequantize()
        else:
            scale = torch.tensor(scales, dtype=dt).requires_grad_()
            offset = None if offsets is None else torch.tensor(offsets, dtype=dt).requires_grad_()
            if route == "export":
                with ff.export_mode(True):
                    y = affine_static.quantize_per_granularity(x, scale, offset, gran, bits)
            else:
                y = affine_static.quantize_per_granularity(x, scale, offset, gran, bits).dequantize()
        y.backward(g)
        check(x.grad is not None and x.grad.flatten().tolist() == dx, "data-grad",
              lambda: f"{route}: {x.grad} want {dx} x={xs} g={gs}")
        check(scale.grad is not None and scale.grad.tolist() == ds, "scale-grad", lambda: f"{route}: {scale.grad} want {ds}")
        if offset is not None:
            check(offset.grad is not None and offset.grad.tolist() == do, "offset-grad", lambda: f"{route}: {offset.grad} want {do}")
    return Stats(states=len(routes), transitions=2 * len(routes), traces=len(routes), outcome=[dx, ds, do])


# every grid position x every gradient value, per tensor --------------------------------------------


def gen_scalar(tier):
    for bits in range(1, 7):
        for scale in (1.0, 0.25, 4.0):
            for off in (None, 0.0, 3.0, -2.0, 1.5):
                yield {"bits": bits, "scale": scale, "off": off}


def run_scalar(case):
    bits, s, off = case["bits"], case["scale"], case["off"]
    lo, hi = refs.int_bounds(bits)
    o = refs.round_half_even(off) if off is not None else 0.0
    n = 0
    for k in range(lo - 2, hi + 3):
        for d in (0.0, 0.25, 0.5, -0.5, -0.25):
            for g in (1.0, -2.0, 0.0):
                xv = (k + o + d) * s
                x = torch.tensor([xv], requires_grad=True)
                sc = torch.tensor(s, requires_grad=True)
                of = None if off is None else torch.tensor(off, requires_grad=True)
                affine_static.quantize_per_tensor(x, sc, of, bits).dequantize().backward(torch.tensor([g]))
                dx, ds, do = _grad_ref((1,), (1,), [xv], [g], [s], None if off is None else [off], bits)
                check(x.grad.tolist() == dx, "scalar-data-grad", lambda: f"x={xv} {x.grad} {dx}")
                check(sc.grad.item() == ds[0] and sc.grad.shape == sc.shape, "scalar-scale-grad", lambda: f"x={xv} {sc.grad} {ds}")
                if of is not None:
                    check(of.grad.item() == do[0] and of.grad.shape == of.shape, "scalar-offset-grad", lambda: f"x={xv} {of.grad} {do}")
                n += 1
    return Stats(states=n, transitions=n, traces=n, outcome=[bits, s, off])


# dynamic quantization, plain dequantization, STE helper ---------------------------------------------


def gen_identity(tier):
    for shape in _shapes(tier):
        if not shape:
            continue
        for spec, tile in refs.granularities(shape, negative=False):
            for kind in ("dynamic", "dynamic_sym", "dequantize", "detach"):
                yield {"shape": list(shape), "gran": spec, "tile": list(tile), "kind": kind}


def run_identity(case):
    shape, tile, kind = tuple(case["shape"]), tuple(case["tile"]), case["kind"]
    gran = refs.make_granularity(case["gran"])
    n = refs.numel(shape)
    x = torch.tensor([float((i * 5) % 7 - 3) for i in range(n)]).reshape(shape).requires_grad_()
    g = torch.tensor([float(i + 1) for i in range(n)]).reshape(shape)
    if kind.startswith("dynamic"):
        from fastforward.quantization.affine import dynamic

        y = dynamic.quantize_per_granularity(x, gran, 4, symmetric=kind == "dynamic_sym").dequantize()
        y.backward(g)
        check(torch.equal(x.grad, g), "dynamic-grad", lambda: f"{x.grad} {g}")
    elif kind == "dequantize":
        ctx = affine.quantization_context(torch.full((refs.num_tiles(shape, tile),), 0.5), None, gran, 4)
        leaf = x.detach().clone().requires_grad_()
        ctx.attach(leaf).dequantize().backward(g)
        check(leaf.grad is not None and torch.equal(leaf.grad, g), "dequantize-grad", "")
    else:
        qt = affine_static.quantize_per_granularity(x, torch.full((refs.num_tiles(shape, tile),), 0.5), None, gran, 4)
        check(qt.requires_grad and not qt.detach().requires_grad, "detach-grad", "")
    return Stats(outcome=kind)


def gen_ste(tier):
    vals = [-1.5, -0.5, -0.25, 0.0, 0.5, 0.75, 1.5, 2.5]
    for a, b in itertools.product(vals, repeat=2):
        yield {"x": [a, b]}


def run_ste(case):
    x = torch.tensor(case["x"], requires_grad=True)
    g = torch.tensor([3.0, -2.0])
    y = round_ste(x)
    check(y.tolist() == [refs.round_half_even(v) for v in case["x"]], "ste-forward", lambda: y.tolist())
    y.backward(g)
    check(torch.equal(x.grad, g), "ste-grad", lambda: x.grad)

    def floor2(t, k):
        return torch.floor(t * k)

    x2 = torch.tensor(case["x"], requires_grad=True)
    z = ste(floor2)(x2, 2)
    z.backward(g)
    check(torch.equal(x2.grad, g) and torch.equal(z.detach(), torch.floor(x2.detach() * 2)), "ste-wrap", "")
    return Stats(outcome=y.tolist())


# operations in the quantized domain and fallbacks ----------------------------------------------------

OPS = {
    "reshape": lambda t: t.reshape(-1),
    "view": lambda t: t.view(3, 2),
    "transpose": lambda t: t.transpose(0, 1),
    "getitem": lambda t: t[1],
    "getitem_slice": lambda t: t[:, 1:],
    "getitem_neg": lambda t: t[-1, 0],
    "expand": lambda t: t[0:1].expand(4, 3),
    "unsqueeze": lambda t: t.unsqueeze(1),
    "mul2": lambda t: t * 2.0,
    "mulneg": lambda t: t * -0.5,
    "mulint": lambda t: t * 4,
    "mul0": lambda t: t * 0.0,
    "cat": lambda t: torch.cat([t, t], dim=1),
    "cat_mixed": lambda t: torch.cat([t[1:], t], dim=0),
    "contiguous": lambda t: t.transpose(0, 1).contiguous(),
    "clone": lambda t: t.clone(),
    "topk": lambda t: torch.topk(t, 2, dim=1)[0],
    "take": lambda t: torch.take_along_dim(t, torch.tensor([[0, 2], [1, 0]]), dim=1),
    "sum": lambda t: t.sum(0),
    "addself": lambda t: t + t,
    "matmul": lambda t: t @ t.transpose(0, 1),
    "relu": lambda t: torch.relu(t),
    "float": lambda t: t.float(),
    "double": lambda t: t.double(),
}


def gen_ops(tier):
    names = sorted(OPS)
    for name in names:
        for off in (None, 2.0):
            yield {"ops": [name], "off": off}
    firsts = ["transpose", "mulneg", "getitem_slice", "clone", "cat", "unsqueeze", "mul2"]
    for a in firsts:
        for b in names:
            yield {"ops": [a, b], "off": 2.0}


def run_ops(case):
    vals = [[-3.0, -1.0, 2.0], [0.0, 1.0, 3.0]]

    def apply(t):
        for name in case["ops"]:
            t = OPS[name](t)
        return t

    ref_in = torch.tensor(vals, requires_grad=True)
    try:
        ref = apply(ref_in * 1.0)
    except (RuntimeError, IndexError):
        return Stats(outcome="n/a")
    g = torch.arange(1, ref.numel() + 1, dtype=ref.dtype).reshape(ref.shape)
    ref.backward(g)
    x = torch.tensor(vals, requires_grad=True)
    with ff.strict_quantization(False):
        qt = affine_static.quantize_per_tensor(x, torch.tensor([1.0]), case["off"], 4)
        out = apply(qt)
        deq = out.dequantize() if isinstance(out, ff.QuantizedTensor) else out
    check(torch.equal(deq.detach(), ref.detach()), "op-value", lambda: f"{case}: {deq} {ref}")
    deq.backward(g)
    check(x.grad is not None and torch.allclose(x.grad, ref_in.grad), "op-grad", lambda: f"{case}: {x.grad} want {ref_in.grad}")
    return Stats(transitions=len(case["ops"]), outcome=x.grad.tolist())


FAMILIES = [
    Family("static", gen_static, run_static, "all shapes x granularities x bits x offsets; data/scale/offset gradients on 4 routes"),
    Family("scalar", gen_scalar, run_scalar, "every grid position incl. both clipping sides"),
    Family("identity", gen_identity, run_identity, "dynamic quantization and dequantization pass gradients"),
    Family("ste", gen_ste, run_ste, "rounding helper"),
    Family("ops", gen_ops, run_ops, "gradients through all quantized-domain ops and pairs of ops"),
]
