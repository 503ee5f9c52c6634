"""C21: GPTQ returns weights on the quantizer's grid and touches nothing else."""

from __future__ import annotations

import itertools
import math

import numpy as np
import torch

import fastforward as ff

from fastforward.quantization.gptq import gptq

from mc import refs
from mc.harness import Family, Stats, check

PROP = "C21"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small layers, granularities, block sizes, orderings and calibration sets; every optimisation runs on the real code and is compared with a column-by-column reference in double precision (direct inverse-Hessian updates, no blocking, no Cholesky factor)"
ASSUMPTIONS = [
    "three-dimensional activations for linear layers, numeric padding and one group for convolutions, per-channel over dimensions (0), (1) or (0, 1) (what the algorithm supports)",
    "cases in which the reference meets a rounding tie are only checked for grid membership and for what must stay unchanged",
    "columns with equal activation magnitude may be visited in any order",
]

# irregular values: rounding ties do not occur by construction of the alphabet
WEIGHTS = [
    lambda o, i: [[math.sin(1.7 * (r * i + c) + 0.3) for c in range(i)] for r in range(o)],
    lambda o, i: [[0.9 * math.cos(2.3 * (r + 1) * (c + 2)) - 0.2 for c in range(i)] for r in range(o)],
    lambda o, i: [[0.11 + 0.37 * ((r * 5 + c * 3) % 7) for c in range(i)] for r in range(o)],  # one-sided
    lambda o, i: [[math.sin(3.1 * (r + 2 * c) + 1.0) * (10.0 if c == 0 else 0.3) for c in range(i)] for r in range(o)],
]


def act_vectors(i, k):
    """Sample `k` of an alphabet of activation vectors with `i` features."""
    return {
        0: [1.0 if c == 0 else 0.0 for c in range(i)],
        1: [1.0 + 0.5 * c for c in range(i)],
        2: [(-1.0) ** c * (0.7 + 0.2 * c) for c in range(i)],
        3: [0.3 if c == i - 1 else 1.1 + 0.1 * c for c in range(i)],
        4: [0.0] * i,
        5: [2.0 if c == i // 2 else 0.25 for c in range(i)],
    }[k]


def ident(i, scale=1.0):
    return [[scale * (1 + 0.1 * r) if r == c else 0.0 for c in range(i)] for r in range(i)]


def batches(spec, i):
    """spec: list of batches, each a list of rows (sequence); a row is a vector number or 'I'."""
    out = []
    for b in spec:
        rows = []
        for k in b:
            rows += ident(i) if k == "I" else [act_vectors(i, k)]
        out.append(torch.tensor([rows]))
    return out


class Tie(Exception):
    pass


def reference(w, x, quantizer, tile, order, damp, bits, sym, one_sided, scale, offset):
    """Column-by-column optimal rounding in double precision.

    w: (out, in) array, x: list of (features, samples) arrays; returns the weight and the scales.
    """
    w = np.array(w, dtype=np.float64)
    out, n = w.shape
    hess = np.zeros((n, n))
    total = sum(v.shape[1] for v in x)
    for v in x:
        hess += 2.0 / total * (v @ v.T)
    for i in range(n):
        if hess[i, i] == 0:
            hess[i, i] = 1.0
    hess = hess + damp * np.mean(np.diag(hess)) * np.eye(n)
    inv = np.linalg.inv(hess[np.ix_(order, order)])
    rows, cols = out // tile[0], n // tile[1]
    scale = np.array(scale, dtype=np.float64).reshape(rows, cols).copy()
    offset = None if offset is None else np.array(offset, dtype=np.float64).reshape(rows, cols).copy()
    dynamic = isinstance(quantizer.granularity, (ff.granularity.PerBlock, ff.granularity.PerTile)) and cols > 1 and list(order) == sorted(order)
    result = np.zeros_like(w)
    noise = 5e-5 * np.abs(w).max()  # of the single precision algorithm, for badly conditioned data
    left = list(order)
    while left:
        c = left[0]
        g = c // tile[1]
        if dynamic and c % tile[1] == 0:
            group = torch.tensor(w[:, c : c + tile[1]], dtype=torch.float32).reshape(rows, -1)
            s, o = ff.quantization.affine.parameters_for_range(
                group.min(-1).values, group.max(-1).values, num_bits=bits, symmetric=sym, allow_one_sided=one_sided)
            scale[:, g] = s.double().numpy()
            if offset is not None:
                offset[:, g] = 0.0 if o is None else o.double().numpy()
        for r in range(out):
            s = scale[r // tile[0], g]
            o = 0.0 if offset is None else offset[r // tile[0], g]
            if abs(abs(o) % 1 - 0.5) < 1e-3:
                raise Tie
            t = w[r, c] / s - refs.round_half_even(o)
            if abs(t % 1 - 0.5) < 2e-3 + noise / s:
                raise Tie
            result[r, c] = refs.dequantize(refs.quantize(w[r, c], s, o, bits), s, o)
        err = (w[:, c] - result[:, c]) / inv[0, 0]
        left = left[1:]
        for k, c2 in enumerate(left):
            w[:, c2] -= err * inv[0, k + 1]
        inv = inv[1:, 1:] - np.outer(inv[1:, 0], inv[0, 1:]) / inv[0, 0]
    return result, scale, offset


def orders(x, n, actorder):
    """Every order of the columns the algorithm may choose."""
    if not actorder:
        return [list(range(n))]
    diag = sum((v**2).sum(1) for v in x)
    total = sum(v.shape[1] for v in x)
    diag = [round(float(d) * 2 / total, 5) if d != 0 else 1.0 for d in diag]
    groups = [[i for i in range(n) if diag[i] == d] for d in sorted(set(diag), reverse=True)]
    return [list(itertools.chain(*p)) for p in itertools.product(*(itertools.permutations(g) for g in groups))]


def unfold(x, kernel, stride, padding, dilation):
    """(N, C, H, W) -> (C*kh*kw, N*L) by direct indexing."""
    n, c, h, w = x.shape
    (kh, kw), (sh, sw), (ph, pw), (dh, dw) = kernel, stride, padding, dilation
    oh = (h + 2 * ph - dh * (kh - 1) - 1) // sh + 1
    ow = (w + 2 * pw - dw * (kw - 1) - 1) // sw + 1
    cols = []
    for b, y, z in itertools.product(range(n), range(oh), range(ow)):
        col = []
        for ch, a, e in itertools.product(range(c), range(kh), range(kw)):
            i, j = y * sh - ph + a * dh, z * sw - pw + e * dw
            col.append(float(x[b, ch, i, j]) if 0 <= i < h and 0 <= j < w else 0.0)
        cols.append(col)
    return np.array(cols).T


def make_layer(case):
    if case["layer"] == "linear":
        out, n = case["shape"]
        layer = ff.nn.QuantizedLinear(n, out, bias=case.get("bias", True))
    else:
        out, cin, kh, kw = case["shape"]
        n = cin * kh * kw
        layer = ff.nn.QuantizedConv2d(cin, out, (kh, kw), **{k: tuple(v) for k, v in case.get("conv", {}).items()})
    with torch.no_grad():
        layer.weight.copy_(torch.tensor(WEIGHTS[case["w"]](out, n)).reshape(layer.weight.shape))
    layer.to(getattr(torch, case.get("dtype", "float32")))
    layer.weight_quantizer = ff.nn.LinearQuantizer(
        case["bits"], granularity=refs.make_granularity(case["gran"]), symmetric=case["sym"], allow_one_sided=case.get("one_sided", True))
    layer.input_quantizer = ff.nn.DynamicLinearQuantizer(8)
    layer.bias_quantizer = ff.nn.LinearQuantizer(8)
    return layer, out, n


def run(case):
    layer, out, n = make_layer(case)
    neighbour = ff.nn.QuantizedLinear(2, 2)
    net = torch.nn.ModuleList([layer, neighbour])
    dtype = layer.weight.dtype
    if case["layer"] == "linear":
        acts = [b.to(dtype) for b in batches(case["calib"], n)]
        x = [a.double().reshape(-1, n).numpy().T for a in acts]
    else:
        h, w = case["image"]
        size = layer.in_channels * h * w
        acts = [torch.tensor([[math.sin(0.9 * (k + 1) * p + 0.4 * k + 0.2) for p in range(size)] for k in b]).reshape(len(b), layer.in_channels, h, w).to(dtype) for b in case["calib"]]
        x = [unfold(a, layer.kernel_size, layer.stride, layer.padding, layer.dilation) for a in acts]
    w0 = layer.weight.detach().float().clone().reshape(out, n)
    copies = [a.clone() for a in acts]
    params = {k: (p, None if k.startswith("0.weight") or isinstance(p, torch.nn.UninitializedParameter) else p.detach().clone()) for k, p in net.named_parameters()}
    mods = list(net.named_modules())
    wq = layer.weight_quantizer
    settings = (wq.num_bits, wq.granularity, wq.symmetric, wq.allow_one_sided, wq.quantized_dtype)
    kw = {} if case["block"] is None else {"block_size": case["block"]}
    if case.get("damp") is not None:
        kw["perc_damp"] = case["damp"]
    data = [((a,), {}) for a in acts]
    passes = []

    def stream():
        passes.append(1)
        yield from data

    mode = torch.no_grad if case.get("mode") != "inference" else torch.inference_mode
    with mode(), ff.strict_quantization(case.get("strict", True)):
        gptq(layer, stream() if case.get("stream") else data, actorder=case["actorder"], **kw)

    # nothing else changes
    for a, c in zip(acts, copies):
        check(torch.equal(a, c), "calibration data changed")
    check(list(net.named_modules()) == mods, "modules changed")
    for k, p in net.named_parameters():
        check(p is params[k][0], "parameter replaced", k)
        if params[k][1] is not None:
            check(torch.equal(p, params[k][1]), "parameter changed", k)
    check(isinstance(layer.bias_quantizer.scale, torch.nn.UninitializedParameter), "bias quantizer changed")
    check((wq.num_bits, wq.granularity, wq.symmetric, wq.allow_one_sided, wq.quantized_dtype) == settings, "quantizer settings")
    check(not list(wq.overrides), "overrides left")
    check(layer.weight.dtype == dtype and tuple(layer.weight.shape) == tuple(case["shape"]), "weight dtype or shape")

    # on the grid
    with torch.no_grad():
        again = wq(layer.weight.detach().reshape(out, n).float()).dequantize().to(dtype).reshape(layer.weight.shape)
    check(torch.equal(again, layer.weight), "weight not on the grid", lambda: f"{layer.weight.tolist()} {again.tolist()}")

    # the column-by-column algorithm; the first scales are those of the original weight
    with ff.estimate_ranges(static := make_layer(case)[0].weight_quantizer, ff.range_setting.smoothed_minmax), torch.no_grad():
        static(w0)
    tile = wq.granularity.tile_size(w0.shape)
    tile = tuple(w0.shape) if tile == "data_shape" else tuple(tile)
    damp = case.get("damp") if case.get("damp") is not None else 0.01
    got = layer.weight.detach().double().reshape(out, n).numpy()
    size = max(1.0, float(w0.abs().max()))
    tied, tol, best = False, size * {"float16": 4e-3, "bfloat16": 2e-2}.get(case.get("dtype"), 2e-4), None
    for order in orders(x, n, case["actorder"]):
        try:
            want, scale, offset = reference(
                w0, x, wq, tile, order, damp, case["bits"], case["sym"], case.get("one_sided", True),
                static.scale.detach().numpy(), None if static.offset is None else static.offset.detach().numpy())
        except Tie:
            tied = True
            continue
        if np.allclose(got, want, atol=tol, rtol=tol) and np.allclose(wq.scale.detach().double().numpy().reshape(scale.shape), scale, atol=1e-4 * size, rtol=1e-4):
            best = want
            break
        miss = (want, scale)
    if best is None:
        check(tied, "differs from the column-by-column algorithm", lambda: f"{got.tolist()} want {miss[0].tolist()} scale {wq.scale.tolist()} want {miss[1].tolist()}")
    if case.get("diagonal") and not tied:
        with torch.no_grad():
            rounded = wq(w0).dequantize().reshape(layer.weight.shape).to(dtype)
        check(torch.allclose(rounded, layer.weight, atol=tol, rtol=tol), "not plain rounding for uncorrelated inputs", lambda: f"{rounded.tolist()} {layer.weight.tolist()}")
    return Stats(transitions=n, outcome=[tied, hash(got.tobytes()) % 1000])


CALIBS = [
    [["I"]],
    [[1, 2]],
    [[1], [2, 3]],
    [[2, 0], [5]],
    [[4]],
    [[0, 4]],
    [[1, 2, 3], ["I"], [5, 5]],
]


def linear_cases(tier):
    shapes = [(1, 3), (2, 4), (4, 2), (3, 3)] if tier == "quick" else [(1, 1), (1, 3), (2, 4), (4, 4), (3, 6), (2, 8), (6, 3), (4, 6)]
    for shape in shapes:
        for gran, _ in refs.granularities(shape, negative=False):
            if gran[0] == "channel" and gran[1] not in ([0], [1], [0, 1]):
                continue
            for sym in (True, False):
                for block in ([1, 2, 3, None] if tier == "quick" else [*range(1, shape[1] + 1), None]):
                    for actorder in (False, True):
                        if actorder and math.factorial(shape[1]) > 800:
                            continue
                        for ci, calib in enumerate(CALIBS):
                            if tier == "quick" and (ci + shape[1]) % 2:
                                continue
                            for w, bits in ((0, 2), (1, 4), (2, 3), (3, 3)) if tier != "quick" else ((ci % 2, 3), (2 + ci % 2, 2)):
                                yield {"layer": "linear", "shape": list(shape), "gran": gran, "sym": sym, "bits": bits, "block": block,
                                       "actorder": actorder, "calib": calib, "w": w, "diagonal": calib in ([["I"]], [[4]], [[0, 4]])}


def option_cases(tier):
    for gran in (["tensor"], ["channel", [0]], ["tile", [1, 2]], ["channel", [1]], ["channel", [0, 1]], ["tile", [2, 1]], ["tile", [2, 2]]):
        for one_sided, dtype, damp, mode, strict, stream in itertools.product((True, False), ("float32", "float64", "float16", "bfloat16"), (0.0001, 0.01, 1.0), ("no_grad", "inference"), (True, False), (True, False)):
            for w, calib in ((2, [[1, 2], [3, "I"]]), (1, [["I", 2]])) if tier == "quick" else itertools.product(range(4), CALIBS):
                if damp == 0.0001 and "I" not in sum(calib, []):
                    continue  # nearly singular
                yield {"layer": "linear", "shape": [2, 4], "gran": gran, "sym": True, "one_sided": one_sided, "bits": 3, "block": 3, "actorder": False,
                       "calib": calib, "w": w, "dtype": dtype, "damp": damp, "mode": mode, "strict": strict, "stream": stream}


def conv_cases(tier):
    geos = [{}, {"stride": [2, 1]}, {"padding": [1, 0]}, {"dilation": [1, 2]}, {"stride": [2, 2], "padding": [1, 1], "dilation": [2, 1]}]
    shapes = [(2, 1, 2, 2), (3, 2, 1, 1), (2, 2, 1, 2)] + ([(1, 1, 2, 3), (2, 3, 2, 1)] if tier != "quick" else [])
    for shape, conv, gran, sym in itertools.product(shapes, geos, (["tensor"], ["channel", [0]]), (True, False)):
        for block, actorder, calib, w in itertools.product((1, 3, None), (False, True), ([[0, 1]], [[0], [1, 2]]), (0, 2) if tier == "quick" else range(4)):
            yield {"layer": "conv", "shape": list(shape), "conv": conv, "gran": gran, "sym": sym, "bits": 3, "block": block, "actorder": actorder, "calib": calib, "w": w, "image": [4, 5]}


# --- refused requests ------------------------------------------------------------------------
def run_refused(case):
    layer = (ff.nn.QuantizedLinear(4, 2) if case["layer"] == "linear" else ff.nn.QuantizedConv2d(1, 2, (2, 2)))
    if case["q"] == "gran":
        layer.weight_quantizer = ff.nn.LinearQuantizer(4, granularity=eval(case["gran"], {"ff": ff}))
    elif case["q"] == "dynamic":
        layer.weight_quantizer = ff.nn.DynamicLinearQuantizer(4)
    before = layer.weight.detach().clone()
    shape = (1, 2, 4) if case["layer"] == "linear" else (1, 1, 3, 3)
    act = torch.ones(shape)
    raised = None
    try:
        with torch.no_grad():
            gptq(layer, [((act,), {})])
    except (ValueError, NotImplementedError) as e:
        raised = type(e).__name__
    check(raised == case["error"], "not refused", raised)
    check(torch.equal(layer.weight, before), "weight changed")
    check(torch.equal(act, torch.ones(shape)), "calibration data changed")
    if case["q"] == "gran":
        check(isinstance(layer.weight_quantizer.scale, torch.nn.UninitializedParameter), "quantizer changed")
    return Stats(transitions=1, outcome=raised)


def refused_cases(tier):
    for layer in ("linear", "conv"):
        for q in ("stub", "dynamic"):
            yield {"layer": layer, "q": q, "error": "ValueError"}
    yield {"layer": "linear", "q": "gran", "gran": "ff.PerBlock(block_dims=(1,), block_sizes=(3,), per_channel_dims=(0,), strict_blocks=False)", "error": "ValueError"}
    for g in ("ff.PerChannel(1)", "ff.PerTile((1, 1, 2, 2))", "ff.PerBlock(block_dims=(2,), block_sizes=(2,), per_channel_dims=(0,))", "ff.PerChannel((0, 1))"):
        yield {"layer": "conv", "q": "gran", "gran": g, "error": "NotImplementedError"}


FAMILIES = [
    Family("linear", linear_cases, run, "shape x every granularity x symmetry x block size x ordering x calibration set"),
    Family("options", option_cases, run, "dtype, one-sided ranges, damping, gradient mode, strictness, single-pass data"),
    Family("conv", conv_cases, run, "convolution geometry x granularity x block size x ordering"),
    Family("refused", refused_cases, run_refused, "unsupported quantizers and granularities leave the layer as it was"),
]
