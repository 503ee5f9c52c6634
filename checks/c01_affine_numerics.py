"""C01: affine quantization lands every element on its own tile's nearest grid point."""

from __future__ import annotations

import itertools
import math

import torch

import fastforward as ff

from fastforward.quantization import affine
from fastforward.quantization.affine import static as affine_static

from mc import refs
from mc.harness import Family, Stats, check

PROP = "C01"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "small scope: <=3 dims, dim sizes <=4, <=24 elements, bitwidths 1..8 (and up to 26 for the dtype family)",
    "scales are powers of two except in the tolerance family, so the reference arithmetic is exact",
    "CPU eager kernels (compiled kernels need a C++ toolchain run through torch.compile and are not explored)",
]

DT = {
    "float32": torch.float32,
    "float64": torch.float64,
    "float16": torch.float16,
    "bfloat16": torch.bfloat16,
    "int8": torch.int8,
    "int16": torch.int16,
    "int32": torch.int32,
    "int64": torch.int64,
    "uint8": torch.uint8,
    "float8_e4m3fn": torch.float8_e4m3fn,
    "float8_e5m2": torch.float8_e5m2,
    None: None,
}

DELTAS = (0.0, 0.25, 0.5, -0.25, -0.5, 0.375)


def _params(ntiles: int, offkind: str):
    scales = [2.0 ** (-(t % 4)) for t in range(ntiles)]
    if offkind == "none":
        offsets = None
    elif offkind == "int":
        offsets = [float((t * 3) % 7 - 3) for t in range(ntiles)]
    else:  # fractional offsets are rounded half to even
        offsets = [float((t * 3) % 7 - 3) + (0.5, 0.25, -0.25)[t % 3] for t in range(ntiles)]
    return scales, offsets


def _element(i: int, scale: float, offset: float | None, bits: int) -> float:
    lo, hi = refs.int_bounds(bits)
    span = hi - lo + 5
    k = lo - 2 + (i * 5 + i // span) % span  # below, inside and above the representable range
    o = refs.round_half_even(offset) if offset is not None else 0.0
    return (k + o + DELTAS[i % len(DELTAS)]) * scale


def _build(shape, tile, bits, offkind):
    ntiles = refs.num_tiles(shape, tile)
    scales, offsets = _params(ntiles, offkind)
    xs, raws, deqs = [], [], []
    for i, idx in enumerate(refs.indices(shape)):
        t = refs.tile_index(idx, shape, tile)
        s, o = scales[t], None if offsets is None else offsets[t]
        x = _element(i, s, o, bits)
        q = refs.quantize(x, s, o, bits)
        xs.append(x)
        raws.append(q)
        deqs.append(refs.dequantize(q, s, o))
    return scales, offsets, xs, raws, deqs


def _layout(data: torch.Tensor, layout: str) -> torch.Tensor:
    """Same values behind different strides."""
    if layout == "contig" or data.ndim == 0:
        return data
    if layout == "transposed":
        return data.permute(*reversed(range(data.ndim))).contiguous().permute(*reversed(range(data.ndim)))
    big = torch.full([2 * s for s in data.shape], 77.0, dtype=data.dtype)
    view = big[tuple(slice(0, None, 2) for _ in data.shape)]
    view.copy_(data)
    return view


def _shapes(tier: str):
    dims = (1, 2, 3, 4)
    yield ()
    for n in (1, 2, 3):
        for shape in itertools.product(dims, repeat=n):
            cap = 24 if tier == "quick" else 48
            if refs.numel(shape) <= cap:
                yield shape
    if tier == "thorough":
        for shape in ((6,), (12,), (2, 6), (6, 4), (2, 2, 2, 2), (1, 2, 3, 2), (2, 1, 2, 4), (3, 2, 2, 2)):
            yield shape


def _entry(entry, data, scale, offset, gran, spec, tile, bits, qdtype):
    if entry == "granularity":
        return affine_static.quantize_per_granularity(data, scale, offset, gran, bits, qdtype)
    if entry == "tile":
        return affine_static.quantize_by_tile(data, scale, offset, torch.Size(tile), bits, qdtype)
    if entry == "context":
        ctx = affine.quantization_context(scale, offset, gran, bits, output_dtype=qdtype)
        return ctx.quantization_fn.quantize(data, ctx.quantization_params)
    if entry == "tensor":
        return affine_static.quantize_per_tensor(data, scale, offset, bits, qdtype)
    if entry == "channel":
        dims = spec[1]
        return affine_static.quantize_per_channel(
            data, scale, offset, dims[0] if len(dims) == 1 else tuple(dims), bits, qdtype
        )
    if entry == "module":
        q = ff.nn.LinearQuantizer(
            num_bits=bits, symmetric=offset is None, allow_one_sided=False, granularity=gran, quantized_dtype=qdtype
        )
        n = scale.numel()
        q.quantization_range = (-torch.ones(n), torch.ones(n))
        with torch.no_grad():
            q.scale.copy_(scale)
            if offset is not None:
                q.offset.copy_(offset)
        return q(data)
    raise AssertionError(entry)


def gen_layout(tier: str):
    for shape in _shapes(tier):
        for gi, (spec, tile) in enumerate(refs.granularities(shape)):
            for bi, bits in enumerate((3,) if tier == "quick" else (1, 2, 3, 4)):
                for offkind in ("none", "int", "frac"):
                    yield {"shape": list(shape), "gran": spec, "bits": bits, "off": offkind}


def run_layout(case):
    shape, spec, bits = tuple(case["shape"]), case["gran"], case["bits"]
    gran = refs.make_granularity(spec)
    tile = gran.tile_size(torch.Size(shape))
    want_tile = dict(refs_tile(shape, spec))["tile"]
    check(
        tuple(shape if tile == "data_shape" else tile) == want_tile,
        "tile-size",
        lambda: f"granularity {gran} on {shape}: {tile} != {want_tile}",
    )
    check(
        gran.parameter_dimensionality(torch.Size(shape)) == refs.num_tiles(shape, want_tile),
        "param-dim",
        lambda: f"{gran} on {shape}",
    )
    scales, offsets, xs, raws, deqs = _build(shape, want_tile, bits, case["off"])
    entries = ["granularity", "context", "tile", "module"]
    if spec[0] == "tensor":
        entries.append("tensor")
    if spec[0] == "channel":
        entries.append("channel")
    n = 0
    base = torch.tensor(xs, dtype=torch.float32).reshape(shape)
    want_raw = torch.tensor(raws, dtype=torch.float32).reshape(shape)
    want_deq = torch.tensor(deqs, dtype=torch.float32).reshape(shape)
    combos = [(e, "contig", None) for e in entries]
    combos += [("granularity", l, q) for l in ("transposed", "strided") for q in (None, "int8")]
    for entry, layout, qd in combos:
        data = _layout(base.clone(), layout)
        scale = torch.tensor(scales, dtype=torch.float32)
        offset = None if offsets is None else torch.tensor(offsets, dtype=torch.float32)
        keep = (data.clone(), scale.clone(), None if offset is None else offset.clone())
        out = _entry(entry, data, scale, offset, gran, spec, want_tile, bits, DT[qd])
        n += 1
        check(isinstance(out, ff.QuantizedTensor), "not-quantized", entry)
        check(out.shape == base.shape, "shape", lambda: f"{entry} {out.shape}")
        raw = out.raw_data
        check(raw.dtype == (DT[qd] or data.dtype), "raw-dtype", lambda: f"{entry} {raw.dtype}")
        check(
            torch.equal(raw.to(torch.float32), want_raw),
            "raw-value",
            lambda: f"{entry}/{layout}: got {raw.tolist()} want {want_raw.tolist()} for {base.tolist()}",
        )
        deq = out.dequantize()
        check(deq.dtype == data.dtype, "deq-dtype", lambda: f"{entry} {deq.dtype}")
        check(
            torch.equal(deq, want_deq),
            "deq-value",
            lambda: f"{entry}/{layout}: got {deq.tolist()} want {want_deq.tolist()}",
        )
        again = _entry(entry, deq.detach(), scale, offset, gran, spec, want_tile, bits, DT[qd])
        check(torch.equal(again.raw_data, raw), "not-idempotent", entry)
        check(torch.equal(data, keep[0]) and torch.equal(scale, keep[1]), "mutated-input", entry)
        check(offset is None or torch.equal(offset, keep[2]), "mutated-offset", entry)
    return Stats(states=len(combos), transitions=2 * n, traces=n, outcome=[case["bits"], case["off"], raws])


def refs_tile(shape, spec):
    n = len(shape)
    tile = list(shape)
    if spec[0] == "channel":
        for d in spec[1]:
            tile[d] = 1
    elif spec[0] == "tile":
        tile = list(spec[1])
    elif spec[0] == "block":
        for d in spec[3]:
            tile[d] = 1
        for d, s in zip(spec[1], spec[2]):
            tile[d] = s
    return {"tile": tuple(tile)}.items()


# --- scalar sweep: every grid point, every midpoint, both clamps, every bitwidth -----------------


def gen_scalar(tier: str):
    offs = [None, -3.0, 0.0, 2.0, 0.5, 1.5, -0.5, 2.25]
    for bits in range(1, 9 if tier == "quick" else 13):
        for off in offs:
            for scale in (1.0, 0.25, 8.0):
                for dtype in ("float32", "float64", "float16", "bfloat16"):
                    if dtype == "bfloat16" and bits > 4:
                        continue
                    if dtype == "float16" and bits > 8:
                        continue
                    yield {"bits": bits, "off": off, "scale": scale, "dtype": dtype}


def run_scalar(case):
    bits, off, scale, dtype = case["bits"], case["off"], case["scale"], DT[case["dtype"]]
    lo, hi = refs.int_bounds(bits)
    o = refs.round_half_even(off) if off is not None else 0.0
    xs = [(k + o + d) * scale for k in range(lo - 2, hi + 3) for d in (0.0, 0.25, 0.5, 0.75)]
    xs += [0.0, -0.0, 1e4, -1e4, math.inf, -math.inf]
    data = torch.tensor(xs, dtype=dtype)
    xs = data.to(torch.float64).tolist()
    raws = []
    for x in xs:
        if math.isinf(x):
            raws.append(float(hi if x > 0 else lo))
        else:
            raws.append(refs.quantize(x, scale, off, bits))
    states = 0
    for style in ("float", "tensor0", "tensor1"):
        sc: object = scale
        of: object = off
        if style == "tensor0":
            sc = torch.tensor(scale)
            of = None if off is None else torch.tensor(off)
        if style == "tensor1":
            sc = torch.tensor([scale])
            of = None if off is None else torch.tensor([off])
        out = affine_static.quantize_per_tensor(data, sc, of, bits)
        got = out.raw_data.to(torch.float64).tolist()
        check(got == raws, "scalar-raw", lambda: f"{style}: {[(x, g, w) for x, g, w in zip(xs, got, raws) if g != w][:5]}")
        want = torch.tensor([refs.dequantize(q, scale, off) for q in raws], dtype=torch.float64).to(dtype)
        deq = out.dequantize()
        check(deq.dtype == dtype, "scalar-deq-dtype", str(deq.dtype))
        check(torch.equal(deq, want), "scalar-deq", lambda: f"{style}: {deq.tolist()} != {want.tolist()}")
        # inside the representable range the error is at most half a step
        for x, d in zip(xs, deq.to(torch.float64).tolist()):
            if (lo + o) * scale <= x <= (hi + o) * scale:
                check(abs(x - d) <= scale / 2, "scalar-error", f"{x} -> {d}")
        states += len(xs)
    return Stats(states=states, transitions=states, traces=3, outcome=[bits, off, scale])


# --- non power of two scales: nearest grid point up to floating point slack ------------------------


def gen_tol(tier: str):
    for bits in (2, 4, 8):
        for scale in (0.1, 0.3, 1 / 3, 7e-3, 1e-6, 123.456):
            for off in (None, 5.0, -7.0, 1e2):
                for dtype in ("float32", "float64"):
                    yield {"bits": bits, "scale": scale, "off": off, "dtype": dtype}


def run_tol(case):
    bits, scale, off, dtype = case["bits"], case["scale"], case["off"], DT[case["dtype"]]
    lo, hi = refs.int_bounds(bits)
    o = off or 0.0
    fr = [i / 10 for i in range(10)]
    xs = [(k + f + o) * scale for k in range(lo - 2, hi + 3) for f in fr]
    data = torch.tensor(xs, dtype=dtype)
    out = affine_static.quantize_per_tensor(data, scale, off, bits)
    deq = out.dequantize().to(torch.float64).tolist()
    raw = out.raw_data.tolist()
    for x, q, d in zip(data.to(torch.float64).tolist(), raw, deq):
        check(lo <= q <= hi and q == int(q), "tol-range", f"{q}")
        pos = x / scale - o
        best = min(max(pos, lo), hi)
        check(abs(q - best) <= 0.5 + 1e-3, "tol-nearest", f"x={x} q={q} pos={pos}")
        check(abs(d - (q + o) * scale) <= 1e-5 * max(1.0, abs(q + o)) * scale, "tol-deq", f"{d} {q}")
    return Stats(states=len(xs), transitions=len(xs), outcome=[bits, scale, off])


# --- storage dtypes: either refused or loss-free --------------------------------------------------


def gen_dtype(tier: str):
    for name in ("int8", "int16", "int32", "int64", "uint8", "float16", "bfloat16", "float32", "float64",
                 "float8_e4m3fn", "float8_e5m2"):
        for bits in range(1, 27):
            for how in ("static", "module", "dynamic"):
                yield {"dtype": name, "bits": bits, "how": how}


def run_dtype(case):
    dtype, bits = DT[case["dtype"]], case["bits"]
    lo, hi = refs.int_bounds(bits)
    ks = sorted({lo, lo + 1, lo + 2, lo // 2, lo // 2 + 1, -1, 0, 1, 2, hi // 2, hi // 2 + 1, hi - 2, hi - 1, hi})
    ks = [k for k in ks if lo <= k <= hi]
    data = torch.tensor([float(k) for k in ks], dtype=torch.float64)
    try:
        if case["how"] == "static":
            out = affine_static.quantize_per_tensor(data, 1.0, None, bits, dtype)
        elif case["how"] == "module":
            q = ff.nn.LinearQuantizer(
                num_bits=bits, symmetric=True, allow_one_sided=False, quantized_dtype=dtype, param_dtype=torch.float64
            )
            q.quantization_range = (-1.0, 1.0)
            with torch.no_grad():
                q.scale.fill_(1.0)
            out = q(data)
        else:
            out = affine.dynamic.quantize_per_tensor(data, num_bits=bits, symmetric=False, output_dtype=dtype)
    except RuntimeError as e:
        # Refusing is always allowed for a type that cannot hold the range; a type that can must be accepted.
        info = torch.iinfo(dtype) if not dtype.is_floating_point else None
        fits = info is not None and info.min <= lo and hi <= info.max
        if info is None:
            t = torch.tensor([float(lo), float(hi)], dtype=torch.float64)
            fits = torch.equal(t.to(dtype).to(torch.float64), t) and 1.0 / torch.finfo(dtype).eps >= -lo / 2
        check(not fits, "dtype-refused", f"{case}: {e}")
        return Stats(outcome="refused")
    raw = out.raw_data.to(torch.float64).tolist()
    if case["how"] == "dynamic":
        # the extreme integers must be hit and all raw values be inside the range
        check(all(lo <= r <= hi for r in raw), "dtype-range", f"{raw} outside [{lo},{hi}]")
        if bits <= 20:
            check(raw[0] == lo and raw[-1] == hi, "dtype-ends", f"{raw}")
            check(raw == sorted(raw), "dtype-order", f"{raw}")
            check(raw == [float(k) for k in ks], "dtype-loss", f"{raw} != {ks}")
    else:
        check(raw == [float(k) for k in ks], "dtype-loss", f"{raw} != {ks}")
        check(out.dequantize().to(torch.float64).tolist() == [float(k) for k in ks], "dtype-deq", "")
    return Stats(states=len(ks), outcome="stored")


# --- export mode computes the same real values -----------------------------------------------------


def gen_export(tier: str):
    for shape in ((4,), (2, 3), (2, 2, 2), (4, 6)):
        for spec, tile in refs.granularities(shape, negative=False):
            for bits in (2, 4):
                for offkind in ("none", "int"):
                    for qd in (None, "int8", "int32", "float16"):
                        yield {"shape": list(shape), "gran": spec, "bits": bits, "off": offkind, "qdtype": qd}


def run_export(case):
    shape, spec, bits = tuple(case["shape"]), case["gran"], case["bits"]
    tile = dict(refs_tile(shape, spec))["tile"]
    scales, offsets, xs, raws, deqs = _build(shape, tile, bits, case["off"])
    gran = refs.make_granularity(spec)
    ctx = affine.quantization_context(
        torch.tensor(scales), None if offsets is None else torch.tensor(offsets), gran, bits, output_dtype=DT[case["qdtype"]]
    )
    data = torch.tensor(xs).reshape(shape)
    with ff.export_mode(True):
        out = ctx.quantization_fn.quantize(data, ctx.quantization_params)
    check(not isinstance(out, ff.QuantizedTensor), "export-type", "")
    check(out.dtype == data.dtype, "export-dtype", str(out.dtype))
    check(torch.equal(out, torch.tensor(deqs).reshape(shape)), "export-value", lambda: f"{out.tolist()} {deqs}")
    return Stats(outcome=deqs)


# --- per block, and the default arguments of all entry points -----------------------------------


def gen_blocks(tier):
    dims = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 4)
    for n in (2, 3):
        for shape in itertools.product(dims, repeat=n):
            if refs.numel(shape) > 32:
                continue
            for channel, block in itertools.product(range(-n, n), repeat=2):
                if channel % n != block % n:
                    yield {"shape": list(shape), "channel": channel, "block": block}


def run_blocks(case):
    shape, channel, block = tuple(case["shape"]), case["channel"], case["block"]
    n = 0
    for size in range(1, shape[block] + 2):
        tile = list(shape)
        tile[channel] = 1
        tile[block] = size
        if shape[block] % size:
            args = torch.zeros(shape), torch.ones(2), None, channel, block, size
            for fn in (affine.quantize_per_block, affine_static.quantize_per_block):
                try:
                    fn(*args)
                except Exception:  # noqa: BLE001
                    n += 1
                else:
                    check(False, "accepted", f"blocks of {size} in dimension {block} of {shape}")
            continue
        for bits, offkind in itertools.product((None, 3), ("none", "int", "frac")):
            scales, offsets, xs, raws, deqs = _build(shape, tuple(tile), bits or 8, offkind)
            x = torch.tensor(xs).reshape(shape)
            want_raw, want_deq = torch.tensor(raws, dtype=torch.float32).reshape(shape), torch.tensor(deqs).reshape(shape)
            scale, offset = torch.tensor(scales), None if offsets is None else torch.tensor(offsets)
            by_name = {} if bits is None else {"num_bits": bits}
            by_position = () if bits is None else (bits,)
            gran = ff.PerTile(tuple(tile))
            outs = {
                "block": lambda: affine.quantize_per_block(x, scale, offset, channel, block, size, *by_position),
                "block-names": lambda: affine.quantize_per_block(
                    input=x, block_size=size, block_axis=block, channel_axis=channel, offset=offset, scale=scale, **by_name),
                "block-dtype": lambda: affine.quantize_per_block(x, scale, offset, channel, block, size, output_dtype=torch.int8, **by_name),
                "tile": lambda: affine.quantize_by_tile(x, scale, offset, torch.Size(tile), *by_position),
                "granularity": lambda: affine.quantize_per_granularity(x, scale, offset, gran, *by_position),
                "context": lambda: (lambda c: c.quantization_fn.quantize(x, c.quantization_params))(
                    affine.quantization_context(scale, offset, gran, **by_name)),
            }
            if size == shape[block]:
                outs["channel"] = lambda: affine.quantize_per_channel(x, scale, offset, channel, *by_position)
                if shape[channel] == 1:
                    outs["tensor"] = lambda: affine.quantize_per_tensor(x, scale, offset, *by_position)
            for name, fn in outs.items():
                out = fn()
                n += 1
                what = f"{name} {shape} channel {channel} block {block} of {size}, {bits} bits"
                check(out.raw_data.dtype == (torch.int8 if name == "block-dtype" else x.dtype), "raw-dtype", what)
                check(torch.equal(out.raw_data.float(), want_raw), "raw-value", lambda: f"{what}: {out.raw_data.tolist()} want {raws}")
                check(torch.equal(out.dequantize(), want_deq), "deq-value", what)
    return Stats(states=n, transitions=n, traces=n, outcome="blocks")


FAMILIES = [
    Family("layout", gen_layout, run_layout, "all shapes x granularities x bits x offset kinds x entry points x memory layouts"),
    Family("scalar", gen_scalar, run_scalar, "every grid point, midpoint and clamp of every bitwidth x dtype x offset"),
    Family("tolerance", gen_tol, run_tol, "non power-of-two scales, whole grid in tenths of a step"),
    Family("blocks", gen_blocks, run_blocks, "shapes x channel and block axes (also negative) x block sizes x bits (also the default) x offset kinds x entry points"),
    Family("dtype", gen_dtype, run_dtype, "storage dtype x bitwidth: refused or loss-free"),
    Family("export", gen_export, run_export, "export mode fake-quantization agrees with quantize+dequantize"),
]
