"""C04: parameters derived from a range cover that range exactly and finitely."""

from __future__ import annotations

import itertools

import torch

import fastforward as ff

from fastforward.quantization import affine
from fastforward.quantization.affine import dynamic as affine_dynamic
from fastforward.quantization.affine import static as affine_static

from mc import refs
from mc.harness import Family, Stats, check

PROP = "C04"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of ranges, per-tile range combinations, range-setting histories and small tensors on the real code against interval arithmetic"
ASSUMPTIONS = [
    "ranges and data over the listed value grid; parameters stored in float32 or float64, bitwidths 2..16",
    "half a step is meant up to float32 rounding of the value itself (2^-21 relative)",
]

VALUES = [-300.0, -3.0, -1.0, -0.7, -1e-3, 0.0, 1e-6, 0.1, 1.0, 1.3, 5.0, 1000.0]
EPS = torch.finfo(torch.float32).eps


def ranges(values=VALUES):
    return [(a, b) for a in values for b in values if a <= b]


def one_sided(los, allow):
    return allow and min(los) >= 0


def widest_scale(lo, hi, bits, symmetric, osided):
    """Largest step that is not wasteful for this range."""
    if symmetric and not osided:
        ilo, ihi = refs.int_bounds(bits)
        return max(abs(lo) / -ilo, abs(hi) / ihi, EPS if lo == hi == 0 else 0.0)
    if symmetric:
        lo = 0.0
    return max((hi - lo) / (2**bits - 1), EPS)


def probes(lo, hi):
    ps = [lo + (hi - lo) * i / 16 for i in range(17)]
    if lo < 0 < hi:
        ps += [0.0, lo / 3, hi / 3]
    return sorted({min(max(p, lo), hi) for p in torch.tensor(ps).tolist()})


def check_params(where, lo, hi, bits, symmetric, osided, scale, offset):
    """scale/offset (floats) must be finite, tight and reproduce [lo, hi]."""
    check(scale > 0 and scale < float("inf") and (offset is None or abs(offset) < float("inf")), "unusable-parameters",
          lambda: f"{where}: range ({lo}, {hi}) -> scale {scale} offset {offset}")
    want = widest_scale(lo, hi, bits, symmetric, osided)
    check(scale <= want * (1 + 1e-6), "too-wide", lambda: f"{where}: range ({lo}, {hi}) bits {bits}: scale {scale} > {want}")
    if symmetric and not osided:
        check(offset is None or offset == 0.0, "symmetric-offset", lambda: f"{where}: offset {offset}")
    if symmetric and osided:
        check(offset == 2 ** (bits - 1), "one-sided-offset", lambda: f"{where}: offset {offset}")
    check(min(want, scale) >= 0.999 * want or symmetric, "too-narrow", lambda: f"{where}: ({lo},{hi}) scale {scale} want {want}")


def check_values(where, quant, lo, hi, tile_scale):
    xs = probes(lo, hi)
    got = quant(torch.tensor(xs)).dequantize().tolist()
    for x, y in zip(xs, got):
        tol = tile_scale * 0.5 * (1 + 1e-5) + abs(x) * 2.0**-21
        check(abs(x - y) <= tol, "not-reproduced", lambda: f"{where}: {x} -> {y}, half step {tile_scale / 2} range ({lo}, {hi})")


MODES = [(True, False), (True, True), (False, False), (False, True)]


def gen_range(tier):
    for bits in (2, 3, 4, 8) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8, 10, 12, 16):
        for sym, allow in MODES:
            yield {"bits": bits, "sym": sym, "allow": allow}


def run_range(case):
    bits, sym, allow = case["bits"], case["sym"], case["allow"]
    n = 0
    seen = set()
    for lo, hi in ranges():
        osided = one_sided([lo], allow)
        s, o = affine.parameters_for_range(torch.tensor([lo]), torch.tensor([hi]), bits, sym, allow)
        scale, offset = s.item(), None if o is None else o.item()
        check_params("parameters_for_range", lo, hi, bits, sym, osided, scale, offset)
        check_values("functional", lambda x: affine_static.quantize_per_tensor(x, s, o, bits), lo, hi, scale)
        for dt in (None, torch.float64):
            q = ff.nn.LinearQuantizer(bits, symmetric=sym, allow_one_sided=allow, param_dtype=dt)
            q.quantization_range = (lo, hi)
            check(q.symmetric == sym and not q.has_uninitialized_params, "mode", "")
            qo = None if q.offset is None else q.offset.item()
            check_params("LinearQuantizer", lo, hi, bits, sym, osided, q.scale.item(), qo)
            check_values("LinearQuantizer", q, lo, hi, q.scale.item())
            rlo, rhi = (t.item() for t in q.quantization_range)
            tol = 1e-5 * max(abs(lo), abs(hi)) + 2**bits * EPS * 1.01 * (hi - lo < 2**bits * EPS)
            hlo, hhi = (0.0, hi) if sym and osided else (lo, hi)
            if sym and not osided:
                # zero-centred grids can only represent lo:hi = -2^(b-1) : 2^(b-1)-1; otherwise they must cover
                check(rlo <= min(lo, 0) + tol and rhi >= hi - tol, "reported-range", lambda: f"({lo},{hi}) -> ({rlo},{rhi})")
                ilo, ihi = refs.int_bounds(bits)
                if lo < 0 < hi and abs(lo / ilo - hi / ihi) < 1e-7 * abs(lo):
                    check(abs(rlo - lo) <= tol and abs(rhi - hi) <= tol, "reported-range-exact", lambda: f"({lo},{hi}) -> ({rlo},{rhi})")
            else:
                check(abs(rlo - hlo) <= tol and abs(rhi - hhi) <= tol, "reported-range", lambda: f"({lo},{hi}) -> ({rlo},{rhi})")
            # setting the reported range again changes nothing
            before = (q.scale.clone(), None if q.offset is None else q.offset.clone())
            q.quantization_range = q.quantization_range
            check(torch.allclose(q.scale, before[0], rtol=1e-4, atol=0) or hi - lo < 2**bits * EPS, "range-roundtrip",
                  lambda: f"({lo},{hi}) scale {before[0]} -> {q.scale}")
            op = q.operator_for_range(torch.tensor([lo]), torch.tensor([hi]), torch.Size([3]))
            check_values("operator_for_range", op, lo, hi, scale)
            n += 1
        if allow and sym:
            seen.add((osided, scale > 0))
    for dt in (torch.float16, torch.bfloat16, torch.float64):
        # ranges given in other floating types; the values below are those after rounding to the type
        for lo, hi in ranges(sorted({*torch.tensor([*VALUES, -60000.0, -41000.0, 41000.0, 60000.0]).to(dt).float().tolist()})):
            osided = one_sided([lo], allow)
            s, o = affine.parameters_for_range(torch.tensor([lo], dtype=dt), torch.tensor([hi], dtype=dt), bits, sym, allow)
            scale, offset = s.item(), None if o is None else o.item()
            check_params(f"parameters_for_range {dt}", lo, hi, bits, sym, osided, scale, offset)
            check_values(f"range in {dt}", lambda x: affine_static.quantize_per_tensor(x, s, o, bits), lo, hi, scale)
            q = ff.nn.LinearQuantizer(bits, symmetric=sym, allow_one_sided=allow)
            q.quantization_range = (torch.tensor([lo], dtype=dt), torch.tensor([hi], dtype=dt))
            check_params(f"LinearQuantizer {dt}", lo, hi, bits, sym, osided, q.scale.item(), None if q.offset is None else q.offset.item())
            n += 1
    for m in range(1, 2 ** (bits - 1) if bits < 6 else 20):
        # ranges exactly representable by a symmetric grid
        s0 = m / 8
        ilo, ihi = refs.int_bounds(bits)
        q = ff.nn.LinearQuantizer(bits, symmetric=True, allow_one_sided=allow)
        q.quantization_range = (ilo * s0, ihi * s0)
        rlo, rhi = (t.item() for t in q.quantization_range)
        check(abs(rlo - ilo * s0) <= 1e-5 * abs(rlo) and abs(rhi - ihi * s0) <= 1e-5 * abs(rlo), "reported-range-exact",
              lambda: f"({ilo*s0},{ihi*s0}) -> ({rlo},{rhi})")
    return Stats(states=n, transitions=n * 4, traces=n, outcome=len(seen))


TILE_RANGES = [(-3.0, 5.0), (0.0, 0.0), (0.0, 1.3), (0.5, 2.0), (-1.0, -0.5), (2.0, 2.0), (-2.0, 0.0), (-1e-3, 1000.0)]


def gen_tiles(tier):
    for n in (2, 3):
        for combo in itertools.product(range(len(TILE_RANGES)), repeat=n):
            if n == 3 and tier == "quick" and (combo[0] > combo[1]):
                continue
            yield {"combo": list(combo)}


def run_tiles(case):
    rs = [TILE_RANGES[i] for i in case["combo"]]
    los, his = torch.tensor([r[0] for r in rs]), torch.tensor([r[1] for r in rs])
    out = []
    for bits in (2, 4, 8):
        for sym, allow in MODES:
            osided = one_sided([r[0] for r in rs], allow)
            q = ff.nn.LinearQuantizer(bits, symmetric=sym, allow_one_sided=allow, granularity=ff.PerChannel(0))
            q.quantization_range = (los, his)
            cols = [probes(*r) for r in rs]
            width = max(map(len, cols))
            x = torch.tensor([c + [c[-1]] * (width - len(c)) for c in cols])
            y = q(x).dequantize()
            for t, (lo, hi) in enumerate(rs):
                off = None if q.offset is None else q.offset[t].item()
                check_params(f"tile {t}", lo, hi, bits, sym, osided, q.scale[t].item(), off)
                err = (x[t] - y[t]).abs()
                tol = q.scale[t].item() * 0.500005 + x[t].abs() * 2.0**-21
                check((err <= tol).all().item(), "not-reproduced", lambda: f"tile {t}: {x[t]} -> {y[t]} scale {q.scale[t]} ranges {rs}")
            out.append(osided)
    return Stats(states=12, transitions=12, outcome=out)


HIST_RANGES = [(-1.0, 1.0), (0.0, 2.0), (0.5, 1.0), (-3.0, -1.0), (0.0, 0.0)]


def gen_history(tier):
    ops = [["set", i] for i in range(len(HIST_RANGES))] + [["reset"]]
    for sym, allow in MODES:
        for shape in (1, 2):
            for depth in (2, 3) if tier == "quick" else (2, 3, 4):
                for h in itertools.product(ops, repeat=depth):
                    if h[-1][0] == "set":
                        yield {"sym": sym, "allow": allow, "tiles": shape, "ops": [list(o) for o in h]}


def run_history(case):
    sym, allow, n = case["sym"], case["allow"], case["tiles"]

    def new():
        return ff.nn.LinearQuantizer(4, symmetric=sym, allow_one_sided=allow, granularity=ff.PerChannel(0) if n > 1 else ff.PerTensor())

    def put(q, i):
        lo, hi = HIST_RANGES[i]
        q.quantization_range = (torch.full((n,), lo), torch.full((n,), hi))

    q = new()
    for op in case["ops"]:
        if op[0] == "set":
            put(q, op[1])
            check(not q.has_uninitialized_params, "still-uninitialized", "")
        else:
            q.reset_parameters()
            check(q.has_uninitialized_params and q.quantization_range == (None, None), "reset", "")
    fresh = new()
    put(fresh, case["ops"][-1][1])
    check(torch.equal(q.scale, fresh.scale), "history-scale", lambda: f"{q.scale} want {fresh.scale}")
    check((q.offset is None) == (fresh.offset is None) and (q.offset is None or torch.equal(q.offset, fresh.offset)), "history-offset",
          lambda: f"{q.offset} want {fresh.offset}")
    check(q.symmetric == sym, "history-mode", "")
    return Stats(states=len(case["ops"]), transitions=len(case["ops"]), outcome=[q.scale.tolist()])


ALPHABET = [-2.0, 0.0, 0.7, 3.0]


def gen_dynamic(tier):
    shapes = [(1,), (3,), (2, 2), (4,)] if tier == "quick" else [(1,), (3,), (4,), (2, 2), (5,), (1, 4), (2, 1, 2)]
    for shape in shapes:
        for spec, tile in refs.granularities(shape):
            for first in range(len(ALPHABET)):
                yield {"shape": list(shape), "gran": spec, "tile": list(tile), "first": first}


def extra_entry_points(x, gran, tile, bits, sym, allow, s, o, what):
    """User-supplied inference functions, quantization contexts, data types, and storage types."""
    fn = lambda params, data: (s, o)
    m = ff.nn.DynamicLinearQuantizer(bits, granularity=gran, parameter_inference_fn=fn)
    ref = affine_static.quantize_per_granularity(x, s, o, gran, bits)
    check(torch.equal(m(x).raw_data, ref.raw_data) and torch.equal(m(x).dequantize(), ref.dequantize()), "inference-function", what)
    ctx = affine_dynamic.quantization_context(gran, bits, symmetric=sym, allow_one_sided=allow, quantized_dtype=torch.int8)
    q = ctx.quantization_fn.quantize(x, ctx.quantization_params)
    check(q.raw_data.dtype == torch.int8 and torch.equal(q.raw_data.float(), ref.raw_data), "dynamic-storage", lambda: what() + f" {q.raw_data}")
    check(torch.equal(q.dequantize(), ref.dequantize()), "dynamic-storage-values", what)
    if not isinstance(gran, ff.PerTensor):
        q = affine_dynamic.quantize_by_tile(x, torch.Size(tile), bits, symmetric=sym, allow_one_sided=allow)
        check(torch.equal(q.raw_data, ref.raw_data), "dynamic-by-tile", what)
    for dt in (torch.float64, torch.bfloat16, torch.float16):
        xs = x.to(dt)
        q = affine_dynamic.quantize_per_granularity(xs, gran, bits, symmetric=sym, allow_one_sided=allow)
        check(q.dequantize().dtype == dt, "dynamic-dtype", lambda: what() + f" {q.dequantize().dtype}")
        step = q.quant_args().scale.max().item()
        err = (q.dequantize().double() - xs.double()).abs().max().item()
        check(err <= step * 0.50001 + 3 * torch.finfo(dt).eps + 1e-6, "dynamic-dtype-error", lambda: what() + f" {dt} error {err} step {step}")
        if bits > 3:
            # values whose spread does not fit the type
            wide = (x * 21000.0).clamp(-41000, 63000).to(dt)
            q = affine_dynamic.quantize_per_granularity(wide, gran, bits, symmetric=sym, allow_one_sided=allow)
            step = q.quant_args().scale.max().item()
            err = (q.dequantize().double() - wide.double()).abs().max().item()
            check(err <= step * 0.5001 + 63000 * torch.finfo(dt).eps, "dynamic-wide", lambda: what() + f" {wide}: error {err} step {step}")


def run_dynamic(case):
    shape, tile = tuple(case["shape"]), tuple(case["tile"])
    gran = refs.make_granularity(case["gran"])
    nt = refs.num_tiles(shape, tile)
    idx = [refs.tile_index(i, shape, tile) for i in refs.indices(shape)]
    n = 0
    for rest in itertools.product(ALPHABET, repeat=refs.numel(shape) - 1):
        data = [ALPHABET[case["first"]], *rest]
        x = torch.tensor(data).reshape(shape)
        los = [min(d for d, t in zip(data, idx) if t == k) for k in range(nt)]
        his = [max(d for d, t in zip(data, idx) if t == k) for k in range(nt)]
        bits = 3 if n % 2 else 8
        for sym, allow in MODES:
            n += 1
            q = affine_dynamic.quantize_per_granularity(x, gran, bits, symmetric=sym, allow_one_sided=allow)
            s, o = affine.parameters_for_range(torch.tensor(los), torch.tensor(his), bits, sym, allow)
            ref = affine_static.quantize_per_granularity(x, s, o, gran, bits)
            what = lambda: f"{data} sym={sym} allow={allow} bits={bits}: {q.dequantize()} raw {q.raw_data}"
            check(torch.isfinite(q.dequantize()).all().item() and torch.isfinite(q.raw_data).all().item(), "not-finite", what)
            check(torch.equal(q.raw_data, ref.raw_data), "dynamic-integers", lambda: what() + f" static {ref.raw_data}")
            check(torch.equal(q.dequantize(), ref.dequantize()), "dynamic-values", lambda: what() + f" static {ref.dequantize()}")
            m = ff.nn.DynamicLinearQuantizer(bits, granularity=gran, symmetric=sym, allow_one_sided=allow)
            qm = m(x)
            check(torch.equal(qm.raw_data, q.raw_data) and torch.equal(qm.dequantize(), q.dequantize()), "module", what)
            if n % 4 == 0:
                extra_entry_points(x, gran, tile, bits, sym, allow, s, o, what)
            osided = one_sided(los, allow)
            for v, k, y in zip(data, idx, q.dequantize().flatten().tolist()):
                step = widest_scale(los[k], his[k], bits, sym, osided)
                check(abs(v - y) <= step * 0.50001 + abs(v) * 2.0**-21, "dynamic-error", lambda: what() + f" {v}->{y} step {step}")
    return Stats(states=n, transitions=2 * n, traces=n, outcome=nt)


# --- entry points of dynamic quantization, and their defaults --------------------------------------


def gen_entries(tier):
    n_values = 3 if tier == "thorough" else 2
    for shape in [(4,), (2, 4), (4, 2), (2, 2, 2), (1, 3), (3, 2, 1)]:
        for kind in range(n_values):
            yield {"shape": list(shape), "kind": kind}


def run_entries(case):
    shape = tuple(case["shape"])
    # Mixed signs, positive only, and tiles of either kind
    x = torch.tensor([(((i * 7) % 11) - (5.0, -1.0, 4.0 if i % 2 else -1.0)[case["kind"]]) / 4 for i in range(refs.numel(shape))]).reshape(shape)
    defaults = {"num_bits": 8, "symmetric": False, "allow_one_sided": True}
    options = [{}] + [{k: v} for k, v in (("num_bits", 3), ("symmetric", True), ("allow_one_sided", False))]
    options += [{"symmetric": True, "allow_one_sided": False}, {"num_bits": 4, "symmetric": True, "allow_one_sided": True}]
    n = 0
    dims = len(shape)
    for given in options:
        full = {**defaults, **given}
        bits, positional = full["num_bits"], tuple(full.values())

        def want(tile):
            # Range of every tile, then the static entry point
            idx = [refs.tile_index(i, shape, tile) for i in refs.indices(shape)]
            values = x.flatten().tolist()
            tiles = range(refs.num_tiles(shape, tile))
            los = torch.tensor([min(v for v, t in zip(values, idx) if t == k) for k in tiles])
            his = torch.tensor([max(v for v, t in zip(values, idx) if t == k) for k in tiles])
            scale, offset = affine.parameters_for_range(los, his, bits, symmetric=full["symmetric"], allow_one_sided=full["allow_one_sided"])
            return affine_static.quantize_by_tile(x, scale, offset, torch.Size(tile), bits)

        def same(name, fn, tile):
            nonlocal n
            n += 1
            got, ref = fn(), want(tile)
            what = lambda: f"{name} {shape} {given} {x.tolist()}: {got.dequantize().tolist()}, expected {ref.dequantize().tolist()}"
            check(torch.equal(got.raw_data.float(), ref.raw_data), "entry-integers", what)
            check(torch.equal(got.dequantize(), ref.dequantize()), "entry-values", what)

        d = affine_dynamic
        same("per tensor", lambda: d.quantize_per_tensor(x, **given), shape)
        same("per tensor, by position", lambda: d.quantize_per_tensor(x, *positional), shape)
        same("per tensor, integers", lambda: d.quantize_per_tensor(x, output_dtype=torch.int8, **given), shape)
        module = ff.nn.DynamicLinearQuantizer(bits, **{k: v for k, v in given.items() if k != "num_bits"})
        same("module", lambda: module(x), shape)
        for axis in range(-dims, dims):
            tile = list(shape)
            tile[axis] = 1
            gran = ff.PerChannel(axis)
            same("per channel", lambda: d.quantize_per_channel(x, axis, **given), tuple(tile))
            same("per channel, by position", lambda: d.quantize_per_channel(x, axis, *positional), tuple(tile))
            same("per channel, integers", lambda: d.quantize_per_channel(x, axis, output_dtype=torch.int8, **given), tuple(tile))
            same("granularity", lambda: d.quantize_per_granularity(x, gran, **given), tuple(tile))
            same("tile", lambda: d.quantize_by_tile(x, torch.Size(tile), **given), tuple(tile))
            same("tile, by position", lambda: d.quantize_by_tile(x, torch.Size(tile), *positional), tuple(tile))
            kw = {"num_bits": bits, **given}
            context = d.quantization_context(gran, **kw)
            same("context", lambda: context.quantization_fn.quantize(x, context.quantization_params), tuple(tile))
            params = affine.DynamicAffineQuantParams(granularity=gran, **kw)
            same("parameters", lambda: affine.AffineQuantizationFunction.quantize(x, params), tuple(tile))
            for block in range(-dims, dims):
                if block % dims == axis % dims:
                    continue
                for size in range(1, shape[block] + 1):
                    if shape[block] % size:
                        continue
                    small = list(tile)
                    small[block] = size
                    same("per block", lambda: d.quantize_per_block(x, axis, block, size, **given), tuple(small))
                    same("per block, by position", lambda: d.quantize_per_block(x, axis, block, size, *positional), tuple(small))
                    same("per block, integers", lambda: d.quantize_per_block(x, axis, block, size, output_dtype=torch.int8, **given), tuple(small))
    # Static quantizers: symmetric, one sided if possible, over the whole tensor
    for bits in (3, 8):
        a = ff.nn.LinearQuantizer(bits)
        b = ff.nn.LinearQuantizer(bits, symmetric=True, allow_one_sided=True, granularity=ff.PerTensor())
        for q in (a, b):
            q.quantization_range = (x.min(), x.max())
        check(torch.equal(a(x).dequantize(), b(x).dequantize()), "static-default", lambda: f"{bits} {x.tolist()}")
        n += 1
    return Stats(states=n, transitions=n, traces=n, outcome="entries")


FAMILIES = [
    Family("range", gen_range, run_range, "all ordered pairs of the value grid x bits x modes x entry points"),
    Family("tiles", gen_tiles, run_tiles, "all pairs and triples of tile ranges x bits x modes"),
    Family("history", gen_history, run_history, "all sequences of range settings and resets up to the depth"),
    Family("entries", gen_entries, run_entries, "all entry points of dynamic quantization, with options by name, by position and by default, over all axes and blocks"),
    Family("dynamic", gen_dynamic, run_dynamic, "all tensors over the alphabet x granularities x modes"),
]
