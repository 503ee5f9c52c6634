"""C02: a granularity partitions every tensor into tiles, reversibly and unambiguously."""

from __future__ import annotations

import itertools

import torch

import fastforward as ff

from fastforward.quantization import granularity as granularities
from fastforward.quantization import tiled_tensor

from mc import refs
from mc.harness import Family, Stats, check

PROP = "C02"
LEVEL = "model_checking"
ASSUMPTIONS = ["small scope: <=4 dims, dim sizes <=6, <=64 elements"]


def _shapes(tier: str):
    cap = 36 if tier == "quick" else 96
    for n in (0, 1, 2, 3):
        for shape in itertools.product((1, 2, 3, 4, 6), repeat=n):
            if refs.numel(shape) <= cap:
                yield shape
    yield from ((2, 2, 2, 2), (1, 2, 3, 2), (2, 3, 1, 2))


def gen_partition(tier: str):
    for shape in _shapes(tier):
        for tile in itertools.product(*(refs.divisors(s) for s in shape)):
            yield {"shape": list(shape), "tile": list(tile)}


def run_partition(case):
    shape, tile = tuple(case["shape"]), tuple(case["tile"])
    n = refs.numel(shape)
    data = torch.arange(n).reshape(shape)
    modes = [tile] + (["data_shape"] if tile == shape else [])
    want: dict[int, list[int]] = {}
    for i, idx in enumerate(refs.indices(shape)):
        want.setdefault(refs.tile_index(idx, shape, tile), []).append(i)
    want_rows = [want[t] for t in range(len(want))]
    variants = [data]
    if len(shape) > 1:
        variants.append(data.transpose(0, -1).contiguous().transpose(0, -1))
    for mode in modes:
        for d in variants:
            arg = mode if isinstance(mode, str) else torch.Size(mode)
            rows = tiled_tensor.tiles_to_rows(d, arg)
            check(
                [sorted(r) for r in rows.tolist()] == want_rows,
                "partition",
                lambda: f"{shape}/{tile}: {rows.tolist()} != {want_rows}",
            )
            back = tiled_tensor.rows_to_tiles(rows, torch.Size(shape), arg)
            check(back.shape == data.shape and torch.equal(back, data), "roundtrip", lambda: f"{back}")
            # the other direction: arbitrary rows survive
            fresh = torch.arange(n).reshape(rows.shape) * 7 % (n + 1)
            again = tiled_tensor.tiles_to_rows(tiled_tensor.rows_to_tiles(fresh, torch.Size(shape), arg), arg)
            check(torch.equal(again, fresh), "roundtrip-rows", lambda: f"{again} {fresh}")
    # a wrong row count is refused rather than re-interpreted
    if len(want_rows) > 1:
        try:
            tiled_tensor.rows_to_tiles(torch.zeros(1, n), torch.Size(shape), torch.Size(tile))
            check(False, "wrong-rows-accepted", f"{shape} {tile}")
        except ValueError:
            pass
    return Stats(states=1, transitions=2 * len(modes), outcome=want_rows)


def gen_reject(tier: str):
    dims = (1, 2, 3, 4, 6)
    for n in (1, 2):
        for shape in itertools.product(dims, repeat=n):
            for tile in itertools.product((1, 2, 3, 4, 5, 6), repeat=n):
                if any(s % t for s, t in zip(shape, tile)):
                    yield {"shape": list(shape), "tile": list(tile)}
    for shape, tile in (((2, 2), (2,)), ((2,), (1, 2)), ((2, 2), (1, 2, 2)), ((4,), ())):
        yield {"shape": list(shape), "tile": list(tile)}


def run_reject(case):
    shape, tile = torch.Size(case["shape"]), torch.Size(case["tile"])
    data = torch.zeros(shape)
    calls = {
        "tiles_to_rows": lambda: tiled_tensor.tiles_to_rows(data, tile),
        "rows_to_tiles": lambda: tiled_tensor.rows_to_tiles(data.reshape(1, -1), shape, tile),
        "PerTile": lambda: ff.PerTile(tuple(tile)).tile_size(shape),
        "quantize": lambda: ff.quantization.affine.static.quantize_by_tile(data, 1.0, None, tile, 4),
    }
    if len(shape) == len(tile):
        block = ff.PerBlock(tuple(range(len(shape))), tuple(tile))
        calls["PerBlock"] = lambda: block.tile_size(shape)
    for name, call in calls.items():
        try:
            call()
        except (ValueError, RuntimeError):
            continue
        check(False, "bad-tile-accepted", f"{name}: shape {shape} tile {tile}")
    return Stats(transitions=len(calls), outcome="rejected")


def gen_infer(tier: str):
    for shape in _shapes(tier):
        if not shape:
            continue
        for tile in itertools.product(*(refs.divisors(s) for s in shape)):
            yield {"shape": list(shape), "tile": list(tile)}


def run_infer(case):
    shape, tile = torch.Size(case["shape"]), torch.Size(case["tile"])
    gran = granularities.granularity_from_sizes(shape, tile)
    got = gran.tile_size(shape)
    got = shape if got == "data_shape" else got
    check(tuple(got) == tuple(tile), "infer", lambda: f"{shape} {tile} -> {gran} -> {got}")
    # simplest description wins
    if tile == shape:
        check(isinstance(gran, ff.PerTensor), "infer-simplest", f"{gran}")
    elif all(t in (1, s) for s, t in zip(shape, tile)):
        check(isinstance(gran, ff.PerChannel), "infer-simplest", f"{gran}")
    return Stats(outcome=repr(gran))


def _specs():
    out = [["tensor"]]
    for dims in ([0], [1], [-1], [0, 1], [1, 0], [0, 2], []):
        out.append(["channel", dims])
    for tile in ([2, 2], [1, 2], [4, 4], [4, 2, 1], [1, 4], [4], [2]):
        out.append(["tile", tile])
    for bd, bs in (([0], [2]), ([0], [1]), ([1], [2]), ([0, 1], [2, 2]), ([0, 1], [1, 2]), ([-1], [2])):
        for ch in ([], [0], [1], [-1]):
            if set(bd) & set(ch):
                continue
            for strict in (True, False):
                out.append(["block", bd, bs, ch, strict])
    return out


def _mk(spec):
    if spec[0] == "block":
        return ff.PerBlock(tuple(spec[1]), tuple(spec[2]), tuple(spec[3]), strict_blocks=spec[4])
    return refs.make_granularity(spec)


PROBES = [(4, 4), (4, 2), (2, 4), (4, 4, 4), (4,), (2,), (4, 3), (3, 4), (6, 6)]


def _behaviour(gran):
    out = []
    for shape in PROBES:
        try:
            tile = gran.tile_size(torch.Size(shape))
            out.append(tuple(shape) if tile == "data_shape" else tuple(tile))
        except (ValueError, IndexError) as e:
            out.append(type(e).__name__)
    return out


def gen_equality(tier: str):
    specs = _specs()
    for a in specs:
        yield {"a": a}


def run_equality(case):
    specs = _specs()
    a = case["a"]
    ga = _mk(a)
    n = 0
    for b in specs:
        gb = _mk(b)
        n += 1
        eq = ga == gb
        check(isinstance(eq, bool) and eq == (gb == ga) and (ga != gb) == (not eq), "eq-asymmetric", f"{ga} {gb}")
        if a == b:
            check(eq, "eq-reflexive", f"{ga} != {gb}")
        if eq:
            check(_behaviour(ga) == _behaviour(gb), "eq-different-tiling", f"{ga} == {gb}")
    return Stats(states=n, transitions=n, outcome=repr(ga))


def _sized_specs(n):
    """Every granularity over at most n dimensions, with dimensions named by positive or negative index."""
    names = [*range(n), *range(-n, 0)]
    yield ["tensor"]
    for k in range(n + 1):
        for dims in itertools.product(names, repeat=k):
            if len({d % n for d in dims}) == k:
                yield ["channel", list(dims)]
    for tile in itertools.product((1, 2, 3, 4), repeat=n):
        yield ["tile", list(tile)]
    for k in (1, 2):
        for block in itertools.product(names, repeat=k):
            if len({d % n for d in block}) != k:
                continue
            for sizes in itertools.product((1, 2, 3), repeat=k):
                for c in range(n + 1):
                    for channel in itertools.combinations(names, c):
                        if len({d % n for d in channel}) == c:
                            yield ["block", list(block), list(sizes), list(channel)]


def gen_sizes(tier: str):
    shapes = [(4,), (6,), (4, 6), (2, 4), (1, 3), (2, 4, 6)] if tier != "quick" else [(4,), (4, 6), (1, 3), (2, 4, 2)]
    for shape in shapes:
        specs = list(_sized_specs(len(shape)))
        for i in range(0, len(specs), 40):
            yield {"shape": list(shape), "specs": specs[i : i + 40]}


def run_sizes(case):
    shape = torch.Size(case["shape"])
    n = 0
    for spec in case["specs"]:
        strictnesses = (True, False) if spec[0] == "block" else (True,)
        for strict in strictnesses:
            gran = _mk(spec + [strict] if spec[0] == "block" else spec)
            want, refused = list(shape), False
            if spec[0] == "channel":
                for d in spec[1]:
                    want[d] = 1
            elif spec[0] == "tile":
                want = list(spec[1])
                refused = any(s % t for s, t in zip(shape, want))
            elif spec[0] == "block":
                # a dimension that is listed twice follows its block size
                for d in spec[3]:
                    want[d] = 1
                for d, size in zip(spec[1], spec[2]):
                    want[d] = size
                    refused |= size > shape[d] or (strict and shape[d] % size != 0)
            try:
                tile = gran.tile_size(shape)
                got = tuple(shape) if tile == "data_shape" else tuple(tile)
            except ValueError:
                got = None
            n += 1
            check(got == (None if refused else tuple(want)), "tile-size", lambda: f"{gran} on {shape}: {got}, expected {want}")
            if got is not None and all(s % t == 0 for s, t in zip(shape, got)):
                params = gran.parameter_dimensionality(shape)
                check(params == refs.num_tiles(shape, got), "parameter-count", lambda: f"{gran} on {shape}: {params}")
    return Stats(states=n, transitions=n, outcome=case["specs"][0])


FAMILIES = [
    Family("sizes", gen_sizes, run_sizes, "all granularities over a shape, by positive and negative dimension"),
    Family("partition", gen_partition, run_partition, "all shapes x all dividing tiles"),
    Family("reject", gen_reject, run_reject, "all non-dividing (shape, tile) pairs"),
    Family("infer", gen_infer, run_infer, "granularity inferred from (shape, tile)"),
    Family("equality", gen_equality, run_equality, "all pairs of granularities"),
]
