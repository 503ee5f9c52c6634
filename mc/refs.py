"""Boring reference models (pure Python integers/floats) used as oracles."""

from __future__ import annotations

import itertools
import math

from typing import Iterator, Sequence


def numel(shape: Sequence[int]) -> int:
    return math.prod(shape)


def indices(shape: Sequence[int]) -> Iterator[tuple[int, ...]]:
    return itertools.product(*(range(s) for s in shape))


def divisors(n: int) -> list[int]:
    return [d for d in range(1, n + 1) if n % d == 0]


def tile_index(idx: Sequence[int], shape: Sequence[int], tile: Sequence[int]) -> int:
    """Row-major number of the tile that holds element `idx`."""
    t = 0
    for i, s, b in zip(idx, shape, tile):
        t = t * (s // b) + i // b
    return t


def num_tiles(shape: Sequence[int], tile: Sequence[int]) -> int:
    return math.prod(s // b for s, b in zip(shape, tile))


def round_half_even(x: float) -> float:
    return float(round(x)) if math.isfinite(x) else x


def int_bounds(bits: int) -> tuple[int, int]:
    return -(2 ** (bits - 1)), 2 ** (bits - 1) - 1


def quantize(x: float, scale: float, offset: float | None, bits: int) -> float:
    o = round_half_even(offset) if offset is not None else 0.0
    lo, hi = int_bounds(bits)
    return float(min(max(round_half_even(x / scale - o), lo), hi))


def dequantize(q: float, scale: float, offset: float | None) -> float:
    o = round_half_even(offset) if offset is not None else 0.0
    return (q + o) * scale


def granularities(shape: Sequence[int], negative: bool = True):
    """Every granularity spec (JSON) applicable to `shape`, with its tile size.

    Specs: ["tensor"], ["channel", dims], ["tile", tile], ["block", dims, sizes, channel_dims].
    """
    n = len(shape)
    yield ["tensor"], tuple(shape)
    dims = list(range(n))
    for r in range(0, n + 1):
        for sub in itertools.combinations(dims, r):
            tile = tuple(1 if d in sub else shape[d] for d in dims)
            yield ["channel", list(sub)], tile
            if negative and r:
                yield ["channel", [d - n for d in sub]], tile
            if r == 2:
                yield ["channel", list(reversed(sub))], tile
    for tile in itertools.product(*(divisors(s) for s in shape)):
        if n:
            yield ["tile", list(tile)], tuple(tile)
    for r in range(1, n + 1):
        for sub in itertools.combinations(dims, r):
            for sizes in itertools.product(*(divisors(shape[d]) for d in sub)):
                rest = [d for d in dims if d not in sub]
                for c in range(0, len(rest) + 1):
                    for ch in itertools.combinations(rest, c):
                        tile = [shape[d] for d in dims]
                        for d in ch:
                            tile[d] = 1
                        for d, s in zip(sub, sizes):
                            tile[d] = s
                        yield ["block", list(sub), list(sizes), list(ch)], tuple(tile)
                        if negative and n > 1:
                            yield (
                                ["block", [d - n for d in sub], list(sizes), [d - n for d in ch]],
                                tuple(tile),
                            )


def make_granularity(spec):
    import fastforward as ff

    kind = spec[0]
    if kind == "tensor":
        return ff.PerTensor()
    if kind == "channel":
        dims = spec[1]
        return ff.PerChannel(dims[0] if len(dims) == 1 else tuple(dims))
    if kind == "tile":
        return ff.PerTile(tuple(spec[1]))
    return ff.PerBlock(tuple(spec[1]), tuple(spec[2]), tuple(spec[3]))
