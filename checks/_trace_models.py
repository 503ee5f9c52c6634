"""Small models for tracing: how an inner module is called, what it returns and how this is used."""

from __future__ import annotations

import dataclasses
import functools
import itertools

from typing import Any, NamedTuple

import torch

from torch import nn


class Pair(NamedTuple):
    first: torch.Tensor
    second: torch.Tensor


# what an inner module returns: name -> (returned value, items of the tensors in it)
RETURNS = {
    "one": (lambda a, b: a, {"a": lambda r: r}),
    "tuple": (lambda a, b: (a, b), {"a": lambda r: r[0], "b": lambda r: r[1]}),
    "swapped": (lambda a, b: (b, a), {"a": lambda r: r[1], "b": lambda r: r[0]}),
    "dict": (lambda a, b: {"p": a, "q": b}, {"a": lambda r: r["p"], "b": lambda r: r["q"]}),
    "nested": (lambda a, b: (a, (b, a)), {"a": lambda r: r[1][1], "b": lambda r: r[1][0]}),
    "list": (lambda a, b: [a, b], {"a": lambda r: r[0], "b": lambda r: r[1]}),
    "pair": (lambda a, b: Pair(a, b), {"a": lambda r: r.first, "b": lambda r: r.second}),
    "none": (lambda a, b: (a, None, b), {"a": lambda r: r[0], "b": lambda r: r[2]}),
    "same": (lambda a, b: (a, a), {"a": lambda r: r[0], "b": lambda r: r[1]}),
}


class Block(nn.Module):
    """Two layers, one or two inputs."""

    def __init__(self, returns: str, seed: int, style: str) -> None:
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.l1, self.l2 = nn.Linear(3, 3), nn.Linear(3, 3)
        for p in self.parameters():
            p.data = torch.randn(p.shape, generator=g)
        self.returns, self.style = returns, style
        self.register_buffer("shift", torch.randn(3, generator=g))

    def forward(self, x: torch.Tensor, y: torch.Tensor | None = None, *, scale: float = 1.0, mode: str = "") -> Any:
        a = self.l1(x)
        if y is not None:
            a = a - 2 * y
        if self.style == "side":  # the second result does not depend on the first
            b = self.l2(x)
        elif self.style == "get":
            b = self.l2(torch.relu(a)) + self.shift
        else:
            b = self.l2(torch.relu(a))
        if scale != 1.0:
            b = b * scale
        if mode == "neg":
            b = -b
        return RETURNS[self.returns][0](a, b)


class LeafBlock(Block):
    """The same without inner modules: a leaf of the module hierarchy."""

    def __init__(self, *args: Any) -> None:
        super().__init__(*args)
        layers = {n: self._modules.pop(n) for n in ("l1", "l2")}
        for n, layer in layers.items():
            self.register_parameter(n + "w", layer.weight)
            self.register_parameter(n + "b", layer.bias)
            setattr(self, n, functools.partial(self.linear, n))

    def linear(self, name: str, x: torch.Tensor) -> torch.Tensor:
        return nn.functional.linear(x, getattr(self, name + "w"), getattr(self, name + "b"))


CALLS = {
    "x": lambda m, x, y: m(x),
    "xy": lambda m, x, y: m(x, y),
    "yx": lambda m, x, y: m(y, x),
    "kw": lambda m, x, y: m(x, y=y),
    "kwkw": lambda m, x, y: m(y=x, x=y),
    "const": lambda m, x, y: m(x, scale=0.5),
    "xx": lambda m, x, y: m(x, x),
    "flag": lambda m, x, y: m(x, y, mode="neg"),
}

USES = ["a", "b", "ab", "ba"]

ROOTS = {
    "tensor": lambda v, x: v[-1],
    "tuple": lambda v, x: tuple(v),
    "dict": lambda v, x: {"z": v[-1], "y": v[0]},
    "nested": lambda v, x: [v[0], (v[-1], {"k": v[0]})],
    "input": lambda v, x: (x, v[-1]),
    "const": lambda v, x: (v[-1], 3, None),
    "pair": lambda v, x: Pair(v[-1], v[0]),
}


class Model(nn.Module):
    """A model calling the inner module once or twice."""

    def __init__(self, returns: str, call: str, use: str, root: str, style: str = "chain", twice: bool = False, wrap: bool = False, leaf: bool = False, alias: bool = False) -> None:
        super().__init__()
        self.spec = (returns, call, use, root)
        self.twice = twice
        self.pre = nn.Linear(3, 3)
        block = (LeafBlock if leaf else Block)(returns, 1, style)
        self.block = Wrap(block) if wrap else block
        if alias:
            self.other = self.block
        self.post = nn.Linear(3, 3)
        g = torch.Generator().manual_seed(7)
        for m in (self.pre, self.post):
            for p in m.parameters():
                p.data = torch.randn(p.shape, generator=g)

    def forward(self, x: torch.Tensor, y: torch.Tensor) -> Any:
        returns, call, use, root = self.spec
        h = self.pre(x)
        r = CALLS[call](self.block, h, y)
        items = [RETURNS[returns][1][u](r) for u in use]
        v = [self.post(items[0]) if len(items) == 1 else self.post(items[0]) * items[1]]
        if self.twice:
            r2 = CALLS[call](getattr(self, "other", self.block), v[0], y)
            v.append(RETURNS[returns][1][use[-1]](r2))
        v.insert(0, items[-1])
        return ROOTS[root](v, x)


class Wrap(nn.Module):
    def __init__(self, inner: nn.Module) -> None:
        super().__init__()
        self.inner = inner

    def forward(self, *args: Any, **kwargs: Any) -> Any:
        return self.inner(*args, **kwargs)


def programs(tier: str):
    base = {"returns": "tuple", "call": "x", "use": "ab", "root": "tensor"}
    for r in RETURNS:
        for use in USES:
            if r == "one" and "b" in use:
                continue
            for leaf in (False, True):
                p = {**base, "returns": r, "use": use, "leaf": leaf}
                yield p
                if tier == "thorough":
                    for call, twice in itertools.product(CALLS, (False, True)):
                        yield {**p, "call": call, "twice": twice}
                    for style in ("side", "get"):
                        yield {**p, "style": style}
                        yield {**p, "wrap": True, "style": style}
    for call, r, leaf in itertools.product(CALLS, ["one", "tuple", "swapped"] if tier == "thorough" else ["tuple"], (False, True)):
        yield {**base, "call": call, "use": "a" if r == "one" else "ba", "returns": r, "leaf": leaf}
    for root, use in itertools.product(ROOTS, USES if tier == "thorough" else ["ab"]):
        yield {**base, "root": root, "use": use}
        yield {**base, "root": root, "use": use, "twice": True}
        yield {**base, "root": root, "use": use, "twice": True, "alias": True}
    for style, leaf, twice in itertools.product(("side", "get"), (False, True), (False, True)):
        yield {**base, "style": style, "leaf": leaf, "twice": twice}
        yield {**base, "style": style, "use": "b", "leaf": leaf, "twice": twice}
    for call, leaf in itertools.product(CALLS if tier == "thorough" else ("x", "kwkw"), (False, True)):
        yield {**base, "wrap": True, "call": call, "leaf": leaf}
        yield {**base, "wrap": True, "call": call, "use": "b", "returns": "dict", "leaf": leaf}
        yield {**base, "twice": True, "alias": True, "call": call, "leaf": leaf}
