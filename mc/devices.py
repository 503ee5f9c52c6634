"""Terms that are tensors on a simulated device.

The sandbox has one device only.  These tensors carry the device they are on as an
attribute; asking for the device, moving a tensor and assigning the data of a parameter
are intercepted, so the code that decides on placements runs unchanged.
"""

from __future__ import annotations

from typing import Any, Iterator

import torch

from mc.graphs import Out

CPU = torch.device("cpu")
GPU = torch.device("cuda", 0)
GPU1 = torch.device("cuda", 1)
NAMES = {"cpu": CPU, "gpu": GPU, "gpu1": GPU1}


class FT(torch.Tensor):
    key: str
    dev: torch.device

    @staticmethod
    def make(key: str, dev: torch.device) -> FT:
        t = torch.zeros(1).as_subclass(FT)
        t.key, t.dev = key, dev
        return t

    def __repr__(self, *_: Any, **__: Any) -> str:
        return f"{self.key}@{self.dev}"

    @classmethod
    def __torch_function__(cls, func: Any, types: Any, args: tuple = (), kwargs: Any = None) -> Any:
        kwargs = kwargs or {}
        if func == torch.Tensor.device.__get__:
            return args[0].dev
        if func in (torch.Tensor.is_cuda.__get__, torch.Tensor.is_cpu.__get__):
            return args[0].dev.type == ("cuda" if func == torch.Tensor.is_cuda.__get__ else "cpu")
        if func in (torch.Tensor.to, torch.Tensor.cpu, torch.Tensor.cuda):
            self = args[0]
            dev = CPU if func is torch.Tensor.cpu else GPU if func is torch.Tensor.cuda else None
            for a in [*args[1:], *kwargs.values()]:
                if isinstance(a, (str, torch.device)) or type(a) is int:
                    dev = torch.device(a)
            if dev is None or (dev == self.dev and not kwargs.get("copy")):
                return self
            return FT.make(self.key, dev)
        if func == torch.Tensor.data.__get__:
            return FT.make(args[0].key, args[0].dev)
        if func == torch.Tensor.data.__set__:
            with torch._C.DisableTorchFunctionSubclass():
                func(*args)
            args[0].key, args[0].dev = args[1].key, args[1].dev
            return None
        with torch._C.DisableTorchFunctionSubclass():
            out = func(*args, **kwargs)
        if isinstance(out, torch.Tensor):
            first = next(a for a in args if isinstance(a, FT))
            if not isinstance(out, FT):
                out = out.as_subclass(FT)
            if not hasattr(out, "key"):
                out.key, out.dev = first.key, first.dev
        return out


def values(v: Any) -> Iterator[FT]:
    """The tensors in a structure."""
    if isinstance(v, FT):
        yield v
    elif isinstance(v, (tuple, list)):
        for e in v:
            yield from values(e)
    elif isinstance(v, dict):
        yield from values(list(v.values()))
    elif isinstance(v, Out):
        yield from values((v.a, v.b))
