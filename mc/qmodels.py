"""Small quantized models with exactly representable arithmetic, shared by several checks."""

from __future__ import annotations

import torch

import fastforward as ff


def ranged(q, lo, hi):
    q.quantization_range = (lo, hi)
    return q


class Fake(ff.nn.Quantizer):
    """A user-defined quantizer that returns plain tensors."""

    def quantize(self, data):
        return torch.round(data * 2) / 2


class Doubling(ff.nn.Quantizer):
    """A user-defined quantizer for which quantizing twice differs from quantizing once."""

    def quantize(self, data):
        return torch.round(data) * 2 + 1


def identity(context, fn, args, kwargs):
    return args[0]


def bump(context, fn, args, kwargs):
    return fn(args[0] + 0.25)


def overridden(q, fn):
    q.handle_for_test = q.register_override(fn)
    return q


# All scales are powers of two.
KINDS = {
    "stub": lambda: ff.nn.QuantizerStub(),
    "lin4": lambda: ranged(ff.nn.LinearQuantizer(4, symmetric=False), -0.75, 1.125),
    "lin2": lambda: ranged(ff.nn.LinearQuantizer(2, symmetric=False), -1.0, 2.0),
    "chan": lambda: ranged(
        ff.nn.LinearQuantizer(3, symmetric=False, granularity=ff.PerChannel(0)),
        torch.tensor([-1.0, -2.0, -0.5]), torch.tensor([0.75, 1.5, 1.25])),
    "sym": lambda: ranged(ff.nn.LinearQuantizer(3, symmetric=True, allow_one_sided=False), -1.0, 0.75),
    "fake": lambda: Fake(),
    "dbl": lambda: Doubling(),
    "off": lambda: overridden(ranged(ff.nn.LinearQuantizer(2, symmetric=False), -1.0, 2.0), identity),
    "bump": lambda: overridden(ranged(ff.nn.LinearQuantizer(4, symmetric=False), -0.75, 1.125), bump),
    "uninit": lambda: ff.nn.LinearQuantizer(4),
}


def fill(p, seed=0):
    """Multiples of 1/8 in [-1.5, 1.5], different for every position."""
    with torch.no_grad():
        n = p.numel()
        v = torch.tensor([((i * 7 + seed * 5 + 3) % 25 - 12) / 8 for i in range(n)])
        p.copy_(v.reshape(p.shape).to(p.dtype))
    return p


class Net(ff.nn.QuantizedModule):
    def __init__(self, bias=True):
        super().__init__()
        self.lin1 = ff.nn.QuantizedLinear(3, 3, bias=bias)
        self.lin2 = ff.nn.QuantizedLinear(3, 3, bias=bias)
        self.own = torch.nn.Parameter(torch.zeros(3))
        self.shift = torch.nn.Parameter(torch.zeros(3))
        for i, p in enumerate(self.parameters()):
            fill(p, i)
        self.lin1.__init_quantization__()
        self.lin2.__init_quantization__()
        self.__init_quantization__()

    def __init_quantization__(self):
        super().__init_quantization__()
        self.own_quantizer = ff.nn.QuantizerStub("parameter/own")
        self.shift_quantizer = ff.nn.QuantizerStub("parameter/shift")
        self.mid = ff.nn.QuantizerStub(output_quantizer=True)

    def forward(self, x):
        x = self.lin1(x)
        x = self.mid(x * self.own_quantizer(self.own))
        x = x + self.shift_quantizer(self.shift * 2)
        return self.lin2(x)


def put(model, name, q):
    parent, _, attr = name.rpartition(".")
    setattr(model.get_submodule(parent), attr, q)


def get(model, name):
    parent, _, attr = name.rpartition(".")
    return getattr(model.get_submodule(parent) if parent else model, attr)


def all_quantizers(model):
    return {n: m for n, m in model.named_modules(remove_duplicate=False) if isinstance(m, ff.nn.Quantizer)}


def plain(v):
    return v.dequantize() if isinstance(v, ff.quantized_tensor.QuantizedTensor) else v


def run(model, x):
    with torch.no_grad(), ff.strict_quantization(False):
        return plain(model(x))


X = torch.tensor([[0.5, -1.0, 0.25], [-0.75, 0.125, 1.0]])
