"""C32: quantization operators agree in every execution mode (eager, fake, meta, traced, compiled)."""

from __future__ import annotations

import contextlib
import functools
import itertools
import logging

import torch
import fastforward as ff

from torch._subclasses import FakeTensorMode
from torch.fx.experimental.proxy_tensor import make_fx

from mc.harness import Family, Stats, check

PROP = "C32"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operator configurations x execution modes, and of all histories of mode switches, calls and parameter changes up to a depth; every result of the implementation is compared with eager execution of the same operator"
ASSUMPTIONS = [
    "results are compared in value, shape, data type and device, not in memory layout",
    "compiled functions use the 'eager' backend of torch.compile (the code generator of PyTorch is trusted); the thorough tier also uses its default backend",
    "CPU, fake and meta devices only (no accelerator in the sandbox)",
]

OPS = torch.ops.fastforward
FLOATS = ["float32", "float16", "bfloat16", "float64"]
OUT = [None, "int8", "int16", "int32", "float32", "float16", "bfloat16", "float64"]
TILES = [
    [[2, 4], [1, 4]], [[2, 4], [2, 4]], [[2, 4], [1, 2]], [[2, 4], [2, 1]], [[3], [1]],
    [[2, 2, 2], [2, 1, 2]], [[4, 2], [2, 1]], [[1], [1]], [[2, 2, 1, 3], [1, 1, 1, 3]],
]


def dt(name):
    return None if name is None else getattr(torch, name)


def numel(shape):
    return torch.Size(shape).numel()


def make(shape, layout, dtype, k=0):
    n = numel(shape)
    base = ((torch.arange(2 * n, dtype=torch.float32) * 5 + k) % 13 - 6) * 0.37
    base = base.to(dt(dtype))
    if layout == "c":
        return base[:n].reshape(shape)
    if layout == "t":
        return base[:n].reshape(shape[::-1]).permute(tuple(range(len(shape) - 1, -1, -1)))
    return base.reshape([*shape, 2])[..., 0]


def params(case, k=0):
    n = numel(case["shape"]) // numel(case["tile"])
    scale = (torch.arange(n, dtype=torch.float32) % 3 + 1) * 0.25 + 0.05 * k
    offset = (torch.arange(n, dtype=torch.float32) % 3 - 1) * (1 + k)
    scale = scale.to(dt(case["scale"]))
    return scale, (offset.to(dt(case["offset"])) if case["offset"] else None)


def call(case, x, g, s, o):
    tile, bits, out = case["tile"], case["bits"], dt(case["out"])
    match case["op"]:
        case "quantize":
            return [OPS.quantize_by_tile(x, s, tile, bits, out, o)]
        case "dequantize":
            return [OPS.dequantize_by_tile(x, s, tile, o, out)]
        case "backward":
            return list(OPS.quantize_by_tile_backward(x, g, s, tile, bits, o))
        case "dynamic":
            return list(OPS.quantize_dynamic_by_tile(x, tile, bits, case["sym"], case["one"], out))
        case "roundtrip":
            return [OPS.dequantize_by_tile(OPS.quantize_by_tile(x, s, tile, bits, out, o), s, tile, o, dt("float32"))]


def tensors(case, k=0):
    x = make(case["shape"], case["layout"], case["dtype"], k)
    if case["op"] == "dequantize":
        x = x.round()
        if case["dtype"].startswith("int"):
            x = make(case["shape"], case["layout"], "float32", k).round().to(dt(case["dtype"]))
    g = make(case["shape"], "c", case.get("grad", case["dtype"]) if not case["dtype"].startswith("int") else "float32", k + 3)
    return (x, g, *params(case, k))


def kind(r):
    return [(tuple(t.shape), t.dtype) for t in r]


def attempt(fn, *args):
    try:
        return fn(*args), None
    except Exception as e:  # noqa: BLE001
        return None, type(e).__name__


def configs(tier):
    full = tier == "thorough"
    for (shape, tile) in TILES:
        for layout in ("c", "t", "s"):
            for dtype, scale in itertools.product(FLOATS, FLOATS if full else ["float32", "float16"]):
                for offset in (None, scale, "float32") if scale != "float32" else (None, scale):
                    base = dict(shape=shape, tile=tile, layout=layout, dtype=dtype, scale=scale, offset=offset, bits=3)
                    for out in OUT if full or layout == "c" else OUT[:3]:
                        yield base | dict(op="quantize", out=out)
                        yield base | dict(op="dequantize", out=out)
                    for grad in FLOATS if full or layout == "c" else (dtype,):
                        yield base | dict(op="backward", out=None, grad=grad)
                    if offset is None and scale == "float32":
                        for sym, one in itertools.product((False, True), repeat=2):
                            for out in OUT:
                                yield base | dict(op="dynamic", out=out, sym=sym, one=one)
            for dtype in ("int8", "int16", "int32"):
                for scale, offset in itertools.product(FLOATS[:3], (False, True)):
                    for out in (None, "float32", "bfloat16"):
                        yield dict(op="dequantize", shape=shape, tile=tile, layout=layout, dtype=dtype, scale=scale, offset=scale if offset else None, bits=3, out=out)


def gen_inference(tier):
    group = {}
    for c in configs(tier):
        group.setdefault((c["op"], tuple(c["shape"]), tuple(c["tile"]), c["layout"], c["dtype"]), []).append(c)
    for cases in group.values():
        yield {"cases": cases}


def run_inference(case):
    n = 0
    for c in case["cases"]:
        args = tensors(c)
        before = [None if a is None else a.clone() for a in args]
        real, error = attempt(call, c, *args)
        for a, b in zip(args, before):
            check(a is None or torch.equal(a, b), "mutated", lambda: f"{c}: an operand is changed")
        if error is not None:
            n += 1
            continue
        storages = {a.untyped_storage().data_ptr() for a in args if a is not None}
        for r in real:
            check(r.numel() == 0 or r.untyped_storage().data_ptr() not in storages, "alias", lambda: f"{c}: a result shares memory with an operand")
        with FakeTensorMode() as mode:
            fake, error = attempt(call, c, *[None if a is None else mode.from_tensor(a) for a in args])
            check(error is None, "fake-error", lambda: f"{c}: {error} when traced")
            check(kind(fake) == kind(real), "fake", lambda: f"{c}: inferred {kind(fake)}, computed {kind(real)}")
            check(all(f.device == r.device for f, r in zip(fake, real)), "device", lambda: str(c))
        meta, error = attempt(call, c, *[None if a is None else a.to("meta") for a in args])
        check(error is None, "meta-error", lambda: f"{c}: {error} on the meta device")
        check(kind(meta) == kind(real), "meta", lambda: f"{c}: inferred {kind(meta)}, computed {kind(real)}")
        n += 3
    return Stats(len(case["cases"]), n, len(case["cases"]), n)


def gen_traced(tier):
    for shape, tile in TILES:
        for op in ("quantize", "dequantize", "backward", "dynamic", "roundtrip"):
            for dtype, layout in itertools.product(FLOATS[:3], "ct"):
                for offset in (None, "float32"):
                    for out in (None, "int8", "float32"):
                        for mode in ("real", "fake"):
                            yield dict(op=op, shape=shape, tile=tile, layout=layout, dtype=dtype, scale="float32", offset=offset, bits=3, out=out, sym=False, one=True, mode=mode)


def run_traced(case):
    """A graph that is recorded for one input computes the eager result for every other input."""
    args = tensors(case)
    fn = lambda x, g, s, o: [t * 1 for t in call(case, x, g, s, o)]  # noqa: E731
    if case["offset"] is None:
        trace_fn, select = (lambda x, g, s: fn(x, g, s, None)), (lambda a: a[:3])
    else:
        trace_fn, select = fn, (lambda a: a)
    graph = make_fx(trace_fn, tracing_mode=case["mode"])(*select(args))
    for node in graph.graph.nodes:
        check(node.op != "get_attr", "constant", lambda: f"{case}: a value of the recorded input is part of the graph")
    for k in range(3):
        args = tensors(case, k)
        want, have = fn(*args), graph(*select(args))
        check(kind(want) == kind(have), "kind", lambda: f"{case}: {kind(have)} instead of {kind(want)}")
        check(all(torch.equal(a, b) for a, b in zip(want, have)), "value", lambda: f"{case}: input {k}")
    recorded = next(n for n in reversed(graph.graph.nodes) if n.op == "output").args[0]
    metas = [n.meta["val"] for n in recorded if isinstance(n, torch.fx.Node) and "val" in n.meta]
    if len(metas) == len(want):
        check(kind(metas) == kind(want), "recorded", lambda: f"{case}: recorded {kind(metas)}, computed {kind(want)}")
    return Stats(3, len(graph.graph.nodes), 3, len(graph.graph.nodes))


@contextlib.contextmanager
def compiler(backend):
    original, level = torch.compile, logging.root.manager.disable
    logging.disable(logging.WARNING)
    torch._dynamo.reset()
    if backend:
        torch.compile = functools.partial(original, backend=backend)
    try:
        with torch._dynamo.config.patch(recompile_limit=64) if hasattr(torch._dynamo.config, "recompile_limit") else contextlib.nullcontext():
            yield
    finally:
        torch.compile = original
        torch._dynamo.reset()
        logging.disable(level)


STEPS = ["toggle", "static", "dynamic", "backward", "params", "nested"]


def gen_switches(tier):
    depth = 5 if tier == "thorough" else 4
    grans = ["tensor", "channel", "block"] if tier == "thorough" else ["tensor", "block"]
    for gran in grans:
        for first in itertools.product(STEPS, repeat=2):
            yield {"gran": gran, "first": list(first), "depth": depth, "dtype": "float32", "backend": "eager"}
    for gran in ("tensor", "channel"):
        yield {"gran": gran, "first": ["toggle", "static"], "depth": 3, "dtype": "bfloat16", "backend": "eager"}
    if tier == "thorough":
        for gran in grans:
            yield {"gran": gran, "first": ["toggle", "static"], "depth": 3, "dtype": "float32", "backend": None}


GRAN = {"tensor": lambda: ff.PerTensor(), "channel": lambda: ff.PerChannel(0), "block": lambda: ff.granularity.PerBlock(1, 2, per_channel_dims=0)}


def _same(a, b):
    return a.dtype == b.dtype and torch.allclose(a.double(), b.double(), rtol=1e-6, atol=1e-12)


def run_switches(case):
    """All histories of switching, calling and changing parameters; the mode is never observable."""
    dtype = dt(case["dtype"])
    shape = [2, 4]
    count = {"tensor": 1, "channel": 2, "block": 4}[case["gran"]]

    def quantizer():
        q = ff.nn.LinearQuantizer(3, granularity=GRAN[case["gran"]](), symmetric=False)
        q.quantization_range = (-torch.ones(count), torch.ones(count) * 1.5)
        return q.to(dtype)

    dyn = ff.nn.DynamicLinearQuantizer(3, granularity=GRAN[case["gran"]]()) if hasattr(ff.nn, "DynamicLinearQuantizer") else None

    def observe(q, step, k):
        x = make(shape, "c", case["dtype"], k).requires_grad_()
        if step == "static":
            y = q(x)
            return [y.raw_data.detach(), y.dequantize().detach()]
        if step == "dynamic":
            if dyn is None:
                return []
            y = dyn(x)
            return [y.raw_data.detach(), y.dequantize().detach()]
        leaves = [x] + [p for p in q.parameters() if p.requires_grad]
        return list(torch.autograd.grad((q(x).dequantize() * torch.arange(8).reshape(2, 4)).sum(), leaves))

    cache = {}

    def expected(step, version):
        if (step, version) not in cache:
            q = quantizer()
            for v in range(1, version + 1):
                change(q, v)
            with ff.flags.compiled_quant_funcs(False):
                cache[step, version] = observe(q, step, version)
        return cache[step, version]

    def change(q, version):
        q.quantization_range = (-torch.ones(count) * (1 + version), torch.ones(count) * (0.5 + version))

    n = traces = 0
    start = ff.flags.get_compiled_quant_funcs()
    with compiler(case["backend"]):
        for rest in itertools.product(STEPS, repeat=case["depth"] - 2):
            q, version, on = quantizer(), 0, False
            ff.flags.set_compiled_quant_funcs(False)
            try:
                for step in (*case["first"], *rest):
                    n += 1
                    if step == "toggle":
                        on = not on
                        ff.flags.set_compiled_quant_funcs(on)
                    elif step == "params":
                        version += 1
                        change(q, version)
                    elif step == "nested":
                        with ff.flags.compiled_quant_funcs(not on):
                            have = observe(q, "static", version)
                        want = expected("static", version)
                        check(len(have) == len(want) and all(map(_same, have, want)), "nested", lambda: f"{case} {rest}")
                    else:
                        have, want = observe(q, step, version), expected(step, version)
                        check(len(have) == len(want) and all(map(_same, have, want)), step, lambda: f"{case} {rest}: {have} instead of {want}")
                    check(ff.flags.get_compiled_quant_funcs() == on, "flag", lambda: f"{case} {rest}")
            finally:
                ff.flags.set_compiled_quant_funcs(start)
            traces += 1
    return Stats(traces, n, traces, n)


def gen_compiled(tier):
    outs = OUT if tier == "thorough" else [None, "int8", "float16"]
    for op in ("quantize", "dequantize", "backward", "dynamic"):
        for layout in ("c", "t"):
            yield {"op": op, "layout": layout, "outs": outs, "backend": "eager", "tiles": len(TILES)}
    if tier == "thorough":
        for op in ("quantize", "dequantize", "backward", "dynamic"):
            yield {"op": op, "layout": "c", "outs": [None, "int8"], "backend": None, "tiles": 3}


def run_compiled(case):
    """The compiled operators on every configuration, in one process and one cache."""
    n = 0
    with compiler(case["backend"]):
        for (shape, tile), dtype, offset, out, bits in itertools.product(TILES[: case["tiles"]], FLOATS[:2], (None, "float32"), case["outs"], (3, 8)):
            if case["op"] == "backward" and out is not None or case["op"] == "dynamic" and offset is not None:
                continue
            c = dict(op=case["op"], shape=shape, tile=tile, layout=case["layout"], dtype=dtype, scale="float32", offset=offset, bits=bits, out=out, sym=False, one=True)
            for k in range(2):
                args = tensors(c, k)
                want, error = attempt(call, c, *args)
                with ff.flags.compiled_quant_funcs(True):
                    have, again = attempt(call, c, *args)
                n += 1
                check((error is None) == (again is None), "error", lambda: f"{c}: {again} when compiled, {error} otherwise")
                if error is None:
                    check(kind(have) == kind(want), "kind", lambda: f"{c}: {kind(have)} instead of {kind(want)}")
                    check(all(map(_same, have, want)), "value", lambda: f"{c}: {have} instead of {want}")
    return Stats(n, n, n, n)


FAMILIES = [
    Family("inference", gen_inference, run_inference, "operators x tile shapes x memory layouts x data types of data, scale, offset, output and gradient; fake and meta execution against real execution, aliasing and mutation"),
    Family("traced", gen_traced, run_traced, "graphs recorded with real and fake tensors, replayed on three inputs"),
    Family("switches", gen_switches, run_switches, "all histories of 4 (quick) or 5 switches, nested switches, calls, backward passes and parameter changes"),
    Family("compiled", gen_compiled, run_compiled, "all operator configurations compiled in one cache"),
]
