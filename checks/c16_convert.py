"""C16: converting a model to quantized form keeps its structure and its float behaviour."""

from __future__ import annotations

import copy
import itertools
import logging
import warnings

import torch

import fastforward as ff

from fastforward.exceptions import QuantizationError
from fastforward.nn.quantized_module import SKIP_QUANTIZATION

from mc.harness import Family, Stats, check

PROP = "C16"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of module configurations, module graphs with sharing and conversion options; every conversion runs on the real code and is compared with the float model and a structural model"
ASSUMPTIONS = [
    "modules for which the library ships a quantized counterpart, plus user-defined containers through surrogates",
    "activation modules lose in-place execution, as documented; outputs are compared, not input mutation",
    "models of up to three children per container and three levels",
]

logging.getLogger("fastforward").setLevel(logging.CRITICAL)
nn = torch.nn


# --- single modules --------------------------------------------------------------------------
def configs(tier):
    for n_in, n_out, bias in itertools.product((1, 3), (1, 2), (True, False)):
        yield {"type": "Linear", "args": [n_in, n_out], "kwargs": {"bias": bias}, "inputs": [[n_in], [2, n_in], [2, 1, n_in]]}
    for kernel, stride, padding, dilation, groups, bias, mode in itertools.product(
        (1, 2, 3), (1, 2), (0, 1, 2, "same", "valid"), (1, 2), (1, 2), (True, False), ("zeros", "reflect", "replicate", "circular")
    ):
        if padding == "same" and stride != 1:
            continue
        kw = dict(stride=stride, padding=padding, dilation=dilation, groups=groups, bias=bias, padding_mode=mode)
        yield {"type": "Conv1d", "args": [2, 4, kernel], "kwargs": kw, "inputs": [[2, 7], [2, 2, 7]]}
        if tier != "quick" or (bias and groups == 2) or (mode == "reflect" and kernel == 2):
            yield {"type": "Conv2d", "args": [2, 4, kernel], "kwargs": kw, "inputs": [[2, 6, 7], [1, 2, 6, 7]]}
    for kernel, padding, stride, dilation, mode in itertools.product(([2, 3], [1, 2]), ([0, 1], [2, 1], "same"), ([1, 1], [2, 1]), ([1, 1], [1, 2]), ("zeros", "reflect", "replicate", "circular")):
        if padding == "same" and stride != [1, 1]:
            continue
        pad = padding if isinstance(padding, str) else tuple(padding)
        kw = dict(stride=stride, padding=padding, dilation=dilation, padding_mode=mode)
        yield {"type": "Conv2d", "args": [2, 2, kernel], "kwargs": kw, "inputs": [[1, 2, 6, 7]]}
    for pidx, max_norm, norm_type, by_freq, sparse in itertools.product((None, 0, -1), (None, 0.5), (1.0, 2.0), (False, True), (False, True)):
        kw = dict(padding_idx=pidx, max_norm=max_norm, norm_type=norm_type, scale_grad_by_freq=by_freq, sparse=sparse)
        if sparse and by_freq:
            continue  # torch has no gradient for this combination
        yield {"type": "Embedding", "args": [4, 3], "kwargs": kw, "inputs": [[2], [2, 3]] + ([] if sparse else [[]])}
    for shape, eps, affine, bias in itertools.product(([3], [2, 3]), (1e-5, 0.5), (True, False), (True, False)):
        yield {"type": "LayerNorm", "args": [shape], "kwargs": dict(eps=eps, elementwise_affine=affine, bias=bias), "inputs": [[2, 3], [4, 2, 3]]}
    for inplace in (False, True):
        for t in ("ReLU", "SiLU"):
            yield {"type": t, "args": [], "kwargs": dict(inplace=inplace), "inputs": [[3], [2, 3]]}


def tuples(v):
    return tuple(v) if isinstance(v, list) else v


def build(case):
    torch.manual_seed(len(str(case["kwargs"])))
    m = getattr(nn, case["type"])(*[tuples(a) for a in case["args"]], **{k: tuples(v) for k, v in case["kwargs"].items()})
    m = m.to(torch.float64 if case.get("double") else torch.float32)
    with torch.no_grad():
        for i, p in enumerate(m.parameters()):
            p.copy_(torch.randn(p.shape, dtype=torch.float64) * 1.5 + i)
    return m


def inputs(case, m):
    out = []
    for i, shape in enumerate(case["inputs"]):
        g = torch.Generator().manual_seed(i)
        if case["type"] == "Embedding":
            out.append(torch.randint(0, 4, shape, generator=g))
        else:
            out.append((torch.randn(shape, generator=g, dtype=torch.float64) * 2).to(torch.float64 if case.get("double") else torch.float32))
    return out


def grads(m, x):
    """Output and gradients of a scalar function of it."""
    x = x.clone()
    if x.is_floating_point():
        x.requires_grad_(True)
    for p in m.parameters():
        p.grad = None
    y = m(x * 1 if x.is_floating_point() else x)
    if isinstance(y, ff.QuantizedTensor):
        y = y.dequantize()
    if y.requires_grad:
        (y * torch.arange(1, y.numel() + 1).reshape(y.shape)).sum().backward()
    dense = [p.grad.to_dense() if p.grad is not None else None for n, p in m.named_parameters() if "quantizer" not in n]
    return y.detach().clone(), [x.grad] + dense


def same(a, b, tol=0.0):
    if a is None or b is None:
        return a is b
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return torch.equal(a, b) or (tol and torch.allclose(a, b, atol=tol, rtol=tol))


PLAIN = {"inplace"}


def run_module(case):
    """Conversion of a single module: attributes, parameters, hooks, outputs, gradients."""
    m = build(case)
    if case["eval"]:
        m.eval()
    for p in m.parameters():
        if case["frozen"]:
            p.requires_grad_(False)
    ref = copy.deepcopy(m)
    calls = []
    m.register_forward_hook(lambda *a: calls.append("f"))
    m.register_forward_pre_hook(lambda *a: calls.append("p"))
    m.custom_attribute = marker = object()
    m.register_buffer("extra_buffer", torch.ones(2), persistent=False)
    before = dict(m.__dict__)
    params = {n: id(p) for n, p in m.named_parameters()}
    buffers = {n: id(b) for n, b in m.named_buffers()}
    state = list(m.state_dict())
    if case["double_convert"]:
        q = ff.quantize_model(nn.Sequential(m))[0]
    else:
        q = ff.quantize_model(m)
    check(q is m, "same-object", case)
    check(isinstance(q, ff.nn.QuantizedModule) and isinstance(q, getattr(nn, case["type"])), "type", type(q))
    check({n: id(p) for n, p in q.named_parameters()} == params, "parameters", case)
    check({n: id(b) for n, b in q.named_buffers()} == buffers, "buffers", case)
    check(list(q.state_dict()) == state, "state-dict", case)
    check(q.training == (not case["eval"]), "training", case)
    check(q.custom_attribute is marker, "attributes", case)
    for key, value in before.items():
        if key in PLAIN:
            continue
        check(key in q.__dict__, "attributes", key)
        check(q.__dict__[key] is value or q.__dict__[key] == value, "attributes", key)
    n = 0
    for x in inputs(case, m):
        with ff.strict_quantization(False):
            for i in range(2):
                calls.clear()
                y, gy = grads(q, x)
                r, gr = grads(ref, x)
                n += 1
                check(calls == ["p", "f"], "hooks", calls)
                check(same(y, r, 1e-6), "float-output", lambda: f"{case} {x.shape}: {y} {r}")
                check(all(same(a, b, 1e-5) for a, b in zip(gy, gr)), "float-gradient", lambda: f"{case}: {gy} {gr}")
        for a, b in zip(q.parameters(), ref.parameters()):
            check(torch.equal(a, b), "parameter-value", case)
    return Stats(states=n, transitions=n, outcome=[case["type"], str(case["kwargs"])])


def gen_module(tier):
    for c in configs(tier):
        for double in (False, True):
            for ev, frozen, conv in ((False, False, False), (True, False, True), (False, True, True)):
                if tier == "quick" and double and conv:
                    continue
                yield {**c, "double": double, "eval": ev, "frozen": frozen, "double_convert": conv}


SLOTS = ["input_quantizer", "weight_quantizer", "bias_quantizer", "output_quantizer"]


def quantizer_for(slot, granularity, value):
    q = ff.nn.LinearQuantizer(8 if slot == "bias_quantizer" else 4, symmetric=slot == "weight_quantizer", granularity=granularity)
    return q


def fake(q, x):
    y = q(x)
    return y.dequantize()


def run_slots(case):
    """Every subset of active quantizers equals the float module on fake-quantized operands."""
    ref = build(case)
    q = ff.quantize_model(copy.deepcopy(ref))
    slots = [s for s in SLOTS if getattr(q, s, None) is not None]
    n = 0
    for active in itertools.chain.from_iterable(itertools.combinations(slots, k) for k in range(len(slots) + 1)):
        for x in inputs(case, ref):
            q = ff.quantize_model(copy.deepcopy(ref))
            r = copy.deepcopy(ref)
            quants = {}
            for slot in active:
                gran = ff.PerTensor()
                if slot == "weight_quantizer" and case["channel"] and case["type"] != "LayerNorm":
                    gran = ff.PerChannel(0)
                if slot == "input_quantizer" and case["channel"] and case["type"].startswith("Conv") and x.ndim == ref.weight.ndim:
                    gran = ff.PerChannel(1)
                quant = quantizer_for(slot, gran, None)
                d = gran.parameter_dimensionality(ref.weight.shape if slot == "weight_quantizer" else x.shape) if gran != ff.PerTensor() else 1
                quant.quantization_range = (torch.full((d,), -3.0) - torch.arange(d), torch.full((d,), 3.5))
                setattr(q, slot, quant)
                quants[slot] = quant
            with torch.no_grad(), ff.strict_quantization(False):
                for slot, p in (("weight_quantizer", "weight"), ("bias_quantizer", "bias")):
                    if slot in quants and getattr(r, p, None) is not None:
                        getattr(r, p).copy_(fake(quants[slot], getattr(r, p)))
                xin = fake(quants["input_quantizer"], x) if "input_quantizer" in quants else x
                want = r(xin.clone())
                if "output_quantizer" in quants:
                    want = fake(quants["output_quantizer"], want)
                fresh = copy.deepcopy(q)
                got = q(x)
                n += 1
                check(isinstance(got, ff.QuantizedTensor) == ("output_quantizer" in quants), "output-kind", case)
                got = got.dequantize() if isinstance(got, ff.QuantizedTensor) else got
                check(same(got, want, 1e-5), "slots", lambda: f"{case} {active} {list(x.shape)}: {got} {want}")
                q = copy.deepcopy(fresh)
                with ff.disable_quantization(q):
                    got = q(x)
                check(same(got, ref_out(ref, x), 1e-6), "disabled", lambda: f"{case} {active}")
            if set(active) == set(slots):
                with torch.no_grad(), ff.strict_quantization(True):
                    if case["type"] == "LayerNorm" and getattr(ref, "bias", None) is None:
                        continue
                    got = copy.deepcopy(fresh)(x)
                check(same(got.dequantize(), want, 1e-5), "strict", case)
    return Stats(states=n, transitions=n, outcome=[case["type"], str(case["kwargs"]), case["channel"]])


def ref_out(ref, x):
    with torch.no_grad():
        return copy.deepcopy(ref)(x.clone())


def gen_slots(tier):
    for c in configs("quick"):
        if c["type"] == "Conv1d" and tier == "quick" and not c["kwargs"]["bias"]:
            continue
        if c["type"] == "Conv1d" and tier == "quick" and (c["args"][2] == 1 or (c["kwargs"]["groups"] == 2 and c["kwargs"]["dilation"] == 2)):
            continue
        for channel in (False, True):
            if tier == "quick" and channel and c["type"] in ("ReLU", "SiLU", "LayerNorm"):
                continue
            yield {**c, "channel": channel}


# --- trees -----------------------------------------------------------------------------------
class Block(nn.Module):
    """User-defined container without a quantized counterpart."""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner
        self.flag = [1]

    def forward(self, x):
        return self.inner(x) + 1


class Bad(nn.Module):
    def forward(self, x):
        return x * 2


def plain():
    p = nn.Module()
    p.lin = nn.Linear(2, 2)
    p.forward = p.lin.forward
    return p


def make_pool():
    lin = nn.Linear(2, 2)
    s1 = nn.Sequential(lin)
    relu = nn.ReLU()
    pool = {
        "lin": lin,
        "relu": relu,
        "s_lin": s1,
        "s_both": nn.Sequential(relu, lin, nn.LayerNorm(2)),
        "s_s": nn.Sequential(s1, s1),
        "block": Block(lin),
        "bad": Bad(),
        "s_bad": nn.Sequential(nn.Sequential(Bad())),
        "plain": plain(),
        "qlin": ff.nn.QuantizedLinear(2, 2),
        "s_qlin": nn.Sequential(ff.nn.QuantizedLinear(2, 2)),
    }
    for m in pool.values():
        for p in m.parameters():
            with torch.no_grad():
                p.copy_(torch.linspace(-1, 1, p.numel()).reshape(p.shape))
    return pool


class Dict(nn.ModuleDict):
    pass


def build_tree(case):
    pool = make_pool()
    kids = [pool[k] for k in case["kids"]]
    if case["root"] == "Sequential":
        return nn.Sequential(*kids)
    if case["root"] == "ModuleDict":
        return nn.ModuleDict({f"m{i}": k for i, k in enumerate(kids)})
    if case["root"] == "ModuleList":
        return nn.ModuleList(kids)
    raise AssertionError


def run_model(root, case, x):
    if case["root"] == "Sequential":
        y = root(x)
    else:
        y = x
        for m in root.values() if case["root"] == "ModuleDict" else root:
            y = m(y)
    return y


def snapshot(m):
    return [
        (n, id(x), type(x), sorted(x.__dict__), [(k, id(p)) for k, p in x._parameters.items()], [(k, id(c)) for k, c in x._modules.items()], x.training)
        for n, x in m.named_modules(remove_duplicate=False)
    ]


def structure(m):
    """Everything but quantizers."""
    return [
        (n, id(x), [(k, id(p)) for k, p in x.named_parameters(recurse=False)], x.training)
        for n, x in m.named_modules(remove_duplicate=False)
        if not isinstance(x, ff.nn.Quantizer)
    ]


def run_tree(case):
    m = build_tree(case)
    if case["eval"]:
        m.eval()
        m[0].train() if case["root"] != "ModuleDict" else None
    x = torch.tensor([[0.5, -1.0], [2.0, 0.25]])
    with torch.no_grad(), ff.strict_quantization(False):
        want = run_model(m, case, x)
    conversion = None
    supported = set(ff.quantized_module_map())
    types = {type(c) for c in m.modules() if not isinstance(c, ff.nn.Quantizer)}
    keep = set()
    if case["conversion"] == "surrogate":
        conversion = ff.surrogate_quantized_modules(m)
        if case["skip"]:
            supported |= types
        else:
            supported |= {t for t in types if not issubclass(t, ff.nn.QuantizedModule)}
    elif case["conversion"] == "skip":
        conversion = {Bad: SKIP_QUANTIZATION, nn.ReLU: SKIP_QUANTIZATION}
        supported |= {Bad}
        keep = {Bad, nn.ReLU}
    bad = {t for t in types if t not in supported and not (case["skip"] and issubclass(t, ff.nn.QuantizedModule))}
    before, shape = snapshot(m), structure(m)
    try:
        out = ff.quantize_model(m, extra_conversion=conversion, skip_quantized_modules=case["skip"])
    except QuantizationError as e:
        check(bool(bad), "refused", lambda: f"{case}: {e}")
        check(snapshot(m) == before, "half-converted", case)
        for t in bad:
            check(t.__qualname__ in str(e), "report", lambda: f"{case}: {t} not in {e}")
        return Stats(outcome="refused")
    check(not bad, "accepted", lambda: f"{case}: {bad}")
    check(out is m, "same-object", case)
    check(structure(m) == shape, "structure", lambda: f"{case}: {shape} {structure(m)}")
    classes = {i: t for _, i, t, *_ in before}
    for c in m.modules():
        if isinstance(c, ff.nn.Quantizer):
            continue
        original = classes[id(c)]
        if original in keep:
            check(type(c) is original, "skipped-converted", case)
        else:
            check(isinstance(c, ff.nn.QuantizedModule) and isinstance(c, original), "converted", lambda: f"{case}: {original} {type(c)}")
    with torch.no_grad(), ff.strict_quantization(False):
        got = run_model(m, case, x)
    check(same(got, want, 1e-6), "output", case)
    # converting again
    after = snapshot(m)
    ff.quantize_model(m, extra_conversion={**(conversion or {}), **({nn.ReLU: SKIP_QUANTIZATION} if keep else {})}, skip_quantized_modules=True)
    check(snapshot(m) == after, "idempotent", case)
    try:
        ff.quantize_model(m, extra_conversion=conversion)
    except QuantizationError:
        check(snapshot(m) == after, "reconversion", case)
    else:
        check(False, "reconversion-accepted", case)
    return Stats(states=4, transitions=4, outcome=[case["kids"], case["conversion"]])


def gen_tree(tier):
    pool = list(make_pool())
    for root in ("Sequential", "ModuleDict", "ModuleList"):
        for n in (1, 2, 3):
            if tier == "quick" and n == 3 and root != "Sequential":
                continue
            for kids in itertools.product(pool, repeat=n):
                for conversion in ("none", "surrogate", "skip"):
                    for skip in (False, True):
                        for ev in (False, True):
                            if ev and n == 3 and tier == "quick":
                                continue
                            yield {"root": root, "kids": list(kids), "conversion": conversion, "skip": skip, "eval": ev}


# --- slots and metadata ----------------------------------------------------------------------
def run_registry(case):
    m = ff.nn.QuantizedLinear(3, 2)
    slots = ["input_quantizer", "weight_quantizer"]
    pool = {
        "a": ff.nn.LinearQuantizer(2),
        "b": ff.nn.LinearQuantizer(3),
        "stub": ff.nn.QuantizerStub(),
        "stub_extra": ff.nn.QuantizerStub("mine", extra=3),
        "none": None,
    }
    module_tags = {s: getattr(m, s).quant_metadata for s in slots}
    current = {s: getattr(m, s) for s in slots}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for op in case["ops"]:
            slot, _, name = op.partition("=")
            q = pool[name]
            if name == "none":
                m.register_quantizer(slot, None)
            elif case["how"] == "attribute":
                setattr(m, slot, q)
            else:
                m.register_quantizer(slot, q)
            current[slot] = q
            for s in slots:
                check(getattr(m, s) is current[s], "slot", case)
            if q is not None:
                meta = q.quant_metadata
                check(meta.weight_quantizer == (slot == "weight_quantizer"), "metadata", lambda: f"{case}: {meta}")
                check(meta.input_quantizer == (slot == "input_quantizer"), "metadata", lambda: f"{case}: {meta}")
                check((meta.shape is not None) == (slot == "weight_quantizer"), "metadata-shape", lambda: f"{case}: {meta}")
            active = [(s, q) for s, q in current.items() if q is not None and not q.is_stub()]
            got = list(m.named_quantizers())
            check({n for n, _ in got} <= {s for s, _ in active} and {id(q) for _, q in got} == {id(q) for _, q in active}, "named", lambda: f"{case}: {got}")
            check(len(got) == len({id(q) for _, q in active}), "named-once", case)
            everything = dict(m.named_quantizers(remove_duplicate=False, skip_stubs=False, prefix="root"))
            expected = {f"root.{s}": q for s, q in current.items() if q is not None}
            expected.update({f"root.{s}": getattr(m, s) for s in ("bias_quantizer", "output_quantizer")})
            check(everything == expected, "named-all", lambda: f"{case}: {everything}")
            check(list(m.quantizers()) == [q for _, q in got], "quantizers", case)
            direct = dict(m.named_quantizers(recurse=False, remove_duplicate=False, skip_stubs=False))
            check(set(direct.values()) == set(expected.values()), "named-direct", case)
    return Stats(states=len(case["ops"]), transitions=len(case["ops"]), outcome=case["ops"])


def gen_registry(tier):
    ops = [f"{s}={q}" for s in ("input_quantizer", "weight_quantizer") for q in ("a", "b", "stub", "stub_extra", "none")]
    for how in ("attribute", "register"):
        for seq in itertools.product(ops, repeat=3 if tier == "quick" else 4):
            yield {"ops": list(seq), "how": how}


# --- the module map --------------------------------------------------------------------------
def run_map(case):
    import fastforward.nn.conv as conv
    import fastforward.nn.linear as linear

    mods = {"conv": conv, "linear": linear, "nn": ff.nn, "self": __import__(__name__, fromlist=["x"])}
    full = ff.quantized_module_map()

    def names():
        return set(ff.quantized_module_map())

    def expect(sel):
        if sel is None:
            return set(full)
        out = set()
        for t, q in full.items():
            for s in sel:
                base = mods[s].__name__
                if q.__module__ == base or q.__module__.startswith(base + "."):
                    out.add(t)
        return out

    def nest(selections, outer):
        check(names() == expect(outer), "map", lambda: f"{case}: {names()}")
        if not selections:
            if case["fail"]:
                raise KeyError("stop")
            return
        with ff.nn.quantized_module.filter_quantized_module_map(*[mods[s] for s in selections[0]]):
            nest(selections[1:], selections[0])
        check(names() == expect(outer), "map-restored", case)

    try:
        nest(case["nest"], None)
        check(not case["fail"], "exception-swallowed", case)
    except KeyError:
        check(case["fail"], "exception", case)
    check(ff.quantized_module_map() == full, "map-restored", case)
    return Stats(states=len(case["nest"]) + 1, outcome=case["nest"])


def gen_map(tier):
    sels = [[], ["conv"], ["linear"], ["nn"], ["conv", "linear"], ["self"]]
    for n in range(4):
        for seq in itertools.product(sels, repeat=n):
            for fail in (False, True):
                yield {"nest": list(seq), "fail": fail}


FAMILIES = [
    Family("modules", gen_module, run_module, rule="all constructor options of all supported modules x dtype x mode"),
    Family("slots", gen_slots, run_slots, rule="all module configurations x all subsets of active quantizers"),
    Family("trees", gen_tree, run_tree, rule="all module graphs over a pool of shared, unsupported and converted modules x options"),
    Family("registry", gen_registry, run_registry, rule="all assignment sequences to quantizer slots"),
    Family("map", gen_map, run_map, rule="all nestings of map filters"),
]
