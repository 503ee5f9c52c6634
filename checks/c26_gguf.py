"""C26: block-packed weight files decode to the quantized weights of the model."""

from __future__ import annotations

import itertools
import pathlib
import tempfile

from types import SimpleNamespace

import gguf
import numpy as np
import torch

import fastforward as ff

from fastforward.export.pipeline import ExportRequest, GgufLlamaCppOptions, export_with_pipeline
from fastforward.export.stages.gguf import (
    GGUF_Q4_0,
    GGUF_Q8_0,
    LLAMA_ADAPTER,
    QWEN2_ADAPTER,
    QWEN3_ADAPTER,
    ArchAdapter,
)
from fastforward.nn.linear import QuantizedLinear

from mc.harness import Family, Stats, check, digest

PROP = "C26"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of codes, positions, scales, quantizer configurations and model layouts; every written file is read back and decoded by the definition of the block formats"
ASSUMPTIONS = [
    "scales are stored in half precision by the formats: they are compared after rounding to half precision",
    "the 8-bit format documents that the code -128 is stored as -127",
    "weights without an initialised linear quantizer are exported as floating point (documented)",
    "tied embeddings are one tensor with one quantizer",
]

torch.set_num_threads(1)
FORMATS = {"Q4_0": GGUF_Q4_0, "Q8_0": GGUF_Q8_0}
BLOCK = 32


# --------------------------------------------------------------------------- reference decoder


def decode(fmt, raw):
    """Decode (n_blocks, block_bytes) uint8 by the format definition -> scales (float), codes (int)."""
    raw = np.ascontiguousarray(raw, dtype=np.uint8)
    d = raw[:, :2].copy().view("<f2").astype(np.float64)[:, 0]
    body = raw[:, 2:]
    if fmt == "Q4_0":
        assert body.shape[1] == 16
        codes = np.empty((raw.shape[0], 32), dtype=np.int64)
        codes[:, :16] = (body & 15).astype(np.int64) - 8
        codes[:, 16:] = (body >> 4).astype(np.int64) - 8
    else:
        assert body.shape[1] == 32
        codes = body.copy().view(np.int8).astype(np.int64)
    return d, codes


def code_range(fmt):
    return (-8, 7) if fmt == "Q4_0" else (-128, 127)


def stored(fmt, codes):
    codes = np.asarray(codes, dtype=np.int64)
    return np.maximum(codes, -127) if fmt == "Q8_0" else codes


def pack_and_compare(fmt, codes, scales, what):
    before = (codes.clone(), scales.clone())
    packed = FORMATS[fmt].pack_fn(codes, scales)
    check(torch.equal(codes, before[0]) and torch.equal(scales, before[1]), "pack:changes-input", what)
    check(packed.dtype == torch.uint8 and packed.shape[0] == codes.shape[0], "pack:shape", f"{what} {packed.shape}")
    d, c = decode(fmt, packed.numpy())
    want_d = scales.double().numpy().astype(np.float32).astype(np.float16).astype(np.float64)
    check(np.array_equal(d, want_d), "pack:scales", lambda: f"{what}: scales {want_d} decoded as {d}")
    want_c = stored(fmt, codes.double().numpy())
    check(np.array_equal(c, want_c), "pack:codes", lambda: f"{what}: codes {want_c[c != want_c][:4]} decoded as {c[c != want_c][:4]} at {np.argwhere(c != want_c)[:3].tolist()}")
    lib = gguf.quants.dequantize(np.ascontiguousarray(packed.numpy()), gguf.GGMLQuantizationType[fmt])
    check(np.array_equal(lib.astype(np.float32), (d[:, None] * c).astype(np.float32)), "pack:library-decoder", what)


# --------------------------------------------------------------------------- family: packing


def gen_packing(tier):
    for fmt in FORMATS:
        lo, hi = code_range(fmt)
        for p in range(BLOCK):
            yield {"kind": "position", "fmt": fmt, "p": p}
        for part in range(8):
            yield {"kind": "scales", "fmt": fmt, "part": part}
        for layout in ("plain", "transposed", "strided", "expanded", "row"):
            for dt in ("int8", "int16", "int32", "int64", "float32"):
                yield {"kind": "layout", "fmt": fmt, "layout": layout, "dtype": dt}
        if fmt == "Q4_0":
            for j in range(16):
                yield {"kind": "pairs", "fmt": fmt, "j": j}


def run_packing(case):
    fmt = case["fmt"]
    lo, hi = code_range(fmt)
    n = 0
    if case["kind"] == "position":
        # every code at this position, on every constant background in {lo, -1, 0, 1, hi}
        codes = torch.arange(lo, hi + 1, dtype=torch.int8)
        for bg in (lo, -1, 0, 1, hi):
            block = torch.full((codes.numel(), BLOCK), bg, dtype=torch.int8)
            block[:, case["p"]] = codes
            pack_and_compare(fmt, block, torch.linspace(0.25, 1.25, codes.numel()), f"code at position {case['p']} background {bg}")
            n += codes.numel()
    elif case["kind"] == "pairs":
        # all pairs of codes that share a byte
        a, b = torch.meshgrid(torch.arange(lo, hi + 1), torch.arange(lo, hi + 1), indexing="ij")
        block = torch.zeros(a.numel(), BLOCK, dtype=torch.int8)
        block[:, case["j"]] = a.reshape(-1).to(torch.int8)
        block[:, case["j"] + 16] = b.reshape(-1).to(torch.int8)
        pack_and_compare(fmt, block, torch.full((a.numel(),), 0.5), f"pair in byte {case['j']}")
        n += a.numel()
    elif case["kind"] == "scales":
        bits = np.arange(case["part"] * 8192, (case["part"] + 1) * 8192, dtype=np.uint16)
        halves = bits.view(np.float16)
        halves = halves[np.isfinite(halves)].astype(np.float32)
        # exact halves, and singles strictly between two halves
        scales = torch.from_numpy(np.concatenate([halves, np.nextafter(halves, np.float32(0)), halves * np.float32(1.00030)]))
        scales = scales[scales.abs() < 65519]
        codes = (torch.arange(scales.numel() * BLOCK).reshape(-1, BLOCK) % (hi - lo + 1) + lo).to(torch.int8)
        pack_and_compare(fmt, codes, scales, "scales")
        n += scales.numel()
    else:
        dt = getattr(torch, case["dtype"])
        base = (torch.arange(5 * BLOCK).reshape(5, BLOCK) * 7 % (hi - lo + 1) + lo).to(dt)
        scales = torch.tensor([0.5, 0.25, 2.0, 1.0, 0.125])
        if case["layout"] == "transposed":
            base = base.t().contiguous().t()
        elif case["layout"] == "strided":
            base = torch.stack([base, -base], dim=-1).reshape(5, 2 * BLOCK)[:, ::2]
            scales = torch.stack([scales, -scales], dim=-1).reshape(-1)[::2]
        elif case["layout"] == "expanded":
            base, scales = base[:1].expand(5, BLOCK), scales[:1].expand(5)
        elif case["layout"] == "row":
            base, scales = base[:1], scales[:1]
        pack_and_compare(fmt, base, scales, f"{case['layout']} {case['dtype']}")
        n += base.shape[0]
    return Stats(states=n, transitions=n, traces=1, outcome="ok")


# --------------------------------------------------------------------------- files


def accept(hf_name):
    return hf_name if "quantizer" not in hf_name else None


def plain_adapter(**kw):
    args = dict(gguf_arch="test", name_map=accept, transforms=[], write_metadata=lambda w, c: None, tokenizer_model="gpt2", tokenizer_pre="default")
    args.update(kw)
    return ArchAdapter(**args)


def config(**kw):
    base = dict(max_position_embeddings=64, hidden_size=64, num_hidden_layers=1, intermediate_size=96, num_attention_heads=4, num_key_value_heads=2,
                rope_theta=10000.0, rms_norm_eps=1e-5, vocab_size=64, tie_word_embeddings=False, rope_scaling=None)
    base.update(kw)
    return SimpleNamespace(**base)


def snapshot(model):
    return {k: (v.data_ptr(), v.dtype, v.detach().clone()) for k, v in itertools.chain(model.named_parameters(remove_duplicate=False), model.named_buffers())
            if not isinstance(v, torch.nn.parameter.UninitializedTensorMixin)}


def same_snapshot(a, b):
    return a.keys() == b.keys() and all(a[k][0] == b[k][0] and a[k][1] == b[k][1] and torch.equal(torch.nan_to_num(a[k][2], nan=123.0), torch.nan_to_num(b[k][2], nan=123.0)) for k in a)


def export(model, fmt, adapter, cfg, directory, tokenizer=None):
    options = GgufLlamaCppOptions(arch_adapter=adapter, quant_format=FORMATS[fmt], model_config=cfg, tokenizer=tokenizer)
    artifacts = export_with_pipeline(
        ExportRequest(model=model, sample_inputs=[], output_dir=pathlib.Path(directory), model_name="m", target="gguf", format="llama_cpp", options=options.to_context())
    )
    path = artifacts.stage_outputs["write_gguf"]
    check(pathlib.Path(path) == pathlib.Path(directory) / "m.gguf", "file:path", str(path))
    return gguf.GGUFReader(str(path))


def raw_bytes(t):
    return np.asarray(t.data).reshape(-1).view(np.uint8)


FLOATS = {"F32": np.dtype("<f4"), "F16": np.dtype("<f2"), "F64": np.dtype("<f8")}


def float_values(t):
    kind = t.tensor_type.name
    raw = raw_bytes(t)
    if kind == "BF16":
        return (raw.view("<u2").astype(np.uint32) << 16).view(np.float32).astype(np.float64)
    return raw.view(FLOATS[kind]).astype(np.float64)


def read_tensors(reader):
    names = [t.name for t in reader.tensors]
    check(len(names) == len(set(names)), "file:duplicate-names", str(names))
    return {t.name: t for t in reader.tensors}


def expect_quantized(t, fmt, quantizer, weight, order, what):
    """The stored tensor is `weight` as quantized by `quantizer`, rows in `order`."""
    check(t.tensor_type.name == fmt, "file:type", f"{what}: stored as {t.tensor_type.name}")
    rows, cols = weight.shape
    check([int(v) for v in t.shape] == [cols, rows], "file:shape", f"{what}: {t.shape} for {tuple(weight.shape)}")
    block_bytes = 18 if fmt == "Q4_0" else 34
    d, c = decode(fmt, raw_bytes(t).reshape(-1, block_bytes))
    with torch.no_grad():
        deq = quantizer(weight).dequantize().double()
    idx = torch.arange(rows) if order is None else order
    deq = deq[idx].reshape(-1, BLOCK).numpy()
    scale = quantizer.scale.detach().float()
    scale = (scale.expand(rows * cols // BLOCK) if scale.numel() == 1 else scale).reshape(rows, cols // BLOCK)[idx].reshape(-1)
    half = scale.numpy().astype(np.float16).astype(np.float64)
    check(np.array_equal(d, half), "file:scales", lambda: f"{what}: decoded scales {d[d != half][:3]} instead of {half[d != half][:3]}")
    want = stored(fmt, np.rint(deq / scale.double().numpy()[:, None]))
    check(np.array_equal(c, want), "file:codes", lambda: f"{what}: decoded codes {c[c != want][:4]} instead of {want[c != want][:4]}")


def expect_float(t, kind, value, order, what):
    check(t.tensor_type.name == kind, "file:float-type", f"{what}: {t.tensor_type.name} instead of {kind}")
    check([int(v) for v in t.shape] == list(reversed(value.shape)), "file:shape", f"{what}: {t.shape} for {tuple(value.shape)}")
    value = value.detach() if order is None else value.detach()[order]
    dt = {"F32": torch.float32, "F16": torch.float16, "F64": torch.float64, "BF16": torch.bfloat16}[kind]
    want = value.float().to(dt).double().reshape(-1).numpy()
    got = float_values(t)
    check(np.array_equal(got, want), "file:float-values", lambda: f"{what}: {got[:4]} instead of {want[:4]}")


# --------------------------------------------------------------------------- family: quantizers


class Net(torch.nn.Module):
    def __init__(self, linear):
        super().__init__()
        self.proj = linear


def to_quantized(linear):
    linear.__class__ = QuantizedLinear
    linear.__init_quantization__()
    return linear


G = ff.granularity
GRANS = {
    "block32": lambda: G.PerBlock(block_dims=1, block_sizes=32, per_channel_dims=0),
    "block32-neg": lambda: G.PerBlock(block_dims=-1, block_sizes=32, per_channel_dims=-2),
    "block32-negblock": lambda: G.PerBlock(block_dims=-1, block_sizes=32, per_channel_dims=0),
    "block32-loose": lambda: G.PerBlock(block_dims=1, block_sizes=32, per_channel_dims=0, strict_blocks=False),
    "block32-nochannel": lambda: G.PerBlock(block_dims=1, block_sizes=32),
    "block32-rows": lambda: G.PerBlock(block_dims=0, block_sizes=32, per_channel_dims=1),
    "block2x32": lambda: G.PerBlock(block_dims=(0, 1), block_sizes=(2, 32)),
    "block1x32": lambda: G.PerBlock(block_dims=(0, 1), block_sizes=(1, 32)),
    "block16": lambda: G.PerBlock(block_dims=1, block_sizes=16, per_channel_dims=0),
    "block64": lambda: G.PerBlock(block_dims=1, block_sizes=64, per_channel_dims=0),
    "tensor": lambda: G.PerTensor(),
    "channel0": lambda: G.PerChannel(0),
    "channel1": lambda: G.PerChannel(1),
    "tile": lambda: G.PerTile((1, 32)),
}
SHAPES = {"4x64": (4, 64), "1x32": (1, 32), "32x32": (32, 32), "3x96": (3, 96), "2x48": (2, 48), "2x16": (2, 16)}
DATA = ("mixed", "positive", "negative", "zeros", "onezero")


def weight_data(kind, shape):
    n = shape[0] * shape[1]
    base = (torch.arange(n, dtype=torch.float32) * 37 % 61 - 30) / 16
    if kind == "positive":
        base = base.abs() + 0.125
    elif kind == "negative":
        base = -base.abs() - 0.125
    elif kind == "zeros":
        base = torch.zeros(n)
    base = base.reshape(shape).clone()
    if kind == "onezero":
        base[0, : min(32, shape[1])] = 0
    return base


def gen_quantizers(tier):
    thorough = tier == "thorough"
    # granularity x shape x bits x format
    for gran, shape, fmt in itertools.product(GRANS, SHAPES, FORMATS):
        for bits in ((2, 3, 4, 8) if thorough else (4, 8)):
            yield dict(gran=gran, shape=shape, fmt=fmt, bits=bits, sym=True, onesided=True, data="mixed", init="range", dtype="float32", over="none")
    # bits x symmetry x one-sided x data x initialisation x dtype, for the supported granularity
    for fmt, bits, (sym, onesided), data, init in itertools.product(FORMATS, (3, 4, 5, 8), ((True, True), (True, False), (False, True)), DATA, ("range", "estimate")):
        for dtype in (("float32", "float64", "bfloat16", "float16") if thorough else ("float32",)):
            yield dict(gran="block32", shape="4x64", fmt=fmt, bits=bits, sym=sym, onesided=onesided, data=data, init=init, dtype=dtype, over="none")
    # parameters assigned by hand
    for fmt, init in itertools.product(FORMATS, ("offset0", "offset3", "offset-blocks", "negative-scale", "scalar-scale", "huge-scale", "inf-scale", "nan-scale", "tiny-scale", "saturate")):
        for dtype in ("float32", "float64", "bfloat16"):
            yield dict(gran="block32", shape="4x64", fmt=fmt, bits=4 if fmt == "Q4_0" else 8, sym=True, onesided=True, data="mixed", init=init, dtype=dtype, over="none")
    # kinds of quantizers and what is attached to them
    for fmt, over in itertools.product(FORMATS, ("stub", "uninit", "uninit-used", "subclass", "shared", "noncontiguous", "frozen", "bias", "strict", "quantized-bias")):
        for dtype in ("float32", "bfloat16", "float16", "float64"):
            yield dict(gran="block32", shape="4x64", fmt=fmt, bits=4 if fmt == "Q4_0" else 8, sym=True, onesided=True, data="mixed", init="range", dtype=dtype, over=over)


class Custom(ff.nn.LinearQuantizer):
    pass


def build_linear(case):
    shape = SHAPES[case["shape"]]
    dtype = getattr(torch, case["dtype"])
    linear = torch.nn.Linear(shape[1], shape[0], bias=case["over"] in ("bias", "quantized-bias"))
    linear.weight = torch.nn.Parameter(weight_data(case["data"], shape))
    if linear.bias is not None:
        linear.bias = torch.nn.Parameter(torch.arange(shape[0]) / 8)
    linear = linear.to(dtype)
    if case["over"] == "noncontiguous":
        linear.weight = torch.nn.Parameter(linear.weight.data.t().contiguous().t())
    return to_quantized(linear)


def init_quantizer(case, linear):
    over = case["over"]
    if over == "stub":
        return None
    cls = Custom if over == "subclass" else ff.nn.LinearQuantizer
    q = cls(num_bits=case["bits"], granularity=GRANS[case["gran"]](), symmetric=case["sym"], allow_one_sided=case["onesided"])
    linear.weight_quantizer = q
    if over == "quantized-bias":
        linear.bias_quantizer = ff.nn.LinearQuantizer(num_bits=case["bits"], granularity=G.PerTensor(), symmetric=True)
        linear.bias_quantizer.quantization_range = (-1.0, 1.0)
    if over in ("uninit", "uninit-used"):
        return None
    w = linear.weight.detach()
    init = case["init"]
    if init == "estimate":
        with ff.estimate_ranges(linear.weight_quantizer, ff.range_setting.running_minmax), torch.no_grad():
            q(linear.weight)
        return q
    gran = GRANS[case["gran"]]()
    tile = gran.tile_size(w.shape)
    rows = ff.quantization.tiled_tensor.tiles_to_rows(w, tile)
    q.quantization_range = (rows.amin(1), rows.amax(1))
    n = rows.shape[0]
    with torch.no_grad():
        if init == "offset0":
            q.offset = torch.nn.Parameter(torch.zeros_like(q.scale))
        elif init == "offset3":
            q.offset = torch.nn.Parameter(torch.full_like(q.scale, 3))
        elif init == "offset-blocks":
            q.offset = torch.nn.Parameter(torch.arange(n).to(q.scale) % 3 - 1)
        elif init == "negative-scale":
            q.scale.data = q.scale.data * torch.where(torch.arange(n) % 2 == 0, 1.0, -1.0).to(q.scale)
        elif init == "scalar-scale":
            q.scale = torch.nn.Parameter(torch.tensor([0.25], dtype=q.scale.dtype))
            if q.offset is not None:
                q.offset = torch.nn.Parameter(torch.zeros(1, dtype=q.scale.dtype))
        elif init in ("huge-scale", "inf-scale", "nan-scale", "tiny-scale"):
            value = {"huge-scale": 70000.0, "inf-scale": float("inf"), "nan-scale": float("nan"), "tiny-scale": 1e-5}[init]
            q.scale.data[1] = value
        elif init == "saturate":
            q.scale.data = q.scale.data / 4
    if over == "frozen":
        for p in q.parameters():
            p.requires_grad_(False)
    return q


def run_quantizers(case):
    fmt, over = case["fmt"], case["over"]
    shape = SHAPES[case["shape"]]
    try:
        linear = build_linear(case)
        q = init_quantizer(case, linear)
        with torch.no_grad():
            if q is not None:
                q(linear.weight)
    except Exception:  # noqa: BLE001 - the configuration itself is not usable
        return Stats(states=1, transitions=0, traces=0, outcome="unusable")
    model = Net(linear)
    if over == "shared":
        other = build_linear(dict(case, data="onezero"))
        other.weight_quantizer = q
        model.other = other
    before = snapshot(model)
    what = f"{case['gran']} {case['shape']} bits={case['bits']} sym={case['sym']} {case['data']} {case['init']} {case['dtype']} {over} as {fmt}"
    with tempfile.TemporaryDirectory() as directory:
        try:
            reader = export(model, fmt, plain_adapter(), config(), directory)
        except Exception as e:  # noqa: BLE001
            reader, error = None, e
        check(same_snapshot(before, snapshot(model)), "export:changes-model", what)
        if reader is None:
            must = (
                case["gran"] == "block32" and case["sym"] and case["bits"] == (4 if fmt == "Q4_0" else 8) and shape[1] % 32 == 0
                and case["init"] in ("range", "estimate", "tiny-scale", "saturate") and (not case["onesided"] or case["data"] in ("mixed", "onezero") or over in ("stub", "uninit", "uninit-used"))
            )
            check(not must, "export:refuses-supported", lambda: f"{what}: {type(error).__name__}: {error}")
            return Stats(states=1, transitions=1, traces=1, outcome=f"refused:{type(error).__name__}")
        tensors = read_tensors(reader)
        wanted = {"proj.weight"} | ({"proj.bias"} if linear.bias is not None else set()) | ({"other.weight"} if over == "shared" else set())
        check(set(tensors) == wanted, "file:names", f"{what}: {set(tensors)} instead of {wanted}")
        for name in ("proj", "other") if over == "shared" else ("proj",):
            m = getattr(model, name)
            t = tensors[f"{name}.weight"]
            if q is None:
                expect_float(t, "F32", m.weight, None, f"{what} {name}")
            else:
                expect_quantized(t, fmt, q, m.weight.detach(), None, f"{what} {name}")
                # independent of codes: the decoded values are what the model computes with
                d, c = decode(fmt, raw_bytes(t).reshape(-1, 18 if fmt == "Q4_0" else 34))
                with torch.no_grad():
                    deq = q(m.weight).dequantize().double().reshape(-1, BLOCK).numpy()
                step = np.abs(d)[:, None]
                tol = step * (1.0 if fmt == "Q8_0" else 1e-6) + np.abs(deq) * (2.0**-10 if case["dtype"] != "bfloat16" else 2.0**-7) + 2.0**-14
                check(bool((np.abs(d[:, None] * c - deq) <= tol).all()), "file:values", lambda: f"{what}: worst {np.abs(d[:, None] * c - deq).max()}")
        if linear.bias is not None:
            expect_float(tensors["proj.bias"], "F32", linear.bias, None, what)
    return Stats(states=1, transitions=len(wanted), traces=1, outcome="written")


# --------------------------------------------------------------------------- family: architectures


class Attention(torch.nn.Module):
    def __init__(self, h, heads, kv, bias, norm):
        super().__init__()
        d = h // heads
        self.q_proj = torch.nn.Linear(h, heads * d, bias=bias)
        self.k_proj = torch.nn.Linear(h, kv * d, bias=bias)
        self.v_proj = torch.nn.Linear(h, kv * d, bias=bias)
        self.o_proj = torch.nn.Linear(heads * d, h, bias=False)
        if norm:
            self.q_norm = torch.nn.RMSNorm(d)
            self.k_norm = torch.nn.RMSNorm(d)


class Mlp(torch.nn.Module):
    def __init__(self, h, inter):
        super().__init__()
        self.gate_proj = torch.nn.Linear(h, inter, bias=False)
        self.up_proj = torch.nn.Linear(h, inter, bias=False)
        self.down_proj = torch.nn.Linear(inter, h, bias=False)


class Layer(torch.nn.Module):
    def __init__(self, h, inter, heads, kv, bias, norm):
        super().__init__()
        self.input_layernorm = torch.nn.RMSNorm(h)
        self.self_attn = Attention(h, heads, kv, bias, norm)
        self.post_attention_layernorm = torch.nn.RMSNorm(h)
        self.mlp = Mlp(h, inter)


class LM(torch.nn.Module):
    def __init__(self, vocab, h, inter, n, heads, kv, bias, norm):
        super().__init__()
        self.model = torch.nn.Module()
        self.model.embed_tokens = torch.nn.Embedding(vocab, h)
        self.model.layers = torch.nn.ModuleList([Layer(h, inter, heads, kv, bias, norm) for _ in range(n)])
        self.model.norm = torch.nn.RMSNorm(h)
        self.lm_head = torch.nn.Linear(h, vocab, bias=False)


# HuggingFace name -> file name, per architecture (as published in llama.cpp's tensor map)
LAYER_NAMES = {
    "input_layernorm.weight": "attn_norm.weight", "self_attn.q_proj.weight": "attn_q.weight", "self_attn.k_proj.weight": "attn_k.weight",
    "self_attn.v_proj.weight": "attn_v.weight", "self_attn.o_proj.weight": "attn_output.weight", "post_attention_layernorm.weight": "ffn_norm.weight",
    "mlp.gate_proj.weight": "ffn_gate.weight", "mlp.up_proj.weight": "ffn_up.weight", "mlp.down_proj.weight": "ffn_down.weight",
}
EXTRA = {
    "llama": {}, "qwen2": {f"self_attn.{x}_proj.bias": f"attn_{x}.bias" for x in "qkv"}, "qwen3": {f"self_attn.{x}_norm.weight": f"attn_{x}_norm.weight" for x in "qk"},
}
ADAPTERS = {"llama": LLAMA_ADAPTER, "qwen2": QWEN2_ADAPTER, "qwen3": QWEN3_ADAPTER}


def file_names(arch, n):
    names = {"model.embed_tokens.weight": "token_embd.weight", "model.norm.weight": "output_norm.weight", "lm_head.weight": "output.weight"}
    for i in range(n):
        for k, v in {**LAYER_NAMES, **EXTRA[arch]}.items():
            names[f"model.layers.{i}.{k}"] = f"blk.{i}.{v}"
    return names


def rope_order(rows, heads):
    # row (head, half, pair) of the source is row (head, pair, half) of the file
    half = rows // heads // 2
    return torch.tensor([head * 2 * half + h * half + i for head in range(heads) for i in range(half) for h in range(2)])


PROJ = ("q_proj", "k_proj", "v_proj", "o_proj", "gate_proj", "up_proj", "down_proj", "lm_head", "embed_tokens")
DEFAULT_LM = dict(fmt="Q4_0", n=2, heads=4, kv=2, hidden=64, quantized="projections", float_type="F32", overrides="none", tied="no", rope="none", config_kv=True)


def gen_arch(tier):
    def case(**kw):
        return dict(DEFAULT_LM, **kw)

    for arch, fmt, quantized in itertools.product(ADAPTERS, FORMATS, ("none", "all", "projections") + PROJ):
        yield case(arch=arch, fmt=fmt, quantized=quantized)
    for arch, (heads, kv), n in itertools.product(ADAPTERS, ((1, 1), (2, 1), (2, 2), (4, 1), (4, 4), (8, 2), (8, 8), (16, 4)), (1, 2, 11)):
        for quantized in ("projections", "none"):
            yield case(arch=arch, heads=heads, kv=kv, n=n, quantized=quantized)
    for arch, ft, over in itertools.product(ADAPTERS, ("F32", "F16", "BF16", "F64"), ("none", "norm", "first", "exact", "partial")):
        yield case(arch=arch, float_type=ft, overrides=over, n=1, quantized="down_proj")
    for arch, tied, quantized in itertools.product(ADAPTERS, ("no", "config", "parameter", "parameter+config"), ("none", "projections", "all", "embed_tokens")):
        yield case(arch=arch, tied=tied, quantized=quantized, n=1)
    for arch, rope in itertools.product(ADAPTERS, ("none", "linear", "yarn", "missing-theta")):
        for config_kv in (True, False):
            yield case(arch=arch, rope=rope, config_kv=config_kv, kv=2 if config_kv else 4, n=1)
    if tier == "thorough":
        for arch, fmt, hidden, (heads, kv), tied, ft in itertools.product(ADAPTERS, FORMATS, (32, 64, 128), ((2, 1), (4, 4), (4, 2)), ("no", "config"), ("F32", "F16", "BF16")):
            for quantized in ("none", "all", "projections") + PROJ:
                yield case(arch=arch, fmt=fmt, hidden=hidden, heads=heads, kv=kv, tied=tied, float_type=ft, quantized=quantized, n=3)


def field(reader, key):
    f = reader.get_field(key)
    return None if f is None else f.contents()


def run_arch(case):
    arch, fmt, h, n = case["arch"], case["fmt"], case["hidden"], case["n"]
    heads, kv = case["heads"], case["kv"]
    vocab, inter = 64, 96
    torch.manual_seed(0)
    model = LM(vocab, h, inter, n, heads, kv, bias=arch == "qwen2", norm=arch == "qwen3")
    with torch.no_grad():
        for i, p in enumerate(model.parameters()):
            p.copy_(((torch.arange(p.numel()) * (13 + 2 * i) + i) % 251 - 125).reshape(p.shape) / 64)
    if case["tied"].startswith("parameter"):
        model.lm_head.weight = model.model.embed_tokens.weight
    for module in list(model.modules()):
        if type(module) is torch.nn.Linear:
            to_quantized(module)
        elif type(module) is torch.nn.Embedding:
            module.__class__ = ff.nn.QuantizedEmbedding
            module.__init_quantization__()
    bits = 4 if fmt == "Q4_0" else 8
    expect = {}
    for name, module in model.named_modules():
        last = name.rsplit(".", 1)[-1]
        if last not in PROJ or not hasattr(module, "weight_quantizer"):
            continue
        on = case["quantized"] == "all" or case["quantized"] == last or (case["quantized"] == "projections" and last not in ("lm_head", "embed_tokens"))
        if case["tied"].startswith("parameter") and last == "lm_head":
            continue  # one tensor, one quantizer
        if on:
            q = ff.nn.LinearQuantizer(num_bits=bits, granularity=GRANS["block32"](), symmetric=True, allow_one_sided=False)
            module.weight_quantizer = q
            blocks = module.weight.detach().reshape(-1, BLOCK)
            q.quantization_range = (blocks.amin(1), blocks.amax(1))
            expect[f"{name}.weight"] = q
    overrides = {"none": {}, "norm": {r".*norm.*": "F32"}, "first": {r"blk\.0\.attn_norm\.weight": "F16", r"blk\.0\..*": "BF16"}, "exact": {r"output_norm\.weight": "F64"}, "partial": {"norm": "F16"}}[case["overrides"]]
    base = ADAPTERS[arch]
    adapter = base
    if case["float_type"] != "F32" or overrides:
        adapter = ArchAdapter(**{k: getattr(base, k) for k in ("gguf_arch", "name_map", "transforms", "write_metadata", "tokenizer_model", "tokenizer_pre", "is_tied")}, float_type=case["float_type"], float_type_overrides=overrides)
    kw = {}
    if case["rope"] in ("linear", "yarn"):
        kw["rope_scaling"] = {"type": case["rope"], "factor": 4.0}
    cfg = config(hidden_size=h, num_hidden_layers=n, num_attention_heads=heads, num_key_value_heads=kv, intermediate_size=inter, vocab_size=vocab,
                 tie_word_embeddings=case["tied"] in ("config", "parameter+config"), head_dim=h // heads, **kw)
    if not case["config_kv"]:
        del cfg.num_key_value_heads
    if case["rope"] == "missing-theta":
        del cfg.rope_theta
    before = snapshot(model)
    what = " ".join(f"{k}={v}" for k, v in case.items())
    with tempfile.TemporaryDirectory() as directory:
        try:
            reader = export(model, fmt, adapter, cfg, directory)
        except Exception as e:  # noqa: BLE001
            check((h // heads) % 2 != 0 and arch == "llama", "arch:refused", lambda: f"{what}: {type(e).__name__}: {e}")
            return Stats(states=1, transitions=1, traces=1, outcome="refused")
        check(same_snapshot(before, snapshot(model)), "export:changes-model", what)
        tensors = read_tensors(reader)
        params = dict(model.named_parameters())
        names = {k: v for k, v in file_names(arch, n).items() if k in params}
        if cfg.tie_word_embeddings:
            names.pop("lm_head.weight", None)
        check(set(tensors) == set(names.values()), "arch:names", lambda: f"{what}: {sorted(set(tensors) ^ set(names.values()))}")
        for hf, name in names.items():
            order = None
            if arch == "llama" and hf.endswith("q_proj.weight"):
                order = rope_order(params[hf].shape[0], heads)
            elif arch == "llama" and hf.endswith("k_proj.weight"):
                order = rope_order(params[hf].shape[0], kv)
            if hf in expect:
                expect_quantized(tensors[name], fmt, expect[hf], params[hf].detach(), order, f"{what}: {hf}")
            else:
                kind = case["float_type"]
                if case["overrides"] == "norm" and "norm" in name:
                    kind = "F32"
                elif case["overrides"] == "first" and name.startswith("blk.0."):
                    kind = "F16" if name == "blk.0.attn_norm.weight" else "BF16"
                elif case["overrides"] == "exact" and name == "output_norm.weight":
                    kind = "F64"
                expect_float(tensors[name], kind, params[hf], order, f"{what}: {hf}")
        meta = {
            "general.architecture": arch, f"{arch}.context_length": 64, f"{arch}.embedding_length": h, f"{arch}.block_count": n, f"{arch}.feed_forward_length": inter,
            f"{arch}.attention.head_count": heads, f"{arch}.attention.head_count_kv": kv, f"{arch}.vocab_size": vocab, "general.file_type": 2 if fmt == "Q4_0" else 7,
        }
        if case["rope"] != "missing-theta":
            meta[f"{arch}.rope.freq_base"] = 10000.0
        if case["rope"] in ("linear", "yarn"):
            meta[f"{arch}.rope.scaling.type"], meta[f"{arch}.rope.scaling.factor"] = case["rope"], 4.0
        if arch == "qwen3":
            meta["qwen3.attention.key_length"] = meta["qwen3.attention.value_length"] = h // heads
        for k, v in meta.items():
            check(field(reader, k) == v, "arch:metadata", lambda: f"{what}: {k} is {field(reader, k)!r} instead of {v!r}")
        eps = field(reader, f"{arch}.attention.layer_norm_rms_epsilon")
        check(eps is not None and abs(eps - 1e-5) < 1e-9, "arch:metadata", f"{what}: epsilon {eps}")
    return Stats(states=1, transitions=len(names), traces=1, outcome=f"written:{len(expect)}")


# --------------------------------------------------------------------------- family: names and refusals


def gen_names(tier):
    for arch in ADAPTERS:
        yield {"kind": "injective", "arch": arch, "layers": 120 if tier == "thorough" else 24}
        yield {"kind": "skipped", "arch": arch}
    for kinds in itertools.product("qf", repeat=2):
        yield {"kind": "collision", "kinds": "".join(kinds)}
    for kinds in itertools.product("qf", repeat=3):
        for dropped in range(8):
            yield {"kind": "drop", "kinds": "".join(kinds), "dropped": dropped}
    for kinds in itertools.product("qf", repeat=3):
        for perm in itertools.permutations(range(3)):
            yield {"kind": "permute", "kinds": "".join(kinds), "perm": perm}


class Many(torch.nn.Module):
    def __init__(self, kinds, fmt):
        super().__init__()
        for i, kind in enumerate(kinds):
            linear = torch.nn.Linear(32, 2 + i, bias=False)
            linear.weight = torch.nn.Parameter(weight_data("mixed", (2 + i, 32)) + i)
            if kind == "q":
                linear = to_quantized(linear)
                q = ff.nn.LinearQuantizer(num_bits=4, granularity=GRANS["block32"](), symmetric=True, allow_one_sided=False)
                linear.weight_quantizer = q
                q.quantization_range = (linear.weight.detach().amin(1), linear.weight.detach().amax(1))
            setattr(self, f"m{i}", linear)


def run_names(case):
    if case["kind"] in ("injective", "skipped"):
        arch = case["arch"]
        adapter = ADAPTERS[arch]
        if case["kind"] == "injective":
            table = file_names(arch, case["layers"])
            seen = {}
            for hf, want in table.items():
                got = adapter.name_map(hf)
                check(got == want, "names:map", f"{arch}: {hf} -> {got} instead of {want}")
                check(got not in seen, "names:collision", f"{hf} and {seen.get(got)} -> {got}")
                seen[got] = hf
            return Stats(states=len(table), transitions=len(table), traces=1, outcome="ok")
        base = file_names("llama", 1) | file_names("qwen2", 1) | file_names("qwen3", 1)
        own = file_names(arch, 1)
        n = 0
        for hf in base:
            variants = [hf + "x", "x" + hf, hf.replace("model.", "mdl."), hf.rsplit(".", 1)[0], hf.rsplit(".", 1)[0] + "_quantizer.scale", "x." + hf, hf + ".weight"]
            if hf not in own:
                variants.append(hf)
            for v in variants:
                if v in own:
                    continue
                n += 1
                check(adapter.name_map(v) is None, "names:unknown-mapped", f"{arch}: {v} -> {adapter.name_map(v)}")
        return Stats(states=n, transitions=n, traces=1, outcome="ok")
    model = Many(case["kinds"], "Q4_0")
    k = len(case["kinds"])
    hf = [f"m{i}.weight" for i in range(k)]
    if case["kind"] == "collision":
        mapping = {h: "same.weight" for h in hf}
    elif case["kind"] == "drop":
        mapping = {h: f"t{i}.weight" for i, h in enumerate(hf) if not case["dropped"] >> i & 1}
    else:
        mapping = {h: hf[case["perm"][i]] for i, h in enumerate(hf)}
    what = str(case)
    with tempfile.TemporaryDirectory() as directory:
        try:
            reader = export(model, "Q4_0", plain_adapter(name_map=mapping.get), config(), directory)
        except Exception as e:  # noqa: BLE001
            check(case["kind"] == "collision", "names:refused", lambda: f"{what}: {type(e).__name__}: {e}")
            return Stats(states=1, transitions=1, traces=1, outcome="refused")
        tensors = read_tensors(reader)
        check(case["kind"] != "collision", "names:collision-lost", f"{what}: {list(tensors)}")
        check(set(tensors) == set(mapping.values()), "names:set", f"{what}: {set(tensors)}")
        for i, h in enumerate(hf):
            if h not in mapping:
                continue
            m = getattr(model, f"m{i}")
            if case["kinds"][i] == "q":
                expect_quantized(tensors[mapping[h]], "Q4_0", m.weight_quantizer, m.weight.detach(), None, what)
            else:
                expect_float(tensors[mapping[h]], "F32", m.weight, None, what)
    return Stats(states=1, transitions=k, traces=1, outcome="ok")


# --------------------------------------------------------------------------- family: vocabulary

KINDS = ("missing", "normal", "added", "special", "special-base", "decoder-plain")


class Tokenizer:
    def __init__(self, kinds, order, directory):
        ids = [i for i, k in enumerate(kinds) if k != "missing"]
        ids = ids if order == "up" else ids[::-1]
        self.vocab = {f"t{i}": i for i in ids}
        self.added = {f"t{i}": i for i in ids if kinds[i] in ("added", "special", "decoder-plain")}
        self.added_tokens_decoder = {i: SimpleNamespace(special=kinds[i] != "decoder-plain") for i in ids if kinds[i] in ("special", "special-base", "decoder-plain")}
        self.name_or_path = directory
        if directory and directory != "not/there":
            self.save_pretrained(directory)

    def get_vocab(self):
        return dict(self.vocab)

    def get_added_vocab(self):
        return dict(self.added)

    def save_pretrained(self, directory):
        pathlib.Path(directory, "merges.txt").write_text("#version: 0.2\na b\nb c\n", encoding="utf-8")


def gen_vocab(tier):
    size = 4 if tier == "thorough" else 3
    for kinds in itertools.product(KINDS, repeat=size):
        for order in ("up", "down"):
            yield {"kinds": kinds, "order": order, "where": "memory", "extra": 0}
    for kinds in itertools.product(KINDS, repeat=2):
        for where in ("memory", "directory", "not/there"):
            for arch in ADAPTERS:
                yield {"kinds": kinds, "order": "up", "where": where, "extra": 2, "arch": arch}


def run_vocab(case):
    kinds = case["kinds"]
    what = str(case)
    base = ADAPTERS[case["arch"]] if "arch" in case else plain_adapter()
    model = Many("qf", "Q4_0")
    adapter = plain_adapter(tokenizer_model=base.tokenizer_model, tokenizer_pre=base.tokenizer_pre)
    with tempfile.TemporaryDirectory() as directory, tempfile.TemporaryDirectory() as out:
        tokenizer = Tokenizer(kinds, case["order"], {"memory": "", "directory": directory, "not/there": "not/there"}[case["where"]])
        size = len(kinds) + case["extra"]
        reader = export(model, "Q4_0", adapter, config(vocab_size=size), out, tokenizer)
        tokens, types = field(reader, "tokenizer.ggml.tokens"), field(reader, "tokenizer.ggml.token_type")
        check(len(tokens) == len(types) == size, "vocab:size", f"{what}: {tokens} {types}")
        for i in range(size):
            kind = kinds[i] if i < len(kinds) else "missing"
            want = {"normal": gguf.TokenType.NORMAL, "added": gguf.TokenType.USER_DEFINED, "decoder-plain": gguf.TokenType.USER_DEFINED, "missing": gguf.TokenType.UNUSED}.get(kind, gguf.TokenType.CONTROL)
            check(types[i] == int(want), "vocab:type", f"{what}: id {i} has type {types[i]} instead of {int(want)}")
            check(tokens[i] == f"t{i}" if kind != "missing" else (tokens[i] not in tokenizer.vocab and tokens.count(tokens[i]) == 1), "vocab:token", f"{what}: id {i} is {tokens[i]!r}")
        check(field(reader, "tokenizer.ggml.model") == base.tokenizer_model and field(reader, "tokenizer.ggml.pre") == base.tokenizer_pre, "vocab:model", what)
        check(field(reader, "tokenizer.ggml.merges") == ["a b", "b c"], "vocab:merges", f"{what}: {field(reader, 'tokenizer.ggml.merges')}")
        check(set(read_tensors(reader)) == {"m0.weight", "m1.weight"}, "vocab:tensors", what)
    return Stats(states=1, transitions=size, traces=1, outcome=str(sorted(set(types))))


FAMILIES = [
    Family("packing", gen_packing, run_packing, "every code at every position and pair of codes in a byte, every half-precision scale, memory layouts and dtypes"),
    Family("quantizers", gen_quantizers, run_quantizers, "every configuration of a weight quantizer exported to a file: refused or decoded exactly"),
    Family("architectures", gen_arch, run_arch, "every architecture, head layout, selection of quantized weights, float type, tie and rope setting: names, row order, values and metadata of the file"),
    Family("vocabulary", gen_vocab, run_vocab, "every assignment of token kinds to ids: each id keeps its token and kind, holes are filled with unused tokens"),
    Family("names", gen_names, run_names, "name maps are one-to-one; collisions are refused; dropped names do not disturb others"),
]
