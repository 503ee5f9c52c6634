"""C06: strict mode never dequantizes silently; non-strict equals the float result."""

from __future__ import annotations

import itertools
import math

import torch
import torch.nn.functional as TF
import yaml

import fastforward as ff

from fastforward.exceptions import QuantizationError
from fastforward.nn import functional as FF
from fastforward.quantization.affine import static as affine_static
from fastforward.quantized_tensor import QuantizedTensor

from mc.harness import Family, Stats, check

PROP = "C06"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operators x operand kinds x output quantizers x mode settings x call routes on the real code against the float operator"
ASSUMPTIONS = [
    "one or two operand shapes and value sets per operator; operators of the shipped table plus every overridable torch function with up to three arguments",
    "operator semantics on float tensors are torch's own",
]


def quantized(x, offset=3.0, channel=False):
    """4-bit quantized version of x; `x` is snapped by dequantizing it again."""
    if channel:
        n = x.shape[0]
        return affine_static.quantize_per_granularity(
            x, torch.tensor([0.25 * 2 ** (i % 2) for i in range(n)]), torch.tensor([float(i % 3) for i in range(n)]), ff.PerChannel(0), 8)
    return affine_static.quantize_per_tensor(x, torch.tensor([0.25]), None if offset is None else torch.tensor([offset]), 8)


def T(*shape, start=-2.0, step=0.25):
    n = math.prod(shape)
    return (torch.arange(n) * 5 % 17 * step + start).reshape(shape)


# operator -> list of (float callable, {param: tensor-or-scalar}, {other kwargs})
# Tensor-valued params are varied over operand kinds; "REQ"/"OPT"/"NUM" describe the schema:
#   REQ  must be quantized under strict mode;  MAYBE  may be float;  NUM  python number or quantized
def table():
    t = {}

    def add(name, fn, tensors, kinds, **rest):
        t.setdefault(name, []).append((fn, tensors, kinds, rest))

    add("linear", TF.linear, {"input": T(2, 3), "weight": T(4, 3), "bias": T(4)}, {"input": "REQ", "weight": "REQ", "bias": "MAYBE"})
    for d in (1, 2, 3):
        sp = (4, 3, 3)[:d]
        add(f"conv{d}d", getattr(TF, f"conv{d}d"), {"input": T(2, 2, *sp), "weight": T(3, 2, *(2,) * d), "bias": T(3)},
            {"input": "REQ", "weight": "REQ", "bias": "MAYBE"}, stride=2, padding=1)
        add(f"conv{d}d", getattr(TF, f"conv{d}d"), {"input": T(1, 2, *sp), "weight": T(4, 1, *(2,) * d), "bias": None},
            {"input": "REQ", "weight": "REQ", "bias": "MAYBE"}, groups=2, dilation=1, padding="same")
        add(f"conv_transpose{d}d", getattr(TF, f"conv_transpose{d}d"), {"input": T(1, 2, *sp), "weight": T(2, 3, *(2,) * d), "bias": T(3)},
            {"input": "REQ", "weight": "REQ", "bias": "MAYBE"}, stride=2, padding=1, output_padding=1, groups=1, dilation=1)
        add(f"avg_pool{d}d", getattr(TF, f"avg_pool{d}d"), {"input": T(1, 2, *sp)}, {"input": "REQ"}, kernel_size=2, stride=1, padding=1,
            ceil_mode=True, count_include_pad=False)
    add("softmax", TF.softmax, {"input": T(2, 3)}, {"input": "REQ"}, dim=0)
    add("softmax", TF.softmax, {"input": T(2, 3)}, {"input": "REQ"}, dim=-1, dtype=torch.float64)
    for n, fn in (("relu", TF.relu), ("sigmoid", torch.sigmoid), ("silu", TF.silu), ("exp", torch.exp), ("sin", torch.sin), ("cos", torch.cos),
                  ("negative", torch.negative), ("positive", torch.positive)):
        add(n, fn, {"input": T(2, 3)}, {"input": "REQ"})
    add("gelu", TF.gelu, {"input": T(2, 3)}, {"input": "REQ"}, approximate="tanh")
    add("gelu", TF.gelu, {"input": T(2, 3)}, {"input": "REQ"})
    add("embedding", TF.embedding, {"weight": T(4, 3)}, {"weight": "REQ"}, input=torch.tensor([[0, 3], [2, 2]]))
    add("layer_norm", TF.layer_norm, {"input": T(2, 3), "weight": T(3), "bias": T(3, start=1.0)}, {"input": "REQ", "weight": "OPTREQ", "bias": "MAYBE"},
        normalized_shape=(3,), eps=0.125)
    add("rms_norm", TF.rms_norm, {"input": T(2, 3), "weight": T(3)}, {"input": "REQ", "weight": "OPTREQ"}, normalized_shape=(3,), eps=0.125)
    add("matmul", torch.matmul, {"input": T(2, 3), "other": T(3, 2)}, {"input": "REQ", "other": "REQ"})
    add("matmul", torch.matmul, {"input": T(2, 2, 3), "other": T(3)}, {"input": "REQ", "other": "REQ"})
    add("mm", torch.mm, {"input": T(2, 3), "mat2": T(3, 2)}, {"input": "REQ", "mat2": "REQ"})
    add("bmm", torch.bmm, {"input": T(2, 2, 3), "mat2": T(2, 3, 2)}, {"input": "REQ", "mat2": "REQ"})
    for n in ("add", "sub"):
        add(n, getattr(torch, n), {"input": T(2, 3), "other": T(3)}, {"input": "REQ", "other": "NUM"}, alpha=3)
        add(n, getattr(torch, n), {"input": T(2, 3), "other": T(2, 1)}, {"input": "REQ", "other": "NUM"})
    for n in ("mul", "div", "floor_divide", "remainder"):
        add(n, getattr(torch, n), {"input": T(2, 3), "other": T(2, 3, start=0.5)}, {"input": "REQ", "other": "NUM"})
    add("pow", torch.pow, {"input": T(2, 3, start=0.5), "exponent": T(2, 3)}, {"input": "REQ", "exponent": "NUM"})
    add("sum", torch.sum, {"input": T(2, 3)}, {"input": "REQ"}, dim=1)
    add("dropout", TF.dropout, {"input": T(2, 3)}, {"input": "REQ"}, p=0.5, training=False)
    add("dropout", TF.dropout, {"input": T(2, 3)}, {"input": "REQ"}, p=0.5, training=True)
    add("permute", torch.permute, {"input": T(2, 3, 1)}, {"input": "REQ"}, dims=(2, 0, 1))
    add("index_add", torch.index_add, {"input": T(3, 2), "source": T(2, 2)}, {"input": "REQ", "source": "REQ"}, dim=0,
        index=torch.tensor([2, 0]), alpha=2)
    add("cumsum", torch.cumsum, {"input": T(2, 3)}, {"input": "REQ"}, dim=1)
    add("pad", TF.pad, {"input": T(2, 3)}, {"input": "REQ"}, pad=[1, 0], mode="constant", value=1.5)
    add("max_pool2d", TF.max_pool2d, {"input": T(1, 2, 4, 4)}, {"input": "REQ"}, kernel_size=2, stride=1, padding=1)
    add("interpolate", TF.interpolate, {"input": T(1, 2, 3, 3)}, {"input": "REQ"}, scale_factor=2.0, mode="bilinear", align_corners=True)
    add("unfold", TF.unfold, {"input": T(1, 2, 3, 3)}, {"input": "REQ"}, kernel_size=2, padding=1, stride=2)
    add("ones_like", torch.ones_like, {"input": T(2, 3)}, {"input": "REQ"})
    add("zeros_like", torch.zeros_like, {"input": T(2, 3)}, {"input": "REQ"}, dtype=torch.float64)
    add("full_like", torch.full_like, {"input": T(2, 3)}, {"input": "REQ"}, fill_value=1.5)
    return t


BITWISE = ["bitwise_not", "bitwise_and", "bitwise_or", "bitwise_xor", "bitwise_left_shift", "bitwise_right_shift"]
KINDS = {"REQ": ["q", "f", "qc"], "MAYBE": ["q", "f", None], "OPTREQ": ["q", "f", None], "NUM": ["q", "f", "s", "si", "qc"]}
OUTQ = ["none", "stub", "linear", "disabled"]


def shipped_operators():
    import fastforward._quantops as qo
    import os

    path = os.path.join(os.path.dirname(qo.__file__), "quantized_operators.yaml")
    return [r["op"].split("(")[0].strip() for r in yaml.safe_load(open(path))]


def gen_ops(tier):
    t = table()
    for name in sorted((set(shipped_operators()) | set(t)) - {"cat"}):
        for k in range(len(t.get(name, [None]))):
            yield {"op": name, "variant": k}


def output_quantizer(kind):
    if kind == "none":
        return None
    if kind == "stub":
        return ff.nn.QuantizerStub(output_quantizer=True)
    q = ff.nn.LinearQuantizer(3, symmetric=False)
    q.quantization_range = (-4.0, 3.0)
    if kind == "disabled":
        ff.disable_quantization  # noqa: B018  (public helper; the override is registered below)
        q._handle = q.register_override(lambda ctx, fn, args, kw: args[0])
    return q


def same(a, b):
    return isinstance(a, torch.Tensor) and a.shape == b.shape and a.dtype == b.dtype and torch.equal(a.nan_to_num(7e7), b.nan_to_num(7e7))


def run_op(case):
    t = table()
    name = case["op"]
    if name in BITWISE or name == "empty_like":
        return run_unspecified(name)
    check(name in t, "operator-not-covered", f"no reference for operator {name}")
    fn, tensors, schema, rest = t[name][case["variant"]]
    op = getattr(FF, name)
    names = list(tensors)
    n = 0
    seen = set()
    for kinds in itertools.product(*(KINDS[schema[p]] if tensors[p] is not None or None not in KINDS[schema[p]] else [None] for p in names)):
        args, floats, required_ok, numbers = {}, {}, True, False
        bad = False
        for p, kind in zip(names, kinds):
            base = tensors[p]
            if kind is None:
                args[p] = floats[p] = None
            elif kind in ("s", "si"):
                args[p] = floats[p] = 1.5 if kind == "s" else 2
            elif kind == "f":
                args[p] = floats[p] = base.clone()
                required_ok &= schema[p] == "MAYBE"
            else:
                if kind == "qc" and base.ndim == 0:
                    bad = True
                    break
                args[p] = quantized(base, channel=kind == "qc")
                floats[p] = args[p].dequantize().clone()
        if bad:
            continue
        try:
            torch.manual_seed(3)
            want = fn(**floats, **rest)
        except Exception:
            continue
        for outq, per_call, global_strict in itertools.product(OUTQ, (None, True, False), (True, False)):
            strict = global_strict if per_call is None else per_call
            for route in ("kw", "pos") if name not in ("index_add", "embedding", "permute") else ("kw",):
                q = output_quantizer(outq)
                kw = {} if per_call is None else {"strict_quantization": per_call}
                if q is not None or route == "pos":
                    kw["output_quantizer"] = q
                with ff.strict_quantization(global_strict):
                    before = {p: a.raw_data.clone() if isinstance(a, QuantizedTensor) else a for p, a in args.items()}
                    torch.manual_seed(3)
                    err = got = None
                    try:
                        if route == "kw":
                            got = op(**args, **rest, **kw)
                        elif "normalized_shape" in rest:
                            r2 = {k: v for k, v in rest.items() if k != "normalized_shape"}
                            got = op(args["input"], rest["normalized_shape"], *[args[p] for p in names[1:]], **r2, **kw)
                        else:
                            got = op(*[args[p] for p in names], **rest, **kw)
                    except QuantizationError as e:
                        err = e
                    check(ff.get_strict_quantization() == global_strict, "mode-changed", name)
                    for p, a in args.items():
                        b = before[p]
                        check(a is b or torch.equal(a.raw_data if isinstance(a, QuantizedTensor) else a, b), "operand-altered", p)
                n += 1
                what = lambda: f"{name}{dict(zip(names, kinds))} outq={outq} per_call={per_call} global={global_strict} {route}: {got if err is None else repr(err)} want {want}"
                ref = want
                if outq == "linear":
                    with ff.strict_quantization(False):
                        ref = q(want).dequantize()
                if strict:
                    accepted = required_ok and outq != "none"
                    if accepted:
                        check(err is None, "strict-refused", what)
                    if err is not None:
                        seen.add("strict-error")
                        continue
                    if not accepted:
                        # only a kernel that stays in the quantized domain may answer
                        check(isinstance(got, QuantizedTensor), "silent-dequantize", what)
                else:
                    check(err is None, "nonstrict-error", what)
                if outq == "linear":
                    check(isinstance(got, QuantizedTensor), "not-quantized", what)
                if isinstance(got, QuantizedTensor):
                    seen.add("quantized")
                    check(same(got.dequantize().to(ref.dtype), ref), "value", what)
                else:
                    seen.add("float")
                    check(same(got, ref), "value", what)
    return Stats(states=n, transitions=n, traces=n, outcome=sorted(seen))


def run_unspecified(name):
    """Operators without a float reference value: only the refusal part of the contract."""
    op = getattr(FF, name)
    q, f = quantized(T(2, 3)), T(2, 3)
    unary = name in ("bitwise_not", "empty_like")
    n = 0
    for a, b in itertools.product((q, f), (q, f)):
        for outq, per_call, glob in itertools.product(("none", "linear"), (None, True, False), (True, False)):
            strict = glob if per_call is None else per_call
            args = (a,) if unary else (a, b)
            ok = outq != "none" and all(isinstance(x, QuantizedTensor) for x in args)
            kw = {} if per_call is None else {"strict_quantization": per_call}
            n += 1
            with ff.strict_quantization(glob):
                try:
                    got = op(*args, output_quantizer=output_quantizer(outq), **kw)
                    if name == "empty_like":
                        check(got.shape == f.shape, "shape", name)
                        check(not strict or ok, "silent-dequantize", name)
                        continue
                    check(False, "float-bitwise-accepted", name)
                except QuantizationError:
                    check(strict and not ok, "refused", name)
                except (RuntimeError, NotImplementedError):
                    check(not strict or ok, "silent-dequantize", name)  # torch refuses float bitwise operations
    return Stats(states=n, transitions=n, traces=n, outcome=name)


# --------------------------------------------------------------------- cat (list operand)


def gen_cat(tier):
    for n in (1, 2, 3):
        for kinds in itertools.product("qfc", repeat=n):
            yield {"kinds": "".join(kinds)}


def run_cat(case):
    parts = [T(2, 3, start=-1.0 + i) for i in range(len(case["kinds"]))]
    args = [p if k == "f" else quantized(p, channel=k == "c") for k, p in zip(case["kinds"], parts)]
    floats = [a.dequantize() if isinstance(a, QuantizedTensor) else a for a in args]
    n = 0
    for outq, per_call, glob, dim in itertools.product(OUTQ, (None, True, False), (True, False), (0, -1)):
        strict = glob if per_call is None else per_call
        q = output_quantizer(outq)
        kw = {} if per_call is None else {"strict_quantization": per_call}
        if q is not None:
            kw["output_quantizer"] = q
        want = torch.cat(floats, dim)
        ref = q(want).dequantize() if outq == "linear" else want
        n += 1
        what = lambda: f"{case} outq={outq} strict={strict} dim={dim}"
        with ff.strict_quantization(glob):
            try:
                got = FF.cat(args, dim, **kw)
            except QuantizationError:
                check(strict and ("f" in case["kinds"] or outq == "none"), "refused", what)
                continue
        if isinstance(got, QuantizedTensor):
            got = got.dequantize()
        else:
            check(not strict or ("f" not in case["kinds"] and outq in ("stub", "disabled")), "silent-dequantize", what)
        check(same(got, ref), "value", lambda: what() + f"{got} want {ref}")
    return Stats(states=n, transitions=n, traces=n, outcome=n)


# --------------------------------------------------------------------- torch API surface

METADATA = {
    "dim", "ndim", "dtype", "get_device", "device", "grad", "grad_fn", "layout", "name", "ndimension", "nelement", "numel", "output_nr",
    "requires_grad", "requires_grad_", "retain_grad", "shape", "size", "sparse_dim", "storage", "storage_offset", "storage_type", "is_cpu", "is_cuda",
    "is_complex", "is_conj", "is_contiguous", "is_distributed", "is_floating_point", "is_inference", "is_ipu", "is_leaf", "is_meta", "is_mkldnn",
    "is_mps", "is_neg", "is_nested", "is_pinned", "is_same_size", "is_set_to", "is_shared", "is_signed", "is_sparse", "is_sparse_csr", "is_vulkan",
    "is_xpu", "is_coalesced", "data_ptr", "register_hook", "backward", "pin_memory", "record_stream", "as_subclass", "untyped_storage", "__repr__",
    "__setstate__", "__dir__", "has_names", "names", "refine_names", "sparse_mask", "__cuda_array_interface__", "is_quantized",
}
CASTS = {"double", "float", "half", "bfloat16", "long", "int", "short", "char", "cdouble", "cfloat", "chalf", "bool", "byte"}
SKIP_WORDS = ("rand", "cuda", "cudnn", "miopen", "mkldnn", "fbgemm", "dlpack", "storage", "fake_quant", "quantize", "dropout", "bernoulli", "multinomial",
              "normal", "poisson", "empty", "new_", "data_ptr", "share_memory", "_version", "hub", "ipu", "ctc", "sym_", "pack_padded", "_mps", "rrelu",
              "exponential", "cauchy", "geometric", "stft", "__get__", "__set__", "set_", "gru", "lstm", "rnn", "fbgemm", "module_load", "register",
              "__hash__", "__repr__", "__deepcopy__", "__reduce", "__contains__", "__array", "__dir__", "__getstate", "__setstate", "native", "batch_norm_",
              "histogram", "unsafe", "to_sparse", "sparse", "values", "indices", "coalesce", "hspmm", "memory", "align", "rename", "refine", "names")


def api_functions():
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        table = torch.overrides.get_testing_overrides()
    out = {}
    for f in table:
        name = getattr(f, "__name__", "")
        if not name or (name.startswith("_") and not name.startswith("__")) or any(w in name for w in SKIP_WORDS):
            continue
        key = torch.overrides.resolve_name(f) or name
        out.setdefault(key, f)
    return out


PATTERNS = ["t", "tt", "ts", "st", "ft", "tf", "tss", "l", "td", "ttt", "tis"]


def build(pattern, make, other):
    if pattern == "l":
        return [[make(0), make(1)]], 1
    args = []
    for i, c in enumerate(pattern):
        args.append({"t": lambda: make(i), "f": lambda: other(i), "s": lambda: 1, "d": lambda: (0, 1), "i": lambda: torch.tensor([1, 0])}[c]())
    return args, 1


def gen_api(tier):
    for key in sorted(api_functions()):
        yield {"fn": key}


def _base(i):
    return torch.tensor([[0.25, 0.75], [0.5, 1.0]]) + 0.25 * i


def cmp(a, b):
    if isinstance(a, QuantizedTensor):
        a = a.dequantize()
    if isinstance(b, torch.Tensor):
        if not isinstance(a, torch.Tensor) or a.shape != b.shape:
            return False
        if a.is_sparse or b.is_sparse or b.layout != torch.strided:
            return True
        if b.is_complex() or a.is_complex():
            return torch.allclose(torch.view_as_real(a.resolve_conj()), torch.view_as_real(b.resolve_conj()), equal_nan=True)
        return torch.allclose(a.double(), b.double(), equal_nan=True)
    if isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(cmp(i, j) for i, j in zip(a, b))
    if isinstance(b, (int, float, bool, complex, torch.dtype, torch.device)):
        return a == b or (b != b and a != a)
    return True


def run_api(case):
    f = api_functions()[case["fn"]]
    name = f.__name__
    n, seen = 0, set()
    for pattern in PATTERNS:
        fargs, _ = build(pattern, _base, _base)
        try:
            torch.manual_seed(1)
            want = f(*fargs)
            fargs2, _ = build(pattern, _base, _base)
            torch.manual_seed(1)
            if not cmp(f(*fargs2), want):
                continue  # not a function of its arguments
        except Exception:
            continue
        if name.endswith("_") and not name.endswith("__"):
            pass
        for strict in (True, False):
            ref_strict = not strict
            args, _ = build(pattern, lambda i: quantized(_base(i), offset=4.0), _base)
            raws = [a.raw_data.clone() if isinstance(a, QuantizedTensor) else None for a in args]
            n += 1
            err = got = None
            with ff.strict_quantization(strict):
                torch.manual_seed(1)
                try:
                    got = f(*args)
                except Exception as e:
                    err = e
            what = lambda: f"{case['fn']}({pattern}) strict={strict}: {got if err is None else repr(err)[:300]} want {want}"
            for a, r in zip(args, raws):
                if r is not None:
                    check(torch.equal(a.raw_data, r), "operand-altered", what)
            if err is not None:
                seen.add(type(err).__name__)
                if strict:
                    check(isinstance(err, (QuantizationError, NotImplementedError, TypeError, ValueError, RuntimeError)), "crash", what)
                else:
                    check(isinstance(err, (NotImplementedError, TypeError)), "nonstrict-error", what)
                continue
            del ref_strict
            if strict and name not in METADATA and name not in CASTS:
                ok = isinstance(got, QuantizedTensor) or got is NotImplemented
                if isinstance(got, tuple) and any(isinstance(g, QuantizedTensor) for g in got):
                    ok = True
                if not ok and isinstance(got, torch.Tensor) or isinstance(got, (float, int, bool)):
                    check(name in ("__len__", "len", "dequantize", "to", "item_size", "element_size", "stride", "__get__", "type", "is_same_size", "result_type",
                                   "can_cast", "promote_types", "detach", "__index__"), "silent-dequantize", what)
            if name in METADATA:
                seen.add("metadata")
                if name in ("shape", "size", "dim", "ndim", "numel", "nelement", "ndimension"):
                    check(cmp(got, want), "metadata", what)
                continue
            if got is NotImplemented:
                continue
            check(cmp(got, want), "value", what)
            seen.add("ok")
    return Stats(states=n, transitions=n, traces=n, outcome=[case["fn"], sorted(seen)])


def gen_truth(tier):
    for raw in (-2, -1, 0, 1):
        for off in (None, 0.0, 1.0, -1.0, 2.0):
            for strict in (True, False):
                yield {"raw": raw, "off": off, "strict": strict}


def run_truth(case):
    """Predicates that read the data must see the dequantized value, or refuse."""
    off = case["off"]
    x = torch.tensor([(case["raw"] + (off or 0.0)) * 0.5])
    q = affine_static.quantize_per_tensor(x, torch.tensor([0.5]), None if off is None else torch.tensor([off]), 3)
    want = q.dequantize().item() != 0
    check(q.dequantize().item() == x.item(), "setup", "")
    seen = []
    for label, f in (("bool", bool), ("is_nonzero", torch.is_nonzero), ("m.is_nonzero", lambda t: t.is_nonzero()), ("any", lambda t: bool(t.any())),
                     ("all", lambda t: bool(torch.all(t))), ("count", lambda t: bool(torch.count_nonzero(t))), ("item", lambda t: t.item() != 0),
                     ("tolist", lambda t: t.tolist() != [0.0]), ("float", lambda t: float(t) != 0)):
        with ff.strict_quantization(case["strict"]):
            try:
                got = f(q)
            except QuantizationError:
                check(case["strict"], "refused", label)
                seen.append("refused")
                continue
        check(not case["strict"], "silent-dequantize", label)
        check(bool(got) == want, "value", lambda: f"{label}: {got} want {want}")
        seen.append(bool(got))
    return Stats(states=9, transitions=9, outcome=seen)


# --------------------------------------------------------------------- attention


def gen_sdpa(tier):
    for kinds in itertools.product("qfc", repeat=3):
        for mask in ("none", "bool", "float", "causal", "rowmasked", "qmask"):
            if mask in ("bool", "rowmasked", "qmask") and kinds.count("c") and tier == "quick":
                continue
            for gqa in (False, True):
                for glob in (True, False):
                    yield {"kinds": "".join(kinds), "mask": mask, "gqa": gqa, "strict": glob}


def run_sdpa(case):
    heads = 1 if case["gqa"] else 2
    base = [T(2, 2, 3, 4, step=0.125), T(2, heads, 3, 4, step=0.125, start=-1.0), T(2, heads, 3, 4, start=-1.5)]
    args = [b.clone() if k == "f" else quantized(b, channel=k == "c") for k, b in zip(case["kinds"], base)]
    floats = [a.dequantize() if isinstance(a, QuantizedTensor) else a for a in args]
    mask = {"none": None, "causal": None, "bool": torch.tensor([[True, False, True]] * 3), "float": T(3, 3),
            "rowmasked": torch.tensor([[True, True, False], [False, False, False], [True, False, True]]),
            "qmask": quantized(T(3, 3))}[case["mask"]]
    fmask = mask.dequantize() if isinstance(mask, QuantizedTensor) else mask
    n = 0
    for scale in (None, 0.25):
        want = TF.scaled_dot_product_attention(*floats, attn_mask=fmask, is_causal=case["mask"] == "causal", scale=scale, enable_gqa=case["gqa"])
        want = want.nan_to_num(0.0)
        for fallback in (None, True, False):
            for allowed in (False, True):
                for per_call in (None, False):
                    strict = case["strict"] if per_call is None else per_call
                    kw = {} if per_call is None else {"strict_quantization": per_call}
                    if fallback is not None:
                        kw["sdpa_torch_fallback"] = fallback
                    n += 1
                    with ff.strict_quantization(case["strict"]), ff.flags.sdpa_torch_fallback_allowed(allowed):
                        try:
                            got = FF.scaled_dot_product_attention(*args, attn_mask=mask, is_causal=case["mask"] == "causal", scale=scale, enable_gqa=case["gqa"], **kw)
                        except QuantizationError as e:
                            check(strict, "refused", lambda: f"{case} scale={scale} fallback={fallback} allowed={allowed} {kw}: {e}")
                            check(ff.get_strict_quantization() == case["strict"], "mode-changed", "")
                            continue
                        check(ff.get_strict_quantization() == case["strict"], "mode-changed", "")
                    check(not strict, "silent-dequantize", lambda: f"{case} {kw}")
                    check(not isinstance(got, QuantizedTensor) and torch.allclose(got, want, atol=2e-5), "value",
                          lambda: f"{case} scale={scale} {kw}: {got} want {want}")
    return Stats(states=n, transitions=n, traces=n, outcome=n)


SLOTS = ["scaled_query_quantizer", "scaled_key_quantizer", "attn_scores_quantizer", "attn_mask_quantizer", "masked_scores_quantizer", "attn_weights_quantizer",
         "dropout_quantizer", "output_quantizer"]
SLOT_RANGE = {"attn_weights_quantizer": (0.0, 1.0), "dropout_quantizer": (0.0, 1.0)}


def gen_sdpa_slots(tier):
    for active in range(2 ** len(SLOTS)):
        if tier == "quick" and bin(active).count("1") not in (0, 1, 2, 7, 8):
            continue
        yield {"active": active}


def run_sdpa_slots(case):
    """Every subset of the attention quantizers: each is applied once, at its own place."""
    q, k, v = T(1, 2, 3, 4, step=0.125), T(1, 2, 3, 4, step=0.125, start=-1.0), T(1, 2, 3, 4, start=-1.5)
    n = 0
    inf = float("-inf")
    # (mask, value for masked scores, dropout): with neither, and with each
    variants = [(T(3, 3), inf, 0.0), (torch.tensor([[True, False, True], [True, True, True], [False, False, False]]), -1.5, 0.0), (None, inf, 0.5)]
    for fallback in (False, True):
        for grad, (mask, neg_inf, dropout) in itertools.product((False, True), variants):
            quants = {}
            for i, s in enumerate(SLOTS):
                if case["active"] >> i & 1:
                    z = ff.nn.LinearQuantizer(3, symmetric=False)
                    lo, hi = SLOT_RANGE.get(s, (-2.0 - 0.25 * i, 2.0))
                    z.quantization_range = (lo, hi)
                    quants[s] = z
                elif i % 2:
                    quants[s] = ff.nn.QuantizerStub()

            def at(slot, x):
                z = quants.get(slot)
                return z(x).dequantize() if isinstance(z, ff.nn.LinearQuantizer) else x

            s = math.sqrt(1 / math.sqrt(4))
            sq = at("scaled_query_quantizer", q * s)
            sk = at("scaled_key_quantizer", k.transpose(-2, -1) * s)
            sc = at("attn_scores_quantizer", sq @ sk)
            bias = torch.zeros(3, 3) if mask is None else mask
            if bias.dtype == torch.bool:
                bias = torch.zeros(3, 3).masked_fill(~bias, neg_inf)
            masked = at("masked_scores_quantizer", sc + at("attn_mask_quantizer", bias))
            w = at("attn_weights_quantizer", torch.softmax(masked, -1).where(~(masked <= neg_inf).all(-1, keepdim=True), 0.0))
            torch.manual_seed(5)
            w = torch.dropout(w, dropout, True)
            want = at("output_quantizer", at("dropout_quantizer", w) @ v)
            ins = [t.clone().requires_grad_(grad) for t in (q, k, v)]
            with ff.strict_quantization(False):
                torch.manual_seed(5)
                got = FF.scaled_dot_product_attention(*ins, attn_mask=mask, dropout_p=dropout, neg_inf=neg_inf, sdpa_torch_fallback=fallback, **quants)
            n += 1
            if fallback and not case["active"]:
                # Without quantizers, it is the attention of torch (that has no finite mask value;
                # what is dropped depends on the random numbers that were used before)
                if math.isfinite(neg_inf) or dropout:
                    continue
                torch.manual_seed(5)
                want = TF.scaled_dot_product_attention(*ins, attn_mask=mask, dropout_p=dropout)
            check(isinstance(got, QuantizedTensor) <= (case["active"] >> 7 & 1), "kind", "")
            got = got.dequantize() if isinstance(got, QuantizedTensor) else got
            check(torch.allclose(got, want, atol=1e-4), "value", lambda: f"{case} {got} want {want}")
            if grad:
                got.sum().backward()
                check(all(t.grad is not None and torch.isfinite(t.grad).all() for t in ins), "gradient", "")
    return Stats(states=n, transitions=n, traces=n, outcome=case["active"])


FAMILIES = [
    Family("operators", gen_ops, run_op, "all operators of the shipped table x operand kinds x output quantizer x per-call/global strict x call route", timeout=300),
    Family("cat", gen_cat, run_cat, "all operand-kind lists up to three x output quantizer x modes"),
    Family("torch-api", gen_api, run_api, "every overridable torch function x argument patterns x strict mode"),
    Family("truth", gen_truth, run_truth, "data-reading predicates on single-element tensors x offsets x modes"),
    Family("sdpa", gen_sdpa, run_sdpa, "attention: operand kinds x masks x grouping x fallback settings x modes"),
    Family("sdpa-slots", gen_sdpa_slots, run_sdpa_slots, "attention: subsets of active quantizers x fallback x gradient x masks, dropout"),
]
