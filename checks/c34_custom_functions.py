"""C34: quantization functions made of a pair of functions do what the pair does."""

from __future__ import annotations

import copy
import dataclasses
import inspect
import itertools

import torch

import fastforward as ff

from fastforward.quantization import create_quantization_function
from fastforward.quantization.ste import round_ste

from mc.harness import Family, Stats, check

PROP = "C34"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of pairs of signatures, calls and histories of operations on the tensors they create; everything runs on the real code and is compared with calling the two functions directly"
ASSUMPTIONS = [
    "parameters are passed by keyword, as the created function requires",
    "defaults are hashable (tensors included), as for every data class",
]

TENSOR, ALIKE = torch.tensor([1.0, 2.0, 3.0]), torch.tensor([1.0, 2.0, 3.0])
DEFAULTS = {"1": 1, "2": 2, "None": None, "t": TENSOR, "u": ALIKE}
KINDS = {"PK": inspect.Parameter.POSITIONAL_OR_KEYWORD, "KO": inspect.Parameter.KEYWORD_ONLY, "VP": inspect.Parameter.VAR_POSITIONAL, "VK": inspect.Parameter.VAR_KEYWORD, "PO": inspect.Parameter.POSITIONAL_ONLY}
TYPES = {"int": int, "float": float}


def valid(params):
    """Whether Python has functions with this signature."""
    try:
        signature(params)
    except ValueError:
        return False
    return True


def signature(params):
    ps = [inspect.Parameter("data", inspect.Parameter.POSITIONAL_ONLY)]
    for name, default, kind, annotation in params:
        ps.append(inspect.Parameter(name, KINDS[kind], default=DEFAULTS[default] if default else inspect.Parameter.empty, annotation=TYPES[annotation] if annotation else inspect.Parameter.empty))
    return inspect.Signature(ps)


def function(params, log, combine):
    """A function with this signature which records its arguments."""
    args = []
    names = {}
    seen_kw = False
    for i, (name, default, kind, annotation) in enumerate(params):
        if kind == "KO" and not seen_kw:
            args.append("*")
            seen_kw = True
        text = {"VP": "*", "VK": "**"}.get(kind, "") + name
        if annotation:
            text += f": {annotation}"
        if default:
            names[f"_d{i}"] = DEFAULTS[default]
            text += f" = _d{i}"
        args.append(text)
        if kind == "PO":
            args.append("/")
    values = ", ".join(f"{p[0]!r}: {p[0]}" for p in params)
    source = f"def fn({', '.join(['data', *args])}):\n    return _call(data, {{{values}}})\n"

    def call(data, kwargs):
        log.append((data, kwargs))
        return combine(data, kwargs)

    names["_call"] = call
    exec(source, names)
    return names["fn"]


def number(v):
    return 0.0 if v is None else v.sum() if isinstance(v, torch.Tensor) else v


def quantize(data, kwargs):
    return torch.round(data * 4 + sum(number(v) * (3 + i) for i, (_, v) in enumerate(sorted(kwargs.items()))))


def dequantize(data, kwargs):
    return data / 4 - sum(number(v) * (5 + i) for i, (_, v) in enumerate(sorted(kwargs.items())))


def same(a, b):
    return a is b or (type(a) is type(b) and not isinstance(a, torch.Tensor) and a == b)


def refused(qs, ds):
    """The errors of a pair that does not fit together."""
    if any(p[2] in ("VP", "VK", "PO") for p in [*qs, *ds]):
        return TypeError
    own = {p[0]: p for p in qs}
    errors = set()
    for p in ds:
        if p[0] in own:
            if own[p[0]][3] != p[3]:
                errors.add(TypeError)
            if own[p[0]][1] != p[1]:
                errors.add(ValueError)
                if {own[p[0]][1], p[1]} & {"t", "u"}:
                    errors.add(RuntimeError)  # tensors have no single truth value
    return tuple(errors)


DATA = torch.tensor([[0.3, -1.2], [2.0, 0.0]])


def run_signatures(case):
    qs, ds = case["q"], case["d"]
    qlog, dlog = [], []
    fq, fd = function(qs, qlog, quantize), function(ds, dlog, dequantize)
    errors = refused(qs, ds)
    try:
        params_type, func_type, fn = create_quantization_function("Custom", fq, fd)
    except (TypeError, ValueError, RuntimeError) as e:
        check(errors and isinstance(e, errors), "a pair of functions is refused", lambda: f"{case}: {type(e).__name__} {e}")
        return Stats(1, 1, 1, type(e).__name__)
    check(not errors, "a pair of functions that does not fit together is accepted", str(case))
    defaults = {p[0]: DEFAULTS[p[1]] for p in [*qs, *ds] if p[1]}
    names = list(dict.fromkeys(p[0] for p in [*qs, *ds]))
    check({f.name for f in dataclasses.fields(params_type)} == set(names), "the parameters are not those of the two functions", str(case))
    check(issubclass(func_type, ff.quantization.function.QuantizationFunction) and issubclass(params_type, ff.quantization.function.QuantizationParameters), "the types are not those of quantization functions", "")
    required = [n for n in names if n not in defaults]
    steps = 0
    for given in itertools.chain.from_iterable(itertools.combinations([*names, "unknown"], n) for n in range(len(names) + 2)):
        values = {n: 10.0 + i for i, n in enumerate(given)}
        ok = "unknown" not in given and set(required) <= set(given)
        del qlog[:], dlog[:]
        steps += 1
        try:
            tensor = fn(DATA, **values)
        except TypeError:
            check(not ok, "a call with all parameters is refused", lambda: f"{case} {given}")
            check(not qlog and not dlog, "a refused call quantizes", "")
            continue
        check(ok, "a call with missing or unknown parameters is accepted", lambda: f"{case} {given}")
        full = {**defaults, **values}
        want_q = {p[0]: full[p[0]] for p in qs}
        want_d = {p[0]: full[p[0]] for p in ds}
        check(len(qlog) == 1 and not dlog and qlog[0][0] is DATA and qlog[0][1].keys() == want_q.keys() and all(same(v, want_q[k]) for k, v in qlog[0][1].items()), "quantizing passes other arguments than the parameters of the function", lambda: f"{case} {given}: {qlog}")
        check(type(tensor) is ff.QuantizedTensor and torch.equal(tensor.raw_data, quantize(DATA, want_q)), "the quantized data is not the result of the function", lambda: f"{case} {given}")
        check(tensor.quant_func is func_type and type(tensor.quant_args()) is params_type, "a tensor has another quantization function", "")
        back = tensor.dequantize()
        check(len(qlog) == 1 and len(dlog) == 1 and dlog[0][1].keys() == want_d.keys() and all(same(v, want_d[k]) for k, v in dlog[0][1].items()), "dequantizing passes other arguments than the parameters of the function", lambda: f"{case} {given}: {dlog}")
        check(type(back) is torch.Tensor and torch.equal(back, dequantize(quantize(DATA, want_q), want_d)), "the dequantized data is not the result of the function", lambda: f"{case} {given}")
        built = params_type(**values)
        check(all(same(getattr(built, n), full[n]) for n in names), "the parameters have other values than given", str(case))
        again = func_type.quantize(DATA, built)
        check(torch.equal(again.raw_data, tensor.raw_data) and torch.equal(func_type.dequantize(again.raw_data, built), back), "quantizing with a parameter object differs", str(case))
        for n in names:
            changed = built.with_changes(**{n: 77.0})
            check(type(changed) is params_type and getattr(changed, n) == 77.0 and all(same(getattr(changed, m), full[m]) for m in names if m != n), "a change of one parameter changes another", str(case))
            check(same(getattr(built, n), full[n]), "a change of parameters changes the original", str(case))
        check(torch.equal(tensor.dequantize(), back), "dequantizing twice differs", str(case))
    return Stats(steps, steps * 3, 1, [sorted(names), len(required)])


def gen_signatures(tier):
    deep = tier == "thorough"
    none = [[]]
    one = [[[n, d, k, a]] for n in "ab" for d in ("", "1", "2", "None", "t", "u") for k in KINDS for a in ("", "int", "float") if not (d and k in ("VP", "VK"))]
    for q, d in itertools.product([*none, *one], repeat=2):
        yield {"q": q, "d": d}
    defaults = ("", "1", "2") if deep else ("", "1")
    two = [[[n, d1, k1, ""], [m, d2, k2, ""]] for n, m in itertools.permutations("abc", 2) for d1, d2 in itertools.product(defaults, repeat=2) for k1, k2 in itertools.product(("PK", "KO"), repeat=2)]
    two = [p for p in two if valid(p)]
    for q, d in itertools.product(two, repeat=2):
        yield {"q": q, "d": d}
    plain = [p for p in one if p[0][2] == "PK" and p[0][3] == "" and p[0][1] in ("", "1", "t")]
    three = [[[n, d, "PK", ""] for n, d in zip(ns, ds)] for ns in itertools.permutations("abc", 3) for ds in itertools.product(("", "1"), repeat=3)]
    three = [p for p in three if valid(p)]
    for q, d in itertools.product(three, [*none, *plain, *two]):
        yield {"q": q, "d": d}
        if deep:
            yield {"q": d, "d": q}


# ---------------------------------------------------------------- tensors


def q_impl(data, scale, shift, bits=3):
    return torch.clamp(round_ste(data / scale + shift), -(2 ** (bits - 1)), 2 ** (bits - 1) - 1)


def d_impl(data, scale, shift, gain=1.0):
    return (data - shift) * scale * gain


OPS = ["clone", "detach", "contiguous", "deepcopy", "cpu", "to", "scale", "gain", "clone_params", "detach_params", "raw"]


def params_of(t):
    return {f.name: getattr(t.quant_args(), f.name) for f in dataclasses.fields(t.quant_args())}


def run_tensors(case):
    _, func, fn = create_quantization_function("Affine", q_impl, d_impl)
    scale = {"float": 0.5, "tensor": torch.tensor(0.5), "grad": torch.tensor(0.5, requires_grad=True), "vector": torch.tensor([0.5, 0.25])}[case["scale"]]
    data = DATA.t() if case.get("layout") else DATA.clone()
    data.requires_grad_(case.get("grad", False))
    t = fn(data, scale=scale, shift=torch.tensor(1.0))
    raw = q_impl(data, scale, torch.tensor(1.0)).detach()
    model = {"scale": scale, "shift": torch.tensor(1.0), "bits": 3, "gain": 1.0}
    history = [(t, raw.clone(), dict(model))]
    for op in case["ops"]:
        before = params_of(t)
        ctx = t.quantization_context
        if op == "clone":
            new = t.clone()
        elif op == "detach":
            new = t.detach()
        elif op == "contiguous":
            new = t.contiguous()
        elif op == "deepcopy":
            new = copy.deepcopy(t.detach())
        elif op == "cpu":
            new = t.cpu()
        elif op == "to":
            new = t.to("cpu")
        elif op == "scale":
            new = ctx.with_changes(scale=torch.tensor(2.0)).attach(t.raw_data)
            model = {**model, "scale": torch.tensor(2.0)}
        elif op == "gain":
            new = ctx.with_changes(gain=3.0, bits=5).attach(t.raw_data)
            model = {**model, "gain": 3.0, "bits": 5}
        elif op == "clone_params":
            new = ctx.clone_parameters().attach(t.raw_data)
        elif op == "detach_params":
            new = ctx.detach_parameters().attach(t.raw_data)
        else:
            raw = t.raw_data.detach() - 1
            new = ctx.attach(raw)
        check(type(new) is ff.QuantizedTensor and new.quant_func is func, "an operation returns another kind of tensor", lambda: f"{case} {op}")
        after = params_of(new)
        check(after.keys() == model.keys(), "an operation changes which parameters there are", str(case))
        for k, v in model.items():
            eq = torch.equal(after[k], v) if isinstance(v, torch.Tensor) else after[k] == v and type(after[k]) is type(v)
            check(eq, "an operation changes the parameters", lambda: f"{case} {op} {k}: {after[k]}")
        if op in ("clone", "deepcopy", "clone_params"):
            shared = [k for k, v in after.items() if isinstance(v, torch.Tensor) and v.data_ptr() == before[k].data_ptr()]
            check(not shared, "a copy shares its parameters", lambda: f"{case} {op} {shared}")
        if op in ("clone", "deepcopy"):
            check(new.raw_data.data_ptr() != t.raw_data.data_ptr(), "a copy shares its data", lambda: f"{case} {op}")
        if op in ("detach", "detach_params", "deepcopy"):
            check(not any(v.requires_grad for v in after.values() if isinstance(v, torch.Tensor)), "detached parameters require gradients", lambda: f"{case} {op}")
        if op == "detach":
            check(not new.requires_grad, "a detached tensor requires gradients", lambda: f"{case} {op}")
        if op == "contiguous":
            check(new.is_contiguous(), "a contiguous tensor is not", str(case))
        t = new
        history.append((t, raw.clone(), dict(model)))
        for old, old_raw, old_model in history:
            check(torch.equal(old.raw_data, old_raw), "an operation changes the data of a tensor", lambda: f"{case} {op}")
            want = d_impl(old_raw, old_model["scale"], old_model["shift"], old_model["gain"])
            check(torch.equal(old.dequantize(), want), "a tensor dequantizes to something else than its function returns", lambda: f"{case} {op}: {old.dequantize()} {want}")
    return Stats(len(history), len(history), 1, t.dequantize().tolist())


def gen_tensors(tier):
    for scale, layout, grad in itertools.product(("float", "tensor", "grad", "vector"), (False, True), (False, True)):
        for n in range(1, 4 if tier == "thorough" else 3):
            for ops in itertools.product(OPS, repeat=n):
                yield {"scale": scale, "layout": layout, "grad": grad, "ops": list(ops)}
    if tier == "quick":
        for ops in itertools.product(OPS, repeat=3):
            yield {"scale": "tensor", "ops": list(ops)}


# ---------------------------------------------------------------- operators and gradients

FUNCTIONS = {
    "add": lambda t, o: t + o,
    "mul": lambda t, o: t * 2,
    "reshape": lambda t, o: t.reshape(-1),
    "permute": lambda t, o: t.permute(1, 0),
    "cat": lambda t, o: torch.cat([t, o]),
    "matmul": lambda t, o: t @ o,
    "relu": lambda t, o: ff.nn.functional.relu(t),
    "linear": lambda t, o: ff.nn.functional.linear(t, o),
    "functional": lambda t, o: torch.nn.functional.linear(t, o),
    "radd": lambda t, o: 1 - t,
    "sum": lambda t, o: t.sum(),
}


def gen_operators(tier):
    for name, other, strict, grad, scale in itertools.product(FUNCTIONS, ("custom", "affine", "float", "same"), (False, True), (False, True), ("tensor", "vector")):
        yield {"f": name, "o": other, "strict": strict, "grad": grad, "scale": scale}


def run_operators(case):
    _, func, fn = create_quantization_function("Affine", q_impl, d_impl)
    scale = torch.tensor(0.5) if case["scale"] == "tensor" else torch.tensor([0.5, 0.25])
    x, s = DATA.clone().requires_grad_(case["grad"]), scale.requires_grad_(case["grad"])
    t = fn(x, scale=s, shift=0.25, gain=2.0)
    y = torch.tensor([[0.5, 0.25], [-1.0, 1.5]])
    if case["o"] == "custom":
        other = fn(y, scale=torch.tensor(0.25), shift=1.0)
    elif case["o"] == "affine":
        other = ff.quantization.affine.quantize_per_tensor(y, torch.tensor(0.25), None, 4)
    elif case["o"] == "same":
        other = t
    else:
        other = y
    f = FUNCTIONS[case["f"]]
    with ff.strict_quantization(case["strict"]):
        try:
            result = f(t, other)
        except (ff.exceptions.QuantizationError, NotImplementedError):
            check(case["strict"], "an operator on a custom quantized tensor is refused although quantization is not strict", str(case))
            return Stats(1, 1, 1, "refused")
    check(not case["strict"], "an operator dequantizes although quantization is strict", str(case))
    x2, s2 = DATA.clone().requires_grad_(case["grad"]), scale.detach().clone().requires_grad_(case["grad"])
    plain = d_impl(q_impl(x2, s2, 0.25), s2, 0.25, 2.0)
    with ff.strict_quantization(False):
        want = f(plain, plain if case["o"] == "same" else other.dequantize() if isinstance(other, ff.QuantizedTensor) else other)
    check(type(result) is torch.Tensor and torch.equal(result, want), "an operator on a custom quantized tensor computes something else", lambda: f"{case}: {result} {want}")
    if case["grad"]:
        weights = torch.arange(1.0, result.numel() + 1).reshape(result.shape)
        (result * weights).sum().backward()
        (want * weights).sum().backward()
        for a, b in ((x.grad, x2.grad), (s.grad, s2.grad)):
            check(torch.equal(a, b), "the gradients are not those of the two functions", lambda: f"{case}: {a} {b}")
    return Stats(2, 2, 1, want.tolist())


FAMILIES = [
    Family("signatures", gen_signatures, run_signatures, "pairs of signatures: one parameter each (2 names, 6 defaults, 5 kinds, 3 annotations), two each (3 names, 2 (quick) or 3 defaults, 2 kinds), three and up to two; called with every subset of the parameters and an unknown one"),
    Family("tensors", gen_tensors, run_tensors, "histories of up to 2 (quick; 3 for one configuration) or 3 of 11 operations on the tensors of a custom function x 4 kinds of parameters x layout x gradients"),
    Family("operators", gen_operators, run_operators, "11 operators x 4 kinds of second operand x strict mode x gradients x scales"),
]
