"""C29: functions generated from operator schemas do what the schema says."""

from __future__ import annotations

import ast
import functools
import importlib
import inspect
import itertools
import os
import pathlib
import sys
import tempfile

import torch

import fastforward as ff

from fastforward._quantops import OperatorTable, generate, symtypes
from fastforward.dispatcher import dispatch
from fastforward.exceptions import QuantizationError

from mc.harness import Family, Stats, check

PROP = "C29"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small operator schemas and of all shipped operators; the generated functions are executed for all kinds of arguments, settings and quantizers, and the calls that reach the fallback are recorded and compared with a reference model of the schema"
ASSUMPTIONS = [
    "schemas with up to two parameters (three in the thorough tier) of nineteen types",
    "the fallback of a generated function is replaced by a recorder to observe the arguments that reach it; calls for which a kernel is registered are left to C10",
    "the values computed with default arguments are compared on one sample per shipped operator",
]

NAMES = ["a", "b", "c", "d"]


def _import(name):
    mod, _, attr = name.rpartition(".")
    return getattr(importlib.import_module(mod), attr)


# ----------------------------------------------------------------------------- generated code

KINDS = {
    # type text -> (accepted values, default)
    "Quantized": (["q", "t"], None),
    "Tensor": (["t"], None),
    "MaybeQuantized": (["q", "t"], None),
    "Optional[Quantized]": (["q", "t", None], "None"),
    "Optional[MaybeQuantized]": (["q", "t", None], "None"),
    "Quantized | float": (["q", "t", 0.5], None),
    "list[Quantized]": ([["q", "q"], ["q", "t"], ["t"], []], None),
    "Sequence[MaybeQuantized]": ([["q", "t"], ["t"]], None),
    "Optional[list[Quantized]]": ([["q", "t"], ["q"], None], "None"),
    "int": ([3], "7"),
    "float": ([0.25], "1e-5"),
    "bool": ([True], "False"),
    "str": (["word"], "'mean'"),
    "str ": (["word"], "'it\\'s'"),
    "Optional[str]": (["word", None], "'mean'"),
    "int | str": ([2, "word"], "'same'"),
    "tuple[int, ...]": ([(1, 2)], "(1, 2)"),
    "Size": ([(1, 2)], "(1,)"),
    "Optional[float]": ([0.5, None], "None"),
    "int | Size": ([2, (1, 2)], "1"),
}
TENSORS = [k for k in KINDS if "Quant" in k or k == "Tensor"]


def gen_code(tier):
    returns = ["Quantized", "Tensor", "MaybeQuantized"]
    for kind in KINDS:
        for ret in returns:
            for default in (0, 1) if KINDS[kind][1] else (0,):
                yield {"params": [[kind, default]], "ret": ret}
    second = list(KINDS) if tier == "thorough" else ["Quantized", "Optional[Quantized]", "int", "list[Quantized]", "Optional[str]"]
    for a, b in itertools.product(TENSORS, second):
        for db in (0, 1) if KINDS[b][1] else (0,):
            for ret in returns if tier == "thorough" else ["Quantized"]:
                yield {"params": [[a, 0], [b, db]], "ret": ret}
    if tier == "thorough":
        for a, b, c in itertools.product(TENSORS, ["Quantized", "Optional[Quantized]", "Quantized | float"], ["int", "str", "Optional[MaybeQuantized]"]):
            yield {"params": [[a, 0], [b, 0], [c, 1]], "ret": "Quantized"}


def code_spec(case):
    parts = []
    for name, (kind, default) in zip(NAMES, case["params"]):
        parts.append(f"{name}: {kind.strip()}" + (f" = {KINDS[kind][1]}" if default else ""))
    return f"relu({', '.join(parts)}) -> {case['ret']}"


class Recorder:
    """Stands in for the fallback function and records its arguments."""

    def __init__(self):
        self.calls = []

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return torch.tensor([1.5, -2.25])


class Replace:
    def __init__(self, qualified, value):
        mod, _, self.attr = qualified.rpartition(".")
        self.mod, self.value = importlib.import_module(mod), value

    def __enter__(self):
        self.old = getattr(self.mod, self.attr)
        setattr(self.mod, self.attr, self.value)

    def __exit__(self, *exc):
        setattr(self.mod, self.attr, self.old)


_counter = itertools.count()


class Package:
    """Generates both modules of a table into a package of its own and imports it."""

    def __init__(self, table, source):
        self.dir = tempfile.TemporaryDirectory()
        self.name = f"generated_{os.getpid()}_{next(_counter)}"
        dest = pathlib.Path(self.dir.name) / self.name
        dest.mkdir()
        (dest / "__init__.py").write_text("")
        generate.generate(table, source=source, destination=dest)

    def __enter__(self):
        sys.path.insert(0, self.dir.name)
        importlib.invalidate_caches()
        self.fallback = importlib.import_module(self.name + ".fallback")
        self.operators = importlib.import_module(self.name + ".operators")
        sys.path.remove(self.dir.name)
        self.dir.cleanup()
        return self

    def __exit__(self, *exc):
        for m in [m for m in sys.modules if m.split(".")[0] == self.name]:
            del sys.modules[m]


def quantizer():
    q = ff.nn.LinearQuantizer(num_bits=4)
    q.quantization_range = (-2.0, 2.0)
    return q


DATA = torch.tensor([0.5, -1.0, 1.25])


def value(v):
    if v == "q":
        return quantizer()(DATA)
    if v == "t":
        return DATA.clone()
    if isinstance(v, list):
        return [value(x) for x in v]
    return v


def is_quant(v):
    return isinstance(v, ff.QuantizedTensor)


def same_value(got, given):
    """`got` is what the fallback receives for the argument `given`."""
    if isinstance(given, list):
        return isinstance(got, (list, tuple)) and len(got) == len(given) and all(map(same_value, got, given))
    if is_quant(given):
        return isinstance(got, torch.Tensor) and not is_quant(got) and torch.equal(got, given.dequantize())
    if isinstance(given, torch.Tensor):
        return not is_quant(got) and isinstance(got, torch.Tensor) and torch.equal(got, given)
    return type(got) is type(given) and got == given


def strict_ok(kind, given):
    """A tensor argument is acceptable under strict quantization."""
    if "Quantized" not in kind or "Maybe" in kind:
        return True
    items = given if isinstance(given, list) else [given]
    return all(is_quant(x) or not isinstance(x, torch.Tensor) for x in items)


def expected_defaults(case):
    return [ast.literal_eval(KINDS[k][1]) if d else inspect.Parameter.empty for k, d in case["params"]]


def check_signature(fn, names, defaults, quant, strict_default, what):
    sig = list(inspect.signature(fn).parameters.values())
    plain = [p for p in sig if p.kind is not p.KEYWORD_ONLY]
    check([p.name for p in plain] == names, "names", (what, sig))
    for p, d in zip(plain, defaults, strict=True):
        check(type(p.default) is type(d) and p.default == d, "default", (what, p, d))
    kw = {p.name: p.default for p in sig if p.kind is p.KEYWORD_ONLY}
    want = {"strict_quantization": strict_default, **({"output_quantizer": None} if quant else {})}
    check(kw == want, "quantization-parameters", (what, kw))


def probe(fns, fallback_name, kinds, names, given, quant, strict, outq, what):
    """Call a generated function and compare with what its specification says."""
    fb, op = fns
    for fn, via in ((fb, "fallback"), (op, "operator"), (op, "flag")):
        rec = Recorder()
        kwargs = {"strict_quantization": strict}
        if quant:
            kwargs["output_quantizer"] = outq
        ok = not strict or (not quant or outq is not None) and all(strict_ok(kinds[n], v) for n, v in given.items())
        if via != "fallback" and dispatch(fn.__name__, **given, **kwargs) is not None:
            continue  # a kernel is registered for these arguments (C10)
        if via == "flag":
            del kwargs["strict_quantization"]
        with Replace(fallback_name, rec), ff.strict_quantization(strict if via == "flag" else not strict):
            try:
                out = fn(**given, **kwargs)
            except QuantizationError as e:
                check(not ok, "rejected", lambda: (what, via, strict, str(e)))
                check(not rec.calls, "computed", lambda: (what, via))
                continue
        check(ok, "not-rejected", lambda: (what, via, strict, outq is None))
        check(len(rec.calls) == 1, "calls", lambda: (what, via, len(rec.calls)))
        args, got = rec.calls[0]
        got = {**dict(zip(names, args)), **got}
        for n, v in given.items():
            check(n in got and same_value(got[n], v), "argument", lambda: (what, via, n, got.get(n), v))
        check(set(got) == set(names), "arguments", lambda: (what, via, set(got)))
        raw = Recorder()()
        if quant and outq is not None:
            check(is_quant(out) and torch.equal(out.dequantize(), outq(raw).dequantize()), "output", lambda: (what, via, out))
        else:
            check(not is_quant(out) and torch.equal(out, raw), "output", lambda: (what, via, out))


def run_code(case):
    spec = code_spec(case)
    kinds = {n: k for n, (k, _) in zip(NAMES, case["params"])}
    names, quant = list(kinds), "Quantized" in case["ret"]
    source = pathlib.Path(tempfile.gettempdir()) / "operators.yaml"
    table = OperatorTable()
    table.add(spec, fallback_op="torch.relu", specification_file=source, line_number=3)
    count = 0
    with Package(table, source) as pkg:
        fns = (pkg.fallback.relu, pkg.operators.relu)
        for fn, strict in zip(fns, (True, None)):
            check_signature(fn, names, expected_defaults(case), quant, strict, spec)
        # The schema read back from the generated signature is the same.
        choices = [KINDS[k][0] for k in kinds.values()]
        for picked in itertools.product(*choices):
            for strict in (True, False):
                for outq in (None, quantizer()) if quant else (None,):
                    given = {n: value(v) for n, v in zip(names, picked)}
                    count += 3
                    probe(fns, "torch.relu", kinds, names, given, quant, strict, outq, (spec, picked))
        # Defaults
        required = {n: value(KINDS[k][0][0]) for n, (k, d) in zip(names, case["params"]) if not d}
        rec = Recorder()
        with Replace("torch.relu", rec):
            pkg.operators.relu(**required, strict_quantization=False)
        for n, d in zip(names, expected_defaults(case)):
            if n not in required:
                check(same_value(rec.calls[0][1][n], d), "default-value", (spec, n, rec.calls[0][1][n]))
    return Stats(states=count, transitions=count, traces=count, outcome=(spec, count))


# ----------------------------------------------------------------------------- shipped operators

X = torch.linspace(-1.0, 1.0, 24)
SAMPLES = {
    "linear": lambda: dict(input=X.reshape(4, 6), weight=X[:12].reshape(2, 6)),
    "conv1d": lambda: dict(input=X.reshape(1, 2, 12), weight=X[:12].reshape(2, 2, 3)),
    "conv2d": lambda: dict(input=X.reshape(1, 1, 4, 6), weight=X[:8].reshape(2, 1, 2, 2)),
    "conv3d": lambda: dict(input=X.reshape(1, 1, 2, 3, 4), weight=X[:8].reshape(1, 1, 2, 2, 2)),
    "softmax": lambda: dict(input=X.reshape(4, 6), dim=1),
    "conv_transpose1d": lambda: dict(input=X.reshape(1, 2, 12), weight=X[:12].reshape(2, 2, 3)),
    "conv_transpose2d": lambda: dict(input=X.reshape(1, 1, 4, 6), weight=X[:8].reshape(1, 2, 2, 2)),
    "conv_transpose3d": lambda: dict(input=X.reshape(1, 1, 2, 3, 4), weight=X[:8].reshape(1, 1, 2, 2, 2)),
    "avg_pool1d": lambda: dict(input=X.reshape(1, 2, 12), kernel_size=2, stride=3),
    "avg_pool2d": lambda: dict(input=X.reshape(1, 1, 4, 6), kernel_size=2, stride=2),
    "avg_pool3d": lambda: dict(input=X.reshape(1, 1, 2, 3, 4), kernel_size=2, stride=1),
    "embedding": lambda: dict(input=torch.tensor([1, 0, 2]), weight=X.reshape(6, 4)),
    "layer_norm": lambda: dict(input=X.reshape(4, 6), normalized_shape=(6,)),
    "rms_norm": lambda: dict(input=X.reshape(4, 6), normalized_shape=(6,)),
    "matmul": lambda: dict(input=X.reshape(4, 6), other=X.reshape(6, 4)),
    "mm": lambda: dict(input=X.reshape(4, 6), mat2=X.reshape(6, 4)),
    "bmm": lambda: dict(input=X.reshape(2, 3, 4), mat2=X.reshape(2, 4, 3)),
    "sum": lambda: dict(input=X.reshape(4, 6)),
    "pow": lambda: dict(input=X.abs(), exponent=2.0),
    "permute": lambda: dict(input=X.reshape(4, 6), dims=(1, 0)),
    "cat": lambda: dict(tensors=[X.reshape(4, 6), X.reshape(4, 6)]),
    "index_add": lambda: dict(input=X.reshape(4, 6), dim=0, index=torch.tensor([1, 0]), source=X[:12].reshape(2, 6)),
    "cumsum": lambda: dict(input=X.reshape(4, 6), dim=1),
    "pad": lambda: dict(input=X.reshape(4, 6), pad=[1, 2]),
    "max_pool2d": lambda: dict(input=X.reshape(1, 1, 4, 6), kernel_size=2),
    "interpolate": lambda: dict(input=X.reshape(1, 2, 12), size=5),
    "unfold": lambda: dict(input=X.reshape(1, 1, 4, 6), kernel_size=2),
    "full_like": lambda: dict(input=X, fill_value=3),
    "dropout": lambda: dict(input=X),
    **{n: (lambda: dict(input=X.reshape(4, 6), other=X.flip(0).reshape(4, 6) + 2)) for n in ("add", "sub", "mul", "div", "floor_divide", "remainder")},
    **{n: (lambda: dict(input=torch.arange(6), other=torch.tensor([1, 2, 3, 1, 2, 3]))) for n in ("bitwise_and", "bitwise_or", "bitwise_xor", "bitwise_left_shift", "bitwise_right_shift")},
    "bitwise_not": lambda: dict(input=torch.arange(6)),
    **{n: (lambda: dict(input=X.reshape(4, 6))) for n in ("relu", "sigmoid", "negative", "positive", "silu", "gelu", "ones_like", "zeros_like", "empty_like", "exp", "sin", "cos")},
}


def _table():
    return OperatorTable.from_yaml()


@functools.lru_cache(maxsize=None)
def _shipped():
    return list(_table())


@functools.lru_cache(maxsize=None)
def _regenerated():
    pkg = Package(_table(), pathlib.Path("operators.yaml"))
    return pkg.__enter__()


def gen_shipped(tier):
    for i in range(len(_shipped())):
        yield {"i": i, "tier": tier}


def _literal(param):
    if param.default_value is None:
        return inspect.Parameter.empty
    if param.param_type == symtypes.String:
        return param.default_value
    return ast.literal_eval(param.default_value)


def _values(param, tier):
    t = param.param_type
    quant = symtypes.QuantizedTensor in t
    out = []
    if t in (symtypes.List[symtypes.QuantizedTensor] | symtypes.List[symtypes.MaybeQuantized]):
        return [["q", "q"], ["q", "t"]]
    if quant:
        out += ["q", "t"]
    elif symtypes.Tensor in t:
        out.append("t")
    if symtypes.Float in t and quant:
        out.append(0.5)
    if symtypes.NoneType in t:
        out.append(None)
    if not quant and symtypes.Tensor not in t:
        out.append("other")
    return out


def kind_of(param):
    t = param.param_type
    if t == symtypes.List[symtypes.QuantizedTensor] or (symtypes.QuantizedTensor in t and symtypes.Tensor not in t):
        return "Quantized"
    return "MaybeQuantized" if symtypes.QuantizedTensor in t else "other"


def run_shipped(case):
    op = _shipped()[case["i"]]
    shipped = importlib.import_module("fastforward._gen.fallback"), importlib.import_module("fastforward._gen.operators")
    fresh = _regenerated()
    name, what = op.identifier, op.identifier
    fallback = op.metadata.fallback
    names = [p.name for p in op.parameters]
    kinds = {p.name: kind_of(p) for p in op.parameters}
    count = 0
    for fb, operators in (shipped, (fresh.fallback, fresh.operators)):
        fns = getattr(fb, name), getattr(operators, name)
        for fn, strict in zip(fns, (True, None)):
            check_signature(fn, names, [_literal(p) for p in op.parameters], True, strict, what)
        for picked in itertools.product(*[_values(p, case["tier"]) for p in op.parameters]):
            given = {n: object() if v == "other" else value(v) for n, v in zip(names, picked)}
            for strict in (True, False):
                for outq in (None, quantizer()):
                    count += 3
                    probe(fns, fallback, kinds, names, given, True, strict, outq, (what, picked))
    # A call with only the necessary arguments is the call of the fallback with these.
    check(name in SAMPLES, "sample", name)
    sample = SAMPLES[name]()
    required = {p.name for p in op.parameters if p.default_value is None}
    check(required <= set(sample), "required", (name, required))
    if name != "empty_like":
        with ff.strict_quantization(False):
            torch.manual_seed(0)
            got = getattr(ff.nn.functional, name)(**sample)
            torch.manual_seed(0)
            want = _import(fallback)(**sample)
        check(got.dtype == want.dtype and got.shape == want.shape and torch.equal(got, want), "defaults-differ", (name, got, want))
    return Stats(states=count, transitions=count, traces=count, outcome=(name, count))


FAMILIES = [
    Family("generated", gen_code, run_code, "generated functions of all small specifications x all argument kinds x strictness x output quantizer"),
    Family("shipped", gen_shipped, run_shipped, "all functions of fastforward.nn.functional, as committed and as regenerated"),
]
