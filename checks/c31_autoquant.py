"""C31: automatically quantized code computes what the original code computes."""

from __future__ import annotations

import collections
import contextlib
import copy
import importlib
import io
import itertools
import logging
import os
import pathlib
import re
import subprocess
import sys
import tempfile
import textwrap
import warnings

import torch
import fastforward as ff

from torch.overrides import TorchFunctionMode

from mc.harness import Family, Stats, check, Bad

PROP = "C31"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of programs over a grammar of statements, expressions, call graphs and names; the automatically quantized program is executed next to the original one on every input, and compared in results, exceptions, side effects and executed operators"
ASSUMPTIONS = [
    "programs use no arithmetic on Python numbers, which is treated as tensor arithmetic without type inference",
    "the operands of one operator do not change each other through side effects",
]

HEADER = '''
import contextlib
import math
import torch
import torch.nn.functional as F

LOG = []


def note(value):
    LOG.append(value)
    return value


def helper(a, b):
    return a * b + a


def helper_default(a, *, b=2.0):
    c = a * b
    if c.sum() > 0:
        return c
    return c - a


def helper_outer(a, b):
    return helper(b, a) - helper(a, b)


def helper_loop(a, b, k):
    for _ in range(k):
        a = a + b
    return a


def helper_recursive(a, b, k):
    if len(k) == 0:
        return a - b
    return helper_recursive(a + b, b, k[1:]) * a


def helper_even(a, k):
    return a if len(k) == 0 else helper_odd(a + a, k[1:])


def helper_odd(a, k):
    return a - 1 if len(k) == 0 else helper_even(a - 2, k[1:])


class {pre}Sub(torch.nn.Module):
    def forward(self, x):
        return torch.relu(x) + x


class {pre}Linear(torch.nn.Linear):
    pass


class {pre}Base(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.p = torch.nn.Parameter(torch.tensor([[1.0, -2.0], [0.5, 3.0]]))
        self.b = torch.nn.Parameter(torch.tensor([0.5, -1.0]))
        self.none = None
        self.sub = {pre}Sub()
        self.lin = torch.nn.Linear(2, 2)
        with torch.no_grad():
            self.lin.weight.copy_(torch.tensor([[1.0, -2.0], [0.5, 3.0]]))
            self.lin.bias.copy_(torch.tensor([1.0, -0.5]))
            self.b.requires_grad_(False)
'''

METHODS = '''
    def meth(self, a, b):
        return a - b * self.p

    def twice(self, a):
        return self.meth(self.meth(a, a), b=a)

    @staticmethod
    def smeth(a, b):
        return a * b

    @classmethod
    def cmeth(cls, a, b):
        return cls.smeth(a, b) + b
'''


class ExactQuantizer(ff.nn.Quantizer):
    """Quantizes the values of the programs without loss of precision.

    Code is quantized without knowledge of types, hence quantizers also see
    values that are not floating point tensors or that are quantized already.
    """

    def __init__(self):
        super().__init__()
        inner = ff.nn.LinearQuantizer(num_bits=44, granularity=ff.PerTensor())
        inner.to(torch.float64)
        inner.quantization_range = (-(2.0**29), 2.0**29 - 2.0**-14)
        inner.requires_grad_(False)
        object.__setattr__(self, "_inner", inner)

    def forward(self, data):
        if not isinstance(data, torch.Tensor) or isinstance(data, ff.QuantizedTensor):
            return data
        if not data.is_floating_point():
            return data
        return self._inner(data)


_TABLE = {
    "add": "add", "__radd__": "add", "__iadd__": "add",
    "sub": "sub", "__rsub__": "sub", "__isub__": "sub",
    "mul": "mul", "__rmul__": "mul", "__imul__": "mul",
    "matmul": "matmul", "__rmatmul__": "matmul",
    "neg": "negative", "negative": "negative",
    "relu": "relu", "linear": "linear", "cat": "cat",
}
_OPS = sorted(set(_TABLE.values()))


class _OriginalOps(TorchFunctionMode):
    def __init__(self):
        super().__init__()
        self.seen = []
        self.largest = 0.0

    def __torch_function__(self, func, types, args=(), kwargs=None):
        name = _TABLE.get(getattr(func, "__name__", ""))
        if name is not None:
            self.seen.append(name)
        result = func(*args, **(kwargs or {}))
        if name is not None and isinstance(result, torch.Tensor) and result.numel():
            with torch._C.DisableTorchFunction():
                largest = result.detach().double().abs().max().item()
            self.largest = max(self.largest, largest)
        return result


def _has_tensor(values):
    return any(
        isinstance(v, torch.Tensor) or (isinstance(v, (list, tuple)) and _has_tensor(v))
        for v in values
    )


def _unquantized(values):
    for v in values:
        if isinstance(v, (list, tuple)):
            yield from _unquantized(v)
        elif isinstance(v, torch.Tensor) and not isinstance(v, ff.QuantizedTensor):
            if v.is_floating_point():
                yield v


@contextlib.contextmanager
def _quantized_ops(seen):
    namespace = ff.nn.functional
    originals = {name: getattr(namespace, name) for name in _OPS}

    def wrap(name, func):
        def wrapper(*args, **kwargs):
            operands = [*args, *(v for k, v in kwargs.items() if k != "output_quantizer")]
            if _has_tensor(operands):
                seen.append((name, kwargs.get("output_quantizer"), len(list(_unquantized(operands)))))
            return func(*args, **kwargs)

        return wrapper

    try:
        for name, func in originals.items():
            setattr(namespace, name, wrap(name, func))
        yield
    finally:
        for name, func in originals.items():
            setattr(namespace, name, func)


_COUNTER = itertools.count()


def _indent(text, k):
    return textwrap.indent(text, " " * k)


def _forward_class(name, pre, program, placement):
    """Source of a module class that runs `program` in the position `placement`."""
    sig = "self, x, y, n"
    extra = ""
    if placement == "forward":
        body = program
    elif placement == "method":
        extra = f"    def body(self, x, y, n):\n{_indent(program, 8)}\n\n"
        body = "return self.body(x, y, n)"
    elif placement == "method-twice":
        extra = f"    def body(self, x, y, n):\n{_indent(program, 8)}\n\n"
        body = "return self.body(x, y, n), self.body(y, x, n=n)"
    elif placement == "helper":
        body = f"return body_{name}(x, y, n)"
    elif placement == "helper-twice":
        body = f"return body_{name}(x, y, n), body_{name}(n=n, a=y, b=x)"
    elif placement == "helper-nested":
        body = f"return mid_{name}(mid_{name}(x, y, n), y, n)"
    elif placement == "static":
        extra = f"    @staticmethod\n    def body(x, y, n):\n{_indent(program, 8)}\n\n"
        body = "return self.body(x, y, n)"
    elif placement == "branch":
        body = f"if n != 7:\n{_indent(program, 4)}\nelse:\n    y = y + x.mT\nreturn y"
    elif placement == "loop":
        body = f"for _ in range(2):\n    y = y * 2\n{_indent(program, 4)}"
    elif placement == "inherited":
        body = program
    elif placement == "with":
        body = f"with contextlib.nullcontext():\n{_indent(program, 4)}"
    else:
        raise ValueError(placement)
    src = f"class {name}({pre}Base):{METHODS}\n{extra}    def forward({sig}):\n{_indent(body, 8)}\n\n\n"
    if placement == "inherited":
        src = src.replace(f"class {name}(", f"class Base{name}(") + f"class {name}(Base{name}):\n    pass\n\n\n"
    if placement.startswith("helper"):
        first, second = ("a", "b") if placement == "helper-twice" else ("x", "y")
        prologue = "x, y = a, b\n" if placement == "helper-twice" else ""
        fn = f"def body_{name}({first}, {second}, n):\n{_indent(prologue + program, 4)}\n\n\n"
        if placement == "helper-nested":
            fn += (
                f"def mid_{name}(x, y, n):\n    r = body_{name}(x, y, n)\n"
                f"    r = r if isinstance(r, torch.Tensor) else y\n    return r + x\n\n\n"
            )
        src = fn + src
    return src


def _source(name, pre, program, placement):
    if placement == "calls":
        return _graph_class(name, pre, *program)
    if placement == "names":
        return _name_class(name, pre, *program)
    return _forward_class(name, pre, program, placement)


class Generated:
    """Modules for `programs`, and their automatically quantized counterparts."""

    def __init__(self, sources, root, header=HEADER, **options):
        k = f"{os.getpid()}_{next(_COUNTER)}"
        self.pre = f"P{k}_"
        self.name = f"c31prog_{k}"
        self.output = pathlib.Path(root) / f"c31out_{k}.py"
        names = [f"{self.pre}M{i}" for i in range(len(sources))]
        text = header.replace("{pre}", self.pre)
        text += "\n\n" + "".join(make(name, self.pre) for name, make in zip(names, sources))
        text += f"class {self.pre}Top(torch.nn.Module):\n    def __init__(self):\n        super().__init__()\n"
        text += f"        self.ms = torch.nn.ModuleList([{', '.join(n + '()' for n in names)}])\n"
        text += "\n    def forward(self, *args):\n        raise NotImplementedError\n"
        path = pathlib.Path(root) / f"{self.name}.py"
        path.write_text(text)
        self.source = text
        if str(root) not in sys.path:
            sys.path.insert(0, str(root))
        importlib.invalidate_caches()
        self.module = importlib.import_module(self.name)
        self.top = getattr(self.module, f"{self.pre}Top")().to(torch.float64)
        options.setdefault("use_type_inference", False)
        with _quiet():
            self.result = ff.autoquantize(
                self.top, output_path=self.output, auto_import=True, **options
            )
        self.quantized = copy.deepcopy(self.top)
        with _quiet():
            ff.quantize_model(self.quantized)

    def attach(self, factory=ExactQuantizer):
        model = copy.deepcopy(self.quantized)
        for module in list(model.modules()):
            for name, child in list(module.named_children()):
                if isinstance(child, ff.nn.QuantizerStub):
                    setattr(module, name, factory())
        return model


@contextlib.contextmanager
def _quiet():
    level = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            yield
    finally:
        logging.disable(level)


def _inputs():
    a = torch.tensor([[1.0, -1.5], [2.0, 0.25]], dtype=torch.float64)
    b = torch.tensor([[-0.5, 2.0], [1.0, 1.0]], dtype=torch.float64)
    for n in (0, 1, 2):
        yield a.clone(), b.clone(), n


def _plain(value):
    if isinstance(value, ff.QuantizedTensor):
        return value.dequantize().detach()
    if isinstance(value, torch.Tensor):
        return value.detach()
    if isinstance(value, (list, tuple)):
        return type(value)(_plain(v) for v in value)
    if isinstance(value, dict):
        return {k: _plain(v) for k, v in value.items()}
    return value


def _run(module, log, args):
    """Observable behaviour of a call: result, changed state and log of side effects."""
    log.clear()
    before = set(vars(module))
    with ff.strict_quantization(False):
        try:
            result = module(*args)
            if hasattr(result, "send"):
                result = list(result)
            outcome = ("returned", _plain(result))
        except Exception as error:  # noqa: BLE001
            outcome = ("raised", type(error).__name__)
    state = {
        k: _plain(v) for k, v in sorted(vars(module).items())
        if k not in before or k in ("k", "c", "count")
    }
    for k in [k for k in vars(module) if k not in before]:
        delattr(module, k)
    return outcome, state, list(log)


def _same(a, b, tol):
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if tol:
            scale = max(1.0, a.double().abs().max().item()) if a.numel() else 1.0
            return torch.allclose(a.double(), b.double(), rtol=tol, atol=tol * scale, equal_nan=True)
        return torch.equal(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(_same(a[k], b[k], tol) for k in a)
    return a == b


def _show(value):
    return str(value).replace("\n", " ")[:260]


def _uses_builtin_sum(program):
    return any(
        program[i : i + 4] == "sum(" and (i == 0 or program[i - 1] not in "._")
        for i in range(len(program))
    )


def run_programs(case):
    """Compare the programs of `case` to their automatically quantized counterparts."""
    stats = Stats()
    with tempfile.TemporaryDirectory(prefix="c31_") as root:
        sources = [
            (lambda name, pre, p=program, pl=placement: _source(name, pre, p, pl))
            for program, placement, _ in case["programs"]
        ]
        try:
            gen = Generated(sources, root)
            _compare(gen, case, stats)
        finally:
            with contextlib.suppress(ValueError):
                sys.path.remove(root)
    return stats


def _compare(gen, case, stats):
    exact = gen.attach()
    log = gen.module.LOG
    for idx, entry in enumerate(case["programs"]):
        _compare_program(gen, exact, log, idx, entry, stats)
        stats.states += 1
        stats.traces += 1
    stats.outcome = "agree"


def _compare_program(gen, exact, log, idx, entry, stats, reset=lambda: None, read=lambda: None):
    def _call(module, log, args):
        reset()
        outcome, state, seen = _run(module, log, args)
        return outcome, {**state, "state of modules": read()}, seen

    program, placement, flags = entry
    where = f"{placement}: {program!r}"
    # Inherited methods, other than `forward`, are not quantized
    also = ("ops", "operands") if placement == "inherited" and "self." in program else ()
    original = gen.top.ms[idx]
    stub = gen.quantized.ms[idx]
    quantized = exact.ms[idx]
    own = {id(m) for m in quantized.modules() if isinstance(m, ExactQuantizer)}
    check(
        isinstance(stub, ff.nn.QuantizedModule),
        f"not-quantized:{where}", "the module was not replaced",
    )
    for args in _inputs():
        n = args[2]
        clone = lambda: [a.clone() if isinstance(a, torch.Tensor) else a for a in args]
        expected = _call(original, log, clone())
        again = _call(original, log, clone())
        check(_same(expected, again, 0), f"oracle:{where}", "the program is not deterministic")
        got = _call(stub, log, clone())
        if "+=" in str(program) and expected[0] == ("raised", "RuntimeError"):
            # In-place operations, that do not broadcast, become assignments
            stats.outcome = "in-place"
            continue
        check(
            _same(expected, got, 0), f"result:{where}",
            f"n={n}: original {_show(expected)}, quantized code without quantizers {_show(got)}",
        )
        stats.transitions += 2

        if "stub" in flags:
            continue
        with _OriginalOps() as ops:
            _call(original, log, clone())
        if not ops.largest < 1e6:
            # The range and precision of the quantizers does not suffice
            stats.outcome = "large"
            continue
        seen = []
        with _quantized_ops(seen):
            got = _call(quantized, log, clone())
        check(
            _same(expected, got, 1e-3) or "inexact" in flags, f"value:{where}",
            f"n={n}: original {_show(expected)}, quantized with exact quantizers {_show(got)}",
        )
        stats.transitions += 2
        for name, quantizer, unquantized in seen:
            check(
                quantizer is not None and id(quantizer) in own, f"output:{where}",
                f"n={n}: {name} is executed without an output quantizer of the module",
            )
            if "operands" not in flags and "operands" not in also:
                check(
                    unquantized == 0, f"operand:{where}",
                    f"n={n}: {name} is executed with {unquantized} operands that are not quantized",
                )
        if "ops" not in flags and "ops" not in also and not _uses_builtin_sum(str(program)):
            missing = collections.Counter(ops.seen) - collections.Counter(s[0] for s in seen)
            # An operator that raises may do so before it is executed
            raised = expected[0][0] == "raised" and missing.total() == 1 and len(ops.seen) == len(seen) + 1
            check(
                raised or sorted(ops.seen) == sorted(s[0] for s in seen), f"operators:{where}",
                f"n={n}: original {sorted(ops.seen)}, quantized {sorted(s[0] for s in seen)}",
            )
        if "shared" not in flags and not any(
            t in str(program) for t in ("for ", "while ", "lambda", "def ", "helper_loop",
                                   "recursive", "helper_even")
        ) and placement not in ("method-twice", "loop") and str(program).count("self.sub(") < 2:
            used = [id(s[1]) for s in seen]
            check(
                len(set(used)) == len(used), f"shared:{where}",
                f"n={n}: {len(used)} operators share {len(set(used))} quantizers",
            )


def _batches(programs, size):
    programs = list(programs)
    for k in range(0, len(programs), size):
        yield {"programs": programs[k : k + size]}


# ---------------------------------------------------------------- statements

EXPRESSIONS = [
    "x + y", "x * self.p", "F.relu(x)", "torch.relu(y)", "-x", "x @ y",
    "F.linear(x, self.p, self.b)", "helper(x, y)", "helper_default(x)", "helper_outer(x, y)",
    "self.meth(x, y)", "self.smeth(x, y)", "self.cmeth(y, x)", "self.twice(x)", "self.sub(x)",
    "self.lin(x)", "F.relu(x + y) * x", "x[0] + y", "(x if n else y) + x",
    "torch.cat([a + y for a in x]).reshape(2, 2)", "sum([x, y])", "(lambda a: a + y)(x)",
    "x.reshape(2, 2)", "F.relu(input=x)", "(z := x + y) * z", "x * 2", "x - y - x", "x.mT + y",
    "self.p.mT - x.mT", "(x, y)[0] * x", "[x, y][1] * y", "{0: x}[0] + x",
    "helper_loop(x, y, k=n)", "helper_recursive(x, y, range(n))", "helper_even(x, range(n))",
    "(n and self.p * x) or y", "x[:1] * x[1:]", "self.none or x * y",
]
STATEMENTS = [
    "x = {e}", "x = x.clone()\nx += {e}", "y = x; x = {e}", "x, y = {e}, x", "x, (y, w) = y, ({e}, x)",
    "if n:\n    x = {e}", "if n:\n    x = {e}\nelse:\n    x = x - y",
    "if n > 1:\n    x = {e}\nelif n:\n    y = {e}\nelse:\n    y = x - y",
    "for i in range(2):\n    x = {e}",
    "for i in range(3):\n    if i == n:\n        break\n    x = {e}",
    "k = list(range(n))\nwhile k:\n    x = {e}\n    k = k[1:]",
    "with torch.no_grad():\n    x = {e}",
    "try:\n    x = {e}\nfinally:\n    y = x + y",
    "try:\n    x = {e}\n    x = x @ torch.ones(3)\nexcept (RuntimeError, ValueError):\n    y = y - x",
    "if n:\n    return {e}",
    "for a in (x, y):\n    x = {e}\n    if n:\n        continue\n    y = a + y",
    "def inner(a):\n    return a + {e}\nx = inner(y)",
    "x = z = {e}", "x = [{e}, y]\nx = x[0] + x[1]", 'd = dict(a={e})\nx = d["a"] - y',
    "x = {e} if n else y", "x = y if not n else {e}", "r = [{e} for y in (x, y)]\nx = r[0 if n else 1]",
    "self.c = {e}\nx = self.c - x", "assert ({e}).sum() < 1e6\nx = x * y",
    "x: torch.Tensor = {e}", "x[0] = ({e})[1]",
]


def _flags(program):
    flags = []
    unknown = ("sum([", "lambda", "def inner", "self.lin(", "@ torch.ones(3)")
    if any(u in program for u in unknown) or re.search(r"[-+*]= ", program):
        flags.append("ops")
    if any(u in program for u in ("lambda", "def inner", ":=", "torch.cat([", "sum([")):
        flags.append("operands")
    if "self.meth(" in program or "self.twice(" in program:
        flags.append("shared")
    if ".add_(" in program or re.search(r"\][^=\n(]*(?<![=<>!])=(?!=)", program):
        # Quantized tensors do not support item assignment
        flags.append("stub")
    return tuple(flags)


PLACEMENTS = [
    "forward", "method", "method-twice", "helper", "helper-twice", "helper-nested", "static",
    "branch", "loop", "with", "inherited",
]


def _allowed(program, placement):
    if placement.startswith("helper") or placement == "static":
        if "yield" in program and placement == "helper-twice":
            return False  # compares generators
        return "self" not in program and "global" not in program
    if placement == "loop":
        return "nonlocal" not in program
    return True


TAIL = "return x - y"


def _body(*statements):
    return "\n".join([*statements, TAIL])


def gen_statements(tier):
    def programs():
        for j, s in enumerate(STATEMENTS):
            for i, e in enumerate(EXPRESSIONS):
                program = _body(s.replace("{e}", e))
                placements = [p for p in PLACEMENTS if _allowed(program, p)]
                if tier != "thorough":
                    if (i + j) % 2:
                        continue
                    placements = [placements[(i + 3 * j) % len(placements)]]
                for placement in placements:
                    yield program, placement, _flags(program)

    yield from _batches(programs(), 40)


def gen_pairs(tier):
    expressions = EXPRESSIONS if tier == "thorough" else ["x + y", "self.meth(x, y)"]

    def programs():
        for k, (s, t) in enumerate(itertools.product(STATEMENTS, repeat=2)):
            for i, e in enumerate(expressions):
                if tier != "thorough" and (k + 2 * i) % 4:
                    continue
                other = EXPRESSIONS[(k + i) % len(EXPRESSIONS)]
                program = _body(s.replace("{e}", e), t.replace("{e}", other))
                yield program, "forward", _flags(program)

    yield from _batches(programs(), 40)


CHANGES = [
    "x = x - y", "x = x.mT", "self.c = x", "x[0] = y[0]", "x.add_(1)", "y = x",
    "if n:\n    x = x - y", "for y in (x, y):\n    x = x + y", "x = [x, y]\nx = x[0]",
    "x, y = y, x", "w, (x, *_) = x, [y, x]", "with contextlib.nullcontext(y) as x:\n    pass",
    "y = (x := x * y)", "del y\ny = x", "try:\n    y = x\n    x = x @ torch.ones(3)\nexcept RuntimeError:\n    x = x - y",
    "if n:\n    x = x.mT + y", "if n > 1:\n    x = self.p + x.mT\nelif n:\n    y = x.mT + y\nelse:\n    y = x - y",
]
USES = [
    "w = x.mT + y", "w = x[0] + y", "w = self.p + x.mT", "w = (x if n else y) + x.mT",
    "w = torch.cat([x, y])[:2] + x[0]", "w = F.relu(x[0 if n else 1])", "w = helper(x.mT, x[0])",
    "w = self.meth(x.mT, x.mT)", "w = x[0] * x[0]",
    'w = y * self.c if hasattr(self, "c") else x + y',
    "if n:\n    w = x.mT + y\nelse:\n    w = x.mT - y",
    "if x[0].sum() > 1:\n    w = x + y\nelse:\n    w = y", "w = [a.mT + x.mT for a in (x, y)][0]",
]


def gen_sequences(tier):
    def programs():
        for use in USES:
            for change in CHANGES:
                flags = _flags(f"{use}\n{change}")
                yield f"w = x\n{use}\n{change}\n{use}\nreturn w - x", "forward", flags
                if tier == "thorough":
                    yield f"w = x\n{change}\n{use}\n{change}\nreturn w + x[0]", "forward", flags
                else:
                    yield f"w = x\n{change}\n{use}\nreturn w + x[0]", "forward", flags
                inner = textwrap.indent(f"{use}\n{change}", "    ")
                yield f"w = x\nfor _ in range(3):\n{inner}\nreturn w + x[0]", "forward", flags
                if tier == "thorough":
                    for other in CHANGES:
                        program = f"{use}\n{change}\n{other}\n{use}"
                        yield f"w = x\n{program}\nreturn w - x", "forward", _flags(program)

    yield from _batches(programs(), 40)


def gen_constructs(tier):
    def programs():
        for program, flags in CONSTRUCTS:
            for placement in PLACEMENTS if tier == "thorough" else ("forward", "method", "helper"):
                if "yield" in program and placement == "method-twice":
                    # Generators are compared through the values that they yield
                    continue
                if _allowed(program, placement):
                    yield program, placement, (*flags, *_flags(program))

    yield from _batches(programs(), 40)


# Statements and expressions of the language, with what is not compared for them:
# ops: the operators that are executed, operands: whether their operands are quantized
CONSTRUCTS = [
    ("while (x + y).sum() < 30 and n < 5:\n    x = x + y * 2\n    n = 7 if x.sum() > 9 else n\n    y = y * y + 1\nreturn x", ("inexact",)),
    ("if n == 0 or (x / n).sum() > 1:\n    return x\nreturn y", ()),
    ("if n == 0:\n    return x\nelif (x / n).sum() > 1:\n    return y\nreturn x - y", ()),
    ("return x if n and (x * y).sum() > 0 else y", ()),
    ("return x if n and helper(x, y).sum() > 0 else y", ()),
    ("r = n and x * y\nreturn r", ()),
    ("r = []\nfor a in [x * y, x - y]:\n    r.append(a + x)\nreturn torch.stack(r)", ()),
    ("for i in range(3):\n    if (x * i).sum() > 1:\n        return x * i\n    x = x + y\nreturn y", ()),
    ("for i, a in enumerate(x):\n    y = y + a * i\nreturn y", ()),
    ("for a, b in zip(x, y):\n    x = x + a * b\nreturn x", ()),
    ("[x, y] = [y, x]\nreturn x - y", ()),
    ("x, *r = x, y, x\nreturn x + r[0]", ()),
    ("(x, y), z = (y, x), x\nreturn x + z * y", ()),
    ("a = b = x * y\nreturn a + b", ()),
    ('assert (x + y).sum() < 100, "a"\nreturn x', ()),
    ("del y\nreturn x * x", ()),
    ("x[1 if n else 0] = y[0] * 2\nreturn x + y", ()),
    ("x[0], y[1] = y[0] * 2, x[1] + 1\nreturn x + y", ()),
    ("self.k = x * y\nreturn self.k + x", ()),
    ('d = {"a": x * y, **{"b": y}}\nreturn d["a"] + d["b"]', ()),
    ("l = [*[x * y, x], y]\nreturn l[0] + l[2]", ()),
    ("return torch.stack([x * y, x + y])", ()),
    ('return x * y, {"a": x + y}, [x - y]', ()),
    ("f = helper\nreturn f(x, y) + x", ("ops",)),
    ("f = lambda a, b=y * 2: a * b\nreturn f(x)", ("ops",)),
    ("g = (a * y for a in (x, y))\nx = x + 1\nreturn sum(g)", ("ops",)),
    ("s = {i: a * y for i, a in enumerate((x, y)) if i != n}\nreturn list(s.values())[0]", ()),
    ("r = [a * b for a in (x, y) for b in (x, y) if (a != b).any()]\nreturn r[0] + r[1]", ()),
    ("r = [[a + b for b in (x, y)] for a in (x, y)]\nreturn r[0][1] - r[1][1]", ()),
    ("try:\n    x = x @ torch.ones(3)\nexcept RuntimeError as e:\n    x = x + y\nreturn x", ("ops",)),
    ('try:\n    y = x + y\n    raise ValueError("v")\nexcept ValueError:\n    x = x * y\nelse:\n    x = x * 0\nfinally:\n    x = x - 1\nreturn x', ()),
    ("try:\n    return x * y\nfinally:\n    x = x + y\n    self.z = x", ()),
    ("with torch.no_grad() as g, contextlib.nullcontext(x * y) as h:\n    x = h + x\nreturn x * y", ()),
    ("with contextlib.suppress(RuntimeError):\n    x = x + y\n    x = x @ torch.ones(3)\n    x = x * 0\nreturn x * y", ("ops",)),
    ("def inner(a, b=x):\n    nonlocal y\n    y = a * b\n    return y + a\nz = inner(x + y)\nreturn z - y", ("ops",)),
    ("def inner(a):\n    if a.sum() > 100 or n == 0:\n        return a\n    return inner(a * 2)\nreturn inner(x) + y", ("ops",)),
    ('"""doc"""\nx = x + y\nreturn x', ()),
    ("x = x + y; y = x * y; return x - y", ()),
    ("if n: x = x + y\nreturn x * 2", ()),
    ("if n: x = x + y; y = x * 2\nelse: y = y - x\nreturn x * y", ()),
    ("for i in range(2): x = x + y\nreturn x * 2", ()),
    ("return (x\n    + y\n    * x)", ()),
    ("return F.relu(\n    x,  # c\n    inplace=False,\n)", ("ops",)),
    ("import math\nfrom torch import nn as tnn\nreturn x * math.sqrt(4) + tnn.functional.relu(y)", ("ops",)),
    ("from torch.nn.functional import relu as rr\nreturn rr(x) + y", ("ops",)),
    ("global GG\nGG = x * y\nreturn GG + y", ()),
    ('kw = {"bias": self.b}\nreturn F.linear(x, self.p, **kw) + y', ("operands",)),
    ("args = (x, self.p)\nreturn F.linear(*args, bias=self.b)", ("operands", "ops")),
    ("return F.linear(weight=self.p, input=x + y)", ()),
    ("return torch.add(x, y, alpha=2)", ()),
    ("return torch.add(input=x, other=y)", ()),
    ("return torch.mul(x, 3) + 2 * y - x / 2 + 1", ()),
    ("return x.add(y).mul(2).relu()", ("ops", "operands")),
    ("return x.view(-1) @ y.reshape(-1)", ()),
    ("return -(x ** 2) + abs(y) // 1 % 2", ()),
    ("return (x > y) * x + (x == y) * y", ()),
    ("return torch.where(x > 0, x + y, x * y)", ()),
    ("return x.softmax(dim=-1) + torch.nn.functional.softmax(y, dim=0)", ("inexact",)),
    ("return self.lin(self.sub(x) + y)", ("ops",)),
    ("return self.lin.forward(x) + self.lin.weight * y", ("ops",)),
    ("m = self.lin\nreturn m(x) + m(y)", ("ops", "shared")),
    ("for m in [self.sub, self.lin]:\n    x = m(x) + y\nreturn x", ("ops",)),
    ("return self.meth(self.meth(x, y), b=self.meth(x, x))", ("shared",)),
    ("return self.meth(b=x, a=y) * self.smeth(x, y)", ()),
    ("return type(self).smeth(x, y) + self.__class__.smeth(y, y)", ("ops",)),
    ('return getattr(self, "meth")(x, y) + x', ("ops",)),
    ("return super().__class__.__name__ and x * y", ()),
    ('return helper(*[x, y]) + helper(**{"a": x, "b": y})', ()),
    ("return helper_default(x, b=y) - helper_default(y)", ("operands",)),
    ("return helper_outer(helper_outer(x, y), helper(x, y))", ()),
    ("return torch.utils.checkpoint.checkpoint(helper, x, y, use_reentrant=False) + x", ("ops", "operands")),
    ("if not (z := (x * y).sum()) > 0:\n    return z + x\nreturn z - x", ()),
    ("if isinstance(x, torch.Tensor) and (x * 2).shape[0] == 2:\n    return x + y\nreturn y", ()),
    ("x = x + y if n else x\nx = x * y if n > 1 else y - x if n else x\nreturn x + x", ()),
    ("y = (x + y, x - y)[1 if n else 0]\nreturn y * x", ()),
    ("x, y = (x + y), (x - y)\nreturn x * y", ()),
    ("x = x + y\ny = x\nx = x * 2\nreturn x - y", ()),
    ("if n:\n    z = x + y\nelse:\n    z = None\nif z is not None:\n    return z * 2\nreturn x - y", ()),
    ("if n == 1:\n    raise ValueError(str((x + y).shape))\nreturn x + y", ()),
    ("f = torch.relu\nreturn f(x) + y", ("ops",)),
    ("r = x\nfor f in (torch.relu, torch.neg):\n    r = f(r) + y\nreturn r", ("ops",)),
    ("w = self.p if n else x\nreturn x + w", ()),
    ("w = self.p.data.clone()\nw[0] = 7.0\nreturn x * w + w", ()),
    ("self.c = self.b + 1\nx = x + self.c\nself.c = x * 2\nreturn x + self.c", ()),
    ("p = self.p\nif n:\n    p = p + x\nreturn p * y + self.p", ()),
    ("return (lambda: x + y)()", ("ops",)),
    ("return sorted([x + y, x], key=lambda t: (t * 2).sum().item())[0] - y", ("ops",)),
    ("return list(map(lambda t: t * y, [x, y]))[0 if n else 1]", ("ops",)),
    ("return sum(a * b for a, b in ((x, y), (y, x))) + 1", ("ops",)),
    ("x = [x]\nx.append(x[0] * y)\nreturn x[1] + x[0]", ()),
    ("i = iter([x, y])\nreturn next(i) - next(i)", ("ops", "operands")),
    ("i = iter([[x], [y]])\nreturn next(i)[0] - next(i)[0]", ()),
    ("return torch.rand(2, generator=torch.Generator().manual_seed(1))[0] * x", ("stub",)),
    ("while True:\n    x = x + y\n    if n >= 1:\n        break\n    n = 1\nreturn x * y", ()),
    ("for i in range(3):\n    for j in range(2):\n        if j == n:\n            break\n        x = x + y * j\n    y = y - x\nreturn x", ()),
    ("for _ in range(2):\n    x, y = y, x + y\nreturn x", ()),
    ("for i in range(2):\n    if i:\n        z = z + x\n    else:\n        z = x * y\nreturn z", ()),
    ("note(1)\nx = x + y\nnote(2)\nreturn note(x) * note(y)", ()),
    ("return (note(1) and x + y) if note(n) else (note(2) and x * y)", ()),
    ("return note(0) or note(n) or note(x + y)", ()),
    ("x = note(x) * y if n and note(n) else note(y) - x\nreturn x", ()),
    ("r = [note(a + y) for a in (x, y) if note(n)]\nreturn r", ()),
    ("while note(n):\n    n = 0\n    x = x * y\nreturn x", ()),
    ("assert note(n) < 2, note((x + y).sum())\nreturn x * y", ()),
    ("raise ValueError((note(x) + y).sum()) if n > 1 else TypeError()", ("operands",)),
    ("for a in note([x, y]):\n    if note(n):\n        break\n    x = x + a\nreturn x", ()),
    ("try:\n    note(x + y)\n    x[9] = note(y * 2)\nexcept IndexError:\n    note(3)\nfinally:\n    note(x - y)\nreturn x", ()),
    ("yield x + y\nfor a in (x, y):\n    yield a * y\nreturn", ("ops", "operands")),
    ("yield from (a * y for a in (x, y))", ("ops", "operands")),
    ("return x.shape[0], x.sum().item(), x.dtype, (x + y).requires_grad", ()),
    ("return x + torch.ones(2, 2, dtype=torch.float64) * y", ()),
    ("return torch.nn.functional.pad(x * y, (0, 1)) + 1", ()),
    ("return {k: v + y for k, v in dict(a=x, b=y).items()}", ()),
    ("x = x + y  # comment\n# another\nreturn x", ()),
    ("if n:\n    pass\nelse:\n    return x * y\nreturn", ()),
    ("(a, b), c = torch.stack([x, y]), x + y\nreturn a * b - c", ()),
    ("x = y = z = x + y\nx = x * z\nreturn x, y, z", ()),
    ("with contextlib.ExitStack() as s:\n    s.callback(note, x + y)\n    return x * y", ()),
    ("x = (x + y).reshape(*x.shape)\nreturn x[..., None] * y[:, :, None]", ()),
    ("return x @ y @ x + x.T @ -y", ()),
    ("return F.relu(x) if x.sum() > y.sum() else F.relu(-x) if n else F.relu(y)", ()),
    ("with contextlib.nullcontext(x * y) as x, contextlib.nullcontext(helper(x, y)) as h:\n    x = h + x\nreturn x", ("operands",)),
    ("r = (x := x * y) + helper(x, y)\nreturn r - x", ()),
    ("r = helper(x := x * y, x + y)\nreturn r - x", ()),
    ("r = [x := x + y, helper(x, y), x * y]\nreturn r", ()),
    ("a, b = (x := y), x * y\nreturn a - b", ()),
    ("return 0 < n < note((x * y).sum())", ()),
    ("return x if 0 < n < note(helper(x, y)).sum() else y", ()),
    ("if (s := x * y).sum() > 0 and helper(s, x).sum() > 0:\n    return s\nreturn x", ()),
    ("assert n < 2, note((x * y).sum())\nreturn x", ()),
    ("assert n, (x * y)[n]\nreturn x", ()),
    ("while (x := x + y).sum() < 20:\n    y = helper(x, y)\nreturn x * y", ()),
    ('return f"{x * y}", f"{helper(x, y)!r:>5}"', ("stub",)),
    ('x = {**{"a": x * y}, "b": helper(x, y)}\nreturn x["a"] - x["b"]', ()),
    ("a = lambda q=helper(x, y): q + x\nx = x * y\nreturn a()", ()),
    ("def inner(a=x * y):\n    return a\nx = x + y\nreturn inner() + x", ()),
    ("return (x * y, *[helper(x, y)])", ()),
    ("x = [a for a in [x * y, x + y] if helper(a, a).sum() > 0]\nreturn x", ()),
    ("return (note(n) or note(3)) and (note(x) * note(y))", ("operands",)),
    ("if note(n) == 0 or note((x * y).sum()) > 0:\n    return x\nelif note(n) and note(helper(x, y)).sum() > 0:\n    return y\nreturn x + y", ()),
    ("for a in ([x * y] if n else [helper(x, y)]):\n    x = x + a\nelse:\n    x = x * 2\nreturn x", ("ops",)),
    ("return note(x * y) if n else note(x + y)", ()),
    ("try:\n    raise KeyError((x + y).sum())\nexcept (KeyError if (x * y).sum() < 1e9 else ValueError) as e:\n    return x - y", ()),
    ("del (x, y)[:0]\nreturn x", ("stub",)),
    ("x[helper(x, y).argmax() // 2] = (x + y)[0]\nreturn x", ("stub",)),
    ("x = y = note(x * y)\nx, y = y, note(x + y)\nreturn x * y", ()),
    ("if n:\n    y = x * y\n    del x\ntry:\n    return x + y\nexcept NameError:\n    return y", ()),
    ("async def inner(a):\n    return a * y\nc = inner(x)\ntry:\n    c.send(None)\nexcept StopIteration as e:\n    return e.value + x", ()),
    ("return helper(helper(x, y), helper(y, x)) - helper(x, x)", ()),
    ("return helper_outer(helper_outer(x, y), helper_outer(y, x)) - helper_outer(x, x)", ()),
]


CALLS = ("helper", "method", "static", "class")


def _call_graphs(tier):
    """Functions of every kind that call each other in every way."""
    kinds = list(itertools.product(CALLS, repeat=3)) if tier == "thorough" else [
        ("helper",) * 3, ("method",) * 3, ("method", "static", "helper"),
        ("class", "static", "helper"), ("method", "class", "helper"), ("method", "method", "helper"),
    ]
    can = {
        "helper": ("helper",), "static": ("helper",), "class": ("helper", "static", "class"),
        "method": CALLS,
    }
    edges = list(itertools.product(range(3), repeat=2))
    seen = set()
    for kind in kinds:
        for k in range(2 ** len(edges)):
            graph = tuple(e for b, e in enumerate(edges) if k >> b & 1 and kind[e[1]] in can[kind[e[0]]])
            if (kind, graph) in seen:
                continue
            seen.add((kind, graph))
            if tier != "thorough" and len(graph) > 3:
                continue
            yield kind, graph


def _graph_class(name, pre, kind, graph):
    ident = [f"f{i}_{name}" for i in range(len(kind))]

    def call(caller, i, args):
        receiver = {"helper": "", "class": "cls.", "method": "self.", "static": ""}[caller]
        return f"{'' if kind[i] == 'helper' else receiver}{ident[i]}({args})"

    before, inside = "", ""
    for i, k in enumerate(kind):
        body = "if len(k) == 0:\n    return a - b\nr = a + b\n"
        for j in [e[1] for e in graph if e[0] == i]:
            body += f"r = r - {call(k, j, 'b, r, k[1:]')}\n"
        body += "return r"
        first = {"helper": "", "static": "", "class": "cls, ", "method": "self, "}[k]
        text = f"def {ident[i]}({first}a, b, k):\n{_indent(body, 4)}\n\n"
        if k == "helper":
            before += text + "\n"
        else:
            decorator = {"static": "@staticmethod\n", "class": "@classmethod\n", "method": ""}[k]
            inside += _indent(decorator + text, 4) + "\n"
    body = f"k = (0, 0, 0)[:n]\nr = {call('method', 0, 'x, y, k')}\n"
    body += f"return r - {call('method', len(kind) - 1, 'y, r, k=k')}"
    return before + f"class {name}({pre}Base):{METHODS}\n{inside}    def forward(self, x, y, n):\n{_indent(body, 8)}\n\n\n"


def _cyclic(graph):
    reach = set(graph)
    for _ in range(4):
        reach |= {(a, d) for a, b in reach for c, d in reach if b == c}
    return any(a == b for a, b in reach)


def gen_calls(tier):
    def programs():
        for kind, graph in _call_graphs(tier):
            # A method and the last function, called from several sites, share quantizers
            yield [list(kind), [list(e) for e in graph]], "calls", ("shared",)

    yield from _batches(programs(), 40)


NAMES = [
    "_tmp_1", "_tmp_2", "self_p", "x_mT", "quantizer_x", "quantizer_add", "quantizer_add_1",
    "quantizer_self_p", "quantizer_helper_mul", "quantized_helper", "helper", "torch", "F",
    "output_quantizer", "add", "quantize", "i", "strict_quantization",
]
POSITIONS = [
    "local", "parameter", "keyword", "own", "attribute", "submodule", "method", "static", "global",
    "function", "loop", "comprehension", "lambda", "inner", "import",
]


# Members of modules with the prefix of quantizers may be replaced by quantizers
RESERVED = ("attribute", "submodule", "method", "static", "own")
GLOBALS = ("global", "function", "own")


def _name_class(name, pre, ident, position):
    before, inside = "", ""
    args = "x, y, n"
    body = "w = x.mT + self.p * y\nv = other(x, w) - w * x.mT\nreturn v + self.meth(v, w) * self.p"
    if position == "local":
        body = f"{ident} = x.mT + y\n" + body.replace("return v", f"return v * {ident}")
    elif position in ("parameter", "keyword"):
        inside = f"    def body(self, x, {ident}, n):\n{_indent(body.replace('y', ident), 8)}\n\n"
        body = "return self.body(x, y, n)" if position == "parameter" else f"return self.body(n=n, {ident}=y, x=x)"
    elif position in ("attribute", "submodule"):
        value = "torch.nn.Parameter(torch.full((2, 2), 3.0))" if position == "attribute" else f"{pre}Sub()"
        inside = f"    def __init__(self):\n        super().__init__()\n        setattr(self, {ident!r}, {value})\n\n"
        use = f"self.{ident} * x" if position == "attribute" else f"self.{ident}(x)"
        body = body.replace("return v", f"return v + {use}")
    elif position in ("method", "static"):
        first = "self, " if position == "method" else ""
        inside = ("" if first else "    @staticmethod\n") + f"    def {ident}({first}a, b):\n        return a - b\n\n"
        body = body.replace("return v", f"return v + self.{ident}(x, y)")
    elif position == "global":
        before = f"{ident} = 3.0\n\n\n"
        body = body.replace("return v", f"return v * {ident}")
    elif position == "function":
        before = f"def {ident}(a, b):\n    return a - b * b\n\n\n"
        body = body.replace("return v", f"return v + {ident}(x, y)")
    elif position == "own":
        before = f"def {ident}(a, {ident}):\n    return a - other_{name}({ident}, b=a) * {ident}\n\n\n"
        body = body.replace("return v", f"return v + {ident}(x, {ident}=y) * {ident}(y, x)")
    elif position == "loop":
        body = f"for {ident} in (x, y):\n    x = x.mT + {ident}\n" + body
    elif position == "comprehension":
        body = f"r = [{ident} * y for {ident} in (x, y)]\n" + body.replace("return v", "return v + r[1]")
    elif position == "lambda":
        body = f"f = lambda {ident}: {ident} * y\n" + body.replace("return v", "return v + f(x)")
    elif position == "inner":
        body = f"def {ident}(a):\n    return a * y\n" + body.replace("return v", f"return v + {ident}(x)")
    elif position == "import":
        body = f"import math as {ident}\n" + body.replace("return v", f"return v * {ident}.floor(2.5)")
    else:
        raise ValueError(position)
    # Every class refers to functions of its own, since `ident` may be one of them
    before = f"def other_{name}(a, b):\n    return a * b + a\n\n\n" + before
    body, inside = (t.replace("other(", f"other_{name}(") for t in (body, inside))
    return before + f"class {name}({pre}Base):{METHODS}\n{inside}    def forward(self, {args}):\n{_indent(body, 8)}\n\n\n"


def gen_names(tier):
    def programs(positions):
        for ident in NAMES:
            together = []
            for position in positions:
                if position in GLOBALS and ident in ("torch", "F"):
                    continue
                if ident.startswith("quantizer_") and position in RESERVED:
                    continue
                flags = ["shared", "ops"] + ["operands"] * (position == "lambda")
                together.append([[ident, position], "names", flags])
            yield together

    for together in programs([p for p in POSITIONS if p not in GLOBALS]):
        yield {"programs": together}
    for i, together in enumerate(programs(GLOBALS)):
        for j, program in enumerate(together):
            if tier != "thorough" and (i + j) % 3:
                continue
            yield {"programs": [program]}


# ---------------------------------------------------------------- other modules

PACKAGE = {
    "__init__.py": "from . import a\n",
    "a.py": """import functools

import torch

COUNT = 0
OFFSET = 2.0


def f(x, y):
    return x * y - OFFSET


def g(x, y):
    return f(y, x) + f(x, x)


def counting(x, y):
    global COUNT
    COUNT += 1
    return x - y * COUNT


def wrap(fn):
    @functools.wraps(fn)
    def wrapper(x, y):
        return fn(y, x) + y
    return wrapper


@wrap
def decorated(x, y):
    return x * y - x


def forward_all(fn):
    @functools.wraps(fn)
    def wrapper(*args, **kwargs):
        return fn(*args, **kwargs) + 1.0
    return wrapper


@forward_all
def log(x, y):
    return x * x - y


def make(k):
    def closure(x, y):
        return x * k + y
    return closure


made = make(3.0)
lamb = lambda x, y: x - y * 2
part = functools.partial(f, y=torch.ones(2, 2))


try:
    from math import missing as CHOICE
except ImportError:
    CHOICE = 4.0

try:
    from math import pi as FOUND
except ImportError:
    FOUND = 4.0

if COUNT == 0:
    from math import e as EITHER
else:
    from math import pi as EITHER


def chosen(x, y):
    return x * CHOICE - y * FOUND * EITHER


class Holder:
    @staticmethod
    def static(x, y):
        return x * y + OFFSET

    def __call__(self, x, y):
        return x - y * OFFSET


holder = Holder()
TABLE = {"f": f}
alias = g
default = None


def with_default(x, y=None, *, scale=OFFSET):
    return x * scale if y is None else x * y + scale
""",
    "b.py": """import torch

from . import a
from .a import f as af, g as f2
from .sub import c

OFFSET = 5.0


def f(x, y):
    return x + y * OFFSET


def g(x, y):
    return a.f(x, y) - f(y, x)


def h(x, y):
    return af(x, y) + f2(y, x) * c.f(x, y)


def relu(x, y):
    return torch.relu(x) - a.g(x, y)
""",
    "sub/__init__.py": "from .c import g as f\nfrom . import c\n",
    "sub/c.py": """OFFSET = 7.0


def f(x, y):
    return y - x * OFFSET


def g(x, y):
    return f(x, y) * 2 + (f(y, x) if x.sum() > 0 else y)
""",
}
IMPORTS = """
import {k}
import {k}.b
import {k}.sub.c as deep
import {k} as package
from {k} import a, sub
from {k}.a import f as renamed, counting, log, chosen, decorated, made, lamb, part, holder, TABLE, Holder, alias, with_default
from {k}.b import g, h
from {k}.sub import f as shown
"""
# How a function is called, and whether all that it does is quantized
FORMS = {
    "a.f(x, y)": True, "{k}.a.g(x, y)": True, "package.b.f(x, y)": True, "deep.f(x, y)": True, "deep.g(y, x)": True,
    "sub.f(x, y)": True, "sub.c.f(x, y)": True, "renamed(x, y)": True, "decorated(x, y)": False,
    "made(x, y)": False, "lamb(x, y)": False, "part(x)": False, "holder(x, y)": False, "TABLE['f'](x, y)": False,
    "Holder.static(x, y)": False, "a.Holder.static(y, x)": False, "alias(x, y)": True, "g(x, y)": True, "h(x, y)": True,
    "shown(x, y)": True, "a.alias(y, x)": True, "(a if n else {k}.b).f(x, y)": False, "a.holder(y, x)": False,
    "with_default(x)": True, "with_default(x, scale=3.0, y=y)": True, "package.b.relu(y, x)": True, "a.made(y, x)": False,
    "log(x, y)": False, "chosen(x, y)": True,
}
LOCAL = {"local = a.f\nw = local(x, y)": False, "from {k}.b import f as inside\nw = inside(x, y)": False, "import {k}.b as other\nw = other.g(x, y)": False}


def gen_modules(tier):
    def programs():
        calls = [(f"w = {c}", ok) for c, ok in FORMS.items()] + list(LOCAL.items())
        for i, (first, ok) in enumerate(calls):
            for j, (second, ok2) in enumerate(calls):
                if tier != "thorough" and (i + 2 * j) % 5:
                    continue
                flags = ["shared"] + ([] if ok and ok2 else ["ops", "operands"])
                yield f"{first}\nx = w - x\n{second}\nreturn w * x", "forward", flags

    yield from _batches(programs(), 40)
    for counting in ("counting", "a.counting"):
        yield {"programs": [[f"w = {counting}(x, y)\nreturn w * x", "forward", ["shared"]]]}


def run_modules(case):
    """Programs that call functions of other modules."""
    stats = Stats()
    with tempfile.TemporaryDirectory(prefix="c31_") as root:
        name = f"c31pkg_{os.getpid()}_{next(_COUNTER)}"
        for path, text in PACKAGE.items():
            file = pathlib.Path(root) / name / path
            file.parent.mkdir(parents=True, exist_ok=True)
            file.write_text(text)
        programs = [[p.replace("{k}", name), placement, flags] for p, placement, flags in case["programs"]]
        sources = [(lambda cls, pre, p=p, pl=pl: _source(cls, pre, p, pl)) for p, pl, _ in programs]
        try:
            gen = Generated(sources, root, IMPORTS.replace("{k}", name) + HEADER)
            counter = sys.modules[f"{name}.a"]
            exact, log = gen.attach(), gen.module.LOG
            for idx, entry in enumerate(programs):
                _compare_program(gen, exact, log, idx, entry, stats, reset=lambda: setattr(counter, "COUNT", 1), read=lambda: counter.COUNT)
                stats.states += 1
                stats.traces += 1
            stats.outcome = "agree"
        finally:
            with contextlib.suppress(ValueError):
                sys.path.remove(root)
            for m in [m for m in sys.modules if m.split(".")[0] == name]:
                del sys.modules[m]
    return stats


# ---------------------------------------------------------------- artefacts

ARTEFACT_PROGRAMS = {
    "plain": ["return x.mT + y * self.p", "return helper(x, y) - self.meth(y, x)"],
    "nested": ["w = x.mT + helper_outer(x, y)\nreturn w * self.p", "return x if n else self.meth(x, x.mT)"],
    "unsupported": ["match n:\n    case 0:\n        return x + y\n    case _:\n        return x * y", "return x - y"],
    "fixed": ["return x", "return y"],
}
OUTPUTS = ["stdout", "file", "str", "dir", "deep", "existing-file", "existing-dir", "existing-package", "writer"]


def gen_artefacts(tier):
    for programs in ARTEFACT_PROGRAMS:
        for output in OUTPUTS:
            for force, auto in itertools.product((False, True), repeat=2):
                if output in ("writer", "stdout") and force:
                    continue
                if tier != "thorough" and programs not in ("plain", "unsupported") and (force or not auto):
                    continue
                yield {"programs": programs, "output": output, "force": force, "auto": auto, "fresh": tier == "thorough" or output in ("str", "dir")}


def _files(root):
    return {str(p.relative_to(root)): p.read_text() for p in pathlib.Path(root).rglob("*") if p.is_file()}


class _Collect:
    def __init__(self):
        self.written = []
        self.module_name = "collected"

    def write(self, code):
        self.written.append(code)


FRESH = """
import importlib, importlib.util, sys
import torch, fastforward as ff
sys.path.insert(0, {root!r})
program = importlib.import_module({program!r})
model = getattr(program, {top!r})().double()
path = {path!r}
spec = importlib.util.spec_from_file_location({name!r}, path)
generated = importlib.util.module_from_spec(spec)
sys.modules[spec.name] = generated
spec.loader.exec_module(generated)
ff.quantize_model(model)
x = torch.tensor([[1.0, -1.5], [2.0, 0.25]], dtype=torch.float64)
y = torch.tensor([[-0.5, 2.0], [1.0, 1.0]], dtype=torch.float64)
with ff.strict_quantization(False):
    for m in model.ms:
        assert isinstance(m, ff.nn.QuantizedModule), m
        for n in (0, 1, 2):
            print(m(x, y, n).tolist())
"""


def run_artefacts(case):
    """What is written, registered and returned, and what stays as it was."""
    with tempfile.TemporaryDirectory(prefix="c31_") as root:
        program_root = pathlib.Path(root) / "program"
        program_root.mkdir()
        out_root = pathlib.Path(root) / "out"
        out_root.mkdir()
        try:
            return _artefacts(case, program_root, out_root)
        finally:
            for path in (str(program_root), str(out_root)):
                while path in sys.path:
                    sys.path.remove(path)


def _artefacts(case, program_root, out_root):
    k = f"{os.getpid()}_{next(_COUNTER)}"
    pre, name, out = f"P{k}_", f"c31prog_{k}", f"c31out_{k}"
    text = HEADER.replace("{pre}", pre) + "\n\n"
    programs = ARTEFACT_PROGRAMS[case["programs"]]
    for i, program in enumerate(programs):
        text += _forward_class(f"{pre}M{i}", pre, program, "forward")
    names = [f"{pre}M{i}()" for i in range(len(programs))]
    text += f"class {pre}Top(torch.nn.Module):\n    def __init__(self):\n        super().__init__()\n"
    text += f"        self.ms = torch.nn.ModuleList([{', '.join(names + names[:1])}])\n"
    text += "\n    def forward(self, *args):\n        raise NotImplementedError\n"
    (program_root / f"{name}.py").write_text(text)
    sys.path.insert(0, str(program_root))
    importlib.invalidate_caches()
    program = importlib.import_module(name)
    top = getattr(program, f"{pre}Top")().to(torch.float64)

    output = case["output"]
    path = {
        "stdout": None, "writer": None, "file": out_root / f"{out}.py", "str": str(out_root / f"{out}.py"),
        "dir": out_root / out, "deep": out_root / "a" / "b" / f"{out}.py", "existing-file": out_root / f"{out}.py",
        "existing-dir": out_root / out, "existing-package": out_root / out,
    }[output]
    target = None if path is None else pathlib.Path(path)
    if output == "existing-file":
        target.write_text("old = 1\n")
    elif output.startswith("existing"):
        target.mkdir()
        (target / "other.py").write_text("other = 1\n")
        if output == "existing-package":
            (target / "__init__.py").write_text("old = 1\n")
    if target is not None and target.suffix != ".py":
        target = target / "__init__.py"
    collect = _Collect()
    stdout = io.StringIO()
    if output == "stdout":
        from fastforward.autoquant import writer

    with contextlib.redirect_stdout(stdout):
        printer = writer.StdoutWriter(out) if output == "stdout" else None
    kwargs = {"code_writer": printer} if output == "stdout" else {"code_writer": collect} if output == "writer" else {"output_path": path, "force_overwrite": case["force"]}

    classes = [v for v in vars(program).values() if isinstance(v, type)]
    snapshot = lambda: (  # noqa: E731
        {c: dict(vars(c)) for c in classes}, {k: v for k, v in vars(program).items() if k != "__builtins__"},
        {n: (type(m), dict(vars(m)), list(m._modules.items())) for n, m in top.named_modules()},
    )
    values = {n: p.detach().clone() for n, p in top.state_dict().items()}
    before, files, modules = snapshot(), _files(out_root), set(sys.modules)
    known = dict(ff.nn.quantized_module.quantized_module_map())
    refused = output in ("existing-file", "existing-package") and not case["force"]

    raised = False
    level = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(stdout):
            warnings.simplefilter("ignore")
            try:
                result = ff.autoquantize(top, auto_import=case["auto"], use_type_inference=False, **kwargs)
            except FileExistsError:
                raised = True
            if raised:
                again = None
            else:
                # The classes are known to be quantized from now on if they are imported
                again = result.code if case["auto"] else ff.autoquantize(top, use_type_inference=False, code_writer=_Collect()).code
    finally:
        logging.disable(level)
    after = snapshot()
    for what, a, b in zip(("class", "source module", "model"), before, after):
        check(a == b, f"changed:{what}", lambda: f"{case}: {what} is not as it was")
    check(all(torch.equal(v, top.state_dict()[n]) for n, v in values.items()), "changed:values", str(case))
    check(raised == refused, "overwrite", lambda: f"{case}: {'refused' if raised else 'not refused'}")
    known_after = dict(ff.nn.quantized_module.quantized_module_map())
    new_files = _files(out_root)
    if refused:
        check(new_files == files, "files:refused", lambda: f"{case}: {sorted(new_files)}")
        check(known_after == known, "registered:refused", str(case))
        check(not {m for m in sys.modules if out in m}, "imported:refused", str(case))
        return Stats(outcome="refused")
    check(again == result.code, "not deterministic", lambda: f"{case}\n{result.code}\n{again}")
    want = dict(files)
    if target is not None:
        want[str(target.relative_to(out_root))] = result.code
    check(new_files == want, "files", lambda: f"{case}: {sorted(new_files)} instead of {sorted(want)}")
    check(collect.written == ([result.code] if output == "writer" else []), "writer", str(case))
    check((stdout.getvalue().strip() == result.code.strip()) == (output == "stdout"), "stdout", lambda: f"{case}: {stdout.getvalue()!r}")
    compile(result.code, "<generated>", "exec")
    if not case["auto"]:
        check(result.pymodule is None and known_after == known, "registered", str(case))
        check(not {m for m in set(sys.modules) - modules if "c31out" in m or m == "collected"}, "imported", str(case))
    else:
        check(sys.modules.get(result.pymodule_name) is result.pymodule, "imported", str(case))
        fresh = set(known_after) - set(known)
        # The containing module is quantized as well
        check({getattr(program, f"{pre}M{i}") for i in range(len(programs))} <= fresh <= set(classes), "registered", lambda: f"{case}: {fresh}")
        if output != "writer":
            sys.modules.pop(result.pymodule_name, None)
    log = program.LOG
    if case["fresh"] and target is not None and target.name != "other.py":
        code = FRESH.format(root=str(program_root), program=name, top=f"{pre}Top", path=str(target), name=out)
        done = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=110)
        check(done.returncode == 0, "fresh", lambda: f"{case}: {done.stderr[-1500:]}")
        lines = done.stdout.splitlines()
        want = [str(_run(m, log, list(args))[0][1].tolist()) for m in top.ms for args in _inputs()]
        check(lines == want, "fresh", lambda: f"{case}: {lines} instead of {want}")
    return Stats(states=1, transitions=3, traces=1, outcome="written")


FAMILIES = [
    Family("artefacts", gen_artefacts, run_artefacts, "programs x ways to write the code x overwriting x importing: files, registrations and what stays unchanged, and the code in a new process"),
    Family("statements", gen_statements, run_programs, "27 statements x 37 expressions, every second in one (quick) or all in all of 10 placements"),
    Family("pairs", gen_pairs, run_programs, "sequences of two of 27 statements, of every second with one expression (quick) or all with 37"),
    Family("sequences", gen_sequences, run_programs, "13 uses of values before and after (and in a loop with) 15 changes of them"),
    Family("constructs", gen_constructs, run_programs, "the statements and expressions of the language, in 3 (quick) or 10 placements"),
    Family("calls", gen_calls, run_programs, "call graphs of three functions that are helpers, methods, static or class methods, including recursion"),
    Family("modules", gen_modules, run_modules, "every fifth (quick) or all pairs of 32 ways to call functions that other modules define, import, wrap, rename or hold"),
    Family("names", gen_names, run_programs, "18 names, in 14 positions, that generated code could use itself"),
]
