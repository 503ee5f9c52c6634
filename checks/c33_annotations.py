"""C33: quantizers are annotated with exactly the operators around them."""

from __future__ import annotations

import contextlib
import itertools

import torch

import fastforward as ff

from fastforward import mpath

from mc.harness import Family, Stats, check

PROP = "C33"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small programs over tensors and quantizers; every one is annotated by the real code and the tags are compared with the dependencies of the program"
ASSUMPTIONS = [
    "operators are functions and methods of tensors, accesses to attributes are not operators",
    "the operator after a quantizer whose result goes to another quantizer is the one after the last quantizer",
    "a value is not used any more after the memory it shares with another value is changed",
]

UNARY = ["relu", "tanh", "contiguous", "relu_", "inplace", "mul"]
NAME = {"inplace": "relu"}


class Broken(Exception):
    pass


def execute(model, program, x):
    """The program as a user would write it."""
    values = [x]
    for ins in program:
        op, args = ins[0], ins[1:]
        if op == "q":
            values.append(model.get_submodule(f"q{args[0]}")(values[args[1]]))
        elif op == "qw":
            values.append(model.get_submodule(f"q{args[0]}")(model.weight))
        elif op == "relu":
            values.append(torch.relu(values[args[0]]))
        elif op == "tanh":
            values.append(values[args[0]].tanh())
        elif op == "contiguous":
            values.append(values[args[0]].contiguous())
        elif op == "relu_":
            values.append(values[args[0]].relu_())
        elif op == "inplace":
            values.append(torch.nn.functional.relu(values[args[0]], inplace=True))
        elif op == "mul":
            values.append(values[args[0]] * 2)
        elif op == "add":
            values.append(values[args[0]] + values[args[1]])
        elif op == "cat":
            values.append(torch.cat([values[args[0]], values[args[1]]], dim=-1)[..., :2])
        elif op == "kw":
            values.append(torch.add(input=values[args[0]], other=values[args[1]]))
        elif op == "linear":
            values.append(torch.nn.functional.linear(values[args[0]], values[args[1]]))
        elif op == "split":
            values.extend(torch.chunk(values[args[0]], 2, dim=0))
        elif op == "raise":
            raise Broken
        else:
            raise ValueError(op)
    return values[-1]


class Values:
    """What is known about the values of a program: producer, quantizer, shared memory and rows."""

    def __init__(self):
        self.v = [[None, None, 0, 2]]
        self.dead: set[int] = set()
        self.owned = {0}
        self.groups = 1
        self.tags: dict[int, set[str]] = {}

    def usable(self):
        return [i for i in range(len(self.v)) if i not in self.dead]

    def step(self, ins):
        op, args = ins[0], ins[1:]
        if op == "raise":
            return
        if op in ("q", "qw"):
            src = self.v[args[1]] if op == "q" else [None, None, self.new(), 2]
            if op == "qw":
                self.owned.add(src[2])
            tags = self.tags.setdefault(args[0], set())
            if src[0]:
                tags.add(f"after/{src[0]}")
            self.v.append([src[0], args[0], *src[2:]])
            return
        name = {"inplace": "relu", "kw": "add", "split": "chunk"}.get(op, op)
        for a in args:
            if self.v[a][1] is not None:
                self.tags[self.v[a][1]].add(f"before/{name}")
        if op in ("relu_", "inplace"):
            group, rows = self.v[args[0]][2:]
            self.dead |= {i for i in range(len(self.v)) if self.v[i][2] == group}
            self.v.append([name, None, group, rows])
        elif op == "contiguous":
            self.v.append([name, None, *self.v[args[0]][2:]])
        elif op == "split":
            self.v += [[name, None, self.v[args[0]][2], 1] for _ in range(2)]
        elif op == "cat":  # with a slice of its result
            self.v.append(["__getitem__", None, self.new(), self.v[args[0]][3]])
        else:
            self.v.append([name, None, self.new(), self.v[args[0]][3] if op == "linear" else max(self.v[a][3] for a in args)])

    def new(self):
        self.groups += 1
        return self.groups - 1


def analyse(program):
    vals = Values()
    for ins in program:
        vals.step(ins)
    return vals


class Model(ff.nn.QuantizedModule):
    def __init__(self, n, program, other=None):
        super().__init__()
        self.n, self.program, self.other = n, program, other
        self.weight = torch.nn.Parameter(torch.tensor([[0.5, -1.0], [2.0, 0.25]]))
        self.__init_quantization__()

    def __init_quantization__(self):
        super().__init_quantization__()
        for i in range(self.n):
            setattr(self, f"q{i}", ff.nn.QuantizerStub("own", f"number/{i}"))

    def forward(self, x):
        return execute(self, self.program if self.other is None or bool(x.sum() > 0) else self.other, x)


def quantizer(kind):
    q = ff.nn.LinearQuantizer(num_bits=3, symmetric=False)
    if kind == "init":
        q.quantization_range = (-1.0, 1.0)
    return q


def state(model):
    tensors = [*model.named_parameters(), *model.named_buffers()]
    return {k: v.detach().clone() for k, v in tensors if not isinstance(v, torch.nn.parameter.UninitializedTensorMixin)}


def operators(quantizer):
    return {str(t)[1:] for t in quantizer.quant_metadata._tags} - {"before/__get__"}


def user_override(quantizer, callback, args, kwargs):
    return callback(*args, **kwargs)


SAMPLE = [[1.0, -0.5], [0.25, 2.0]]


def run_programs(case):
    program, other, kinds = case["p"], case.get("other"), case["k"]
    model = Model(len(kinds), program, other)
    user = None
    for i, kind in enumerate(kinds):
        if kind in ("init", "uninit"):
            setattr(model, f"q{i}", quantizer(kind))
        elif kind == "override":
            user = model.get_submodule(f"q{i}").register_override(user_override)
    model.train(case.get("train", True))
    quantizers = [model.get_submodule(f"q{i}") for i in range(len(kinds))]
    overrides = [list(q.overrides) for q in quantizers]
    before = state(model)
    want = {i: set() for i in range(len(kinds))}
    xs = [torch.tensor(SAMPLE)] + ([-torch.tensor(SAMPLE)] if other is not None else [])
    strict = case.get("strict", True)
    runs = 0
    with ff.strict_quantization(strict), ff.disable_quantization(model) if case.get("off") else contextlib.nullcontext():
        inner = [list(q.overrides) for q in quantizers]
        flag = ff.get_strict_quantization()
        for x, prog in zip(xs, [program, other]):
            vals = analyse(prog)
            for i, tags in vals.tags.items():
                want[i] |= tags
            keep = x.clone()
            try:
                result = ff.annotate_operator_metadata(model, x)
            except Broken:
                check(prog[-1] == ["raise"], "annotating raises", str(case))
            else:
                check(prog[-1] != ["raise"], "annotating hides an error of the model", str(case))
                check(result is None, "annotating returns something", str(case))
            runs += 1
            check(torch.equal(x, keep) and type(x) is torch.Tensor, "annotating changes the sample", str(case))
            check(ff.get_strict_quantization() == flag, "annotating changes the strict mode", str(case))
            check(torch.is_grad_enabled(), "annotating changes the gradient mode", str(case))
            check([list(q.overrides) for q in quantizers] == inner, "an override remains after annotating", str(case))
    check([list(q.overrides) for q in quantizers] == overrides, "an override remains after annotating", str(case))
    if user is not None:
        user.remove()
    for i, q in enumerate(quantizers):
        have = operators(q)
        parents = {t.split("/")[0] for t in want[i]}
        expected = want[i] | parents | {"own", "number", f"number/{i}"}
        have -= {"before"} - expected
        check(have == expected, "a quantizer is annotated with other operators than those around it", lambda: f"{case}: q{i} has {sorted(have)}, expected {sorted(expected)}")
    after = state(model)
    check(before.keys() == after.keys() and all(torch.equal(v, after[k]) for k, v in before.items()), "annotating changes the model", str(case))
    check(model.training == case.get("train", True) and model.weight.grad is None, "annotating changes the model", str(case))
    for tag in sorted(set().union(*want.values())):
        found = {id(m) for m in mpath.search(f"**/[quantizer:{tag}]", model).modules()}
        check(found == {id(q) for i, q in enumerate(quantizers) if tag in want[i]}, "a search by operator does not find the quantizers next to it", lambda: f"{case} {tag}")
    return Stats(len(program), len(program) * runs, 1, [sorted(t) for t in want.values()])


def instructions(vals, used, nq, ops):
    """All instructions that can come next."""
    use = vals.usable()
    for op in ops:
        if op == "q":
            for i in range(min(used + 1, nq)):
                for a in use:
                    yield ["q", i, a]
        elif op == "qw":
            if used < nq:
                yield ["qw", used]
        elif op in ("relu_", "inplace"):
            for a in use:
                if vals.v[a][2] not in vals.owned:  # not the sample or the weight themselves
                    yield [op, a]
        elif op in ("add", "cat", "kw", "linear"):
            for a, b in itertools.product(use, repeat=2):
                rows = vals.v[a][3], vals.v[b][3]
                if a != b and (op != "cat" or rows[0] == rows[1]) and (op != "linear" or rows[1] == 2):
                    yield [op, a, b]
        else:
            for a in use:
                if op != "split" or vals.v[a][3] == 2:
                    yield [op, a]


def programs(length, nq, ops, prefix=()):
    """All programs of this length which annotate something."""

    def rec(program):
        vals = analyse(program)
        if len(program) == length:
            if sum(map(len, vals.tags.values())):
                yield program
            return
        for ins in instructions(vals, len(vals.tags), nq, ops):
            yield from rec([*program, ins])

    yield from rec(list(prefix))


def gen_programs(tier):
    deep = tier == "thorough"
    every = ["q", "qw", *UNARY, "add", "cat", "kw", "linear", "split"]
    for n in (1, 2, 3):
        for p in programs(n, 2, every):
            yield {"p": p, "k": ["stub"] * 2}
    for p in programs(4, 3, ["q", "relu", "add"] if not deep else ["q", "relu", "contiguous", "relu_", "add", "mul"]):
        yield {"p": p, "k": ["stub"] * 3}
    # the same input quantized twice, in every order of evaluation
    start = [["tanh", 0], ["q", 0, 1], ["q", 1, 1]]
    for p in programs(5, 3, ["q", "relu", "relu_", "add", "contiguous", "split"], start):
        yield {"p": p, "k": ["stub"] * 3}
    if deep:
        for p in programs(6, 3, ["q", "relu", "add"], start):
            yield {"p": p, "k": ["stub"] * 3}


def gen_states(tier):
    ops = ["q", "qw", "relu", "add"] if tier == "quick" else ["q", "qw", "relu", "add", "mul", "inplace"]
    picked = [p for n in (2, 3) for p in programs(n, 2, ops)]
    for p in picked:
        for kinds in itertools.product(("stub", "init", "uninit", "override"), repeat=2):
            yield {"p": p, "k": list(kinds)}
    for p in picked:
        for kinds in (["stub", "init"], ["init", "stub"]):
            for off, strict, train in itertools.product((False, True), repeat=3):
                yield {"p": p, "k": kinds, "off": off, "strict": strict, "train": train}
                yield {"p": [*p, ["raise"]], "k": kinds, "off": off, "strict": strict, "train": train}


def gen_branches(tier):
    ops = ["q", "relu", "tanh"] if tier == "quick" else ["q", "relu", "tanh", "add"]
    picked = [p for n in (2, 3) for p in programs(n, 2, ops)]
    for p, other in itertools.product(picked, repeat=2):
        yield {"p": p, "other": other, "k": ["stub", "stub"]}


# ---------------------------------------------------------------- modules

MODULES = {
    "linear": lambda: torch.nn.Linear(4, 4),
    "nobias": lambda: torch.nn.Linear(4, 4, bias=False),
    "relu": lambda: torch.nn.ReLU(),
    "norm": lambda: torch.nn.LayerNorm(4),
    "conv": lambda: torch.nn.Conv1d(4, 4, 1),
}
OPERATOR = {"linear": "linear", "nobias": "linear", "relu": "relu", "norm": "layer_norm", "conv": "conv1d"}


def gen_modules(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for names in itertools.product(MODULES, repeat=n):
            for keep in (False, True) if n < 3 else (False,):
                yield {"m": list(names), "keep": keep}


def run_modules(case):
    """A chain of quantized modules."""
    model = torch.nn.Sequential(*[MODULES[m]() for m in case["m"]])
    ff.quantize_model(model)
    if case["keep"]:
        for module in model:
            for name, q in list(module.named_quantizers(skip_stubs=False)):
                setattr(module, name, quantizer("init"))
    ff.annotate_operator_metadata(model, torch.ones(4, 4))
    last = None
    for kind, module in zip(case["m"], model):
        op = OPERATOR[kind]
        for name, q in module.named_quantizers(skip_stubs=False):
            have = {t for t in operators(q) if t.startswith(("before/", "after/"))}
            if name == "output_quantizer":
                want = {f"after/{op}"}
                if module is not model[-1] and not any(n == "input_quantizer" for n, _ in model[list(model).index(module) + 1].named_quantizers(skip_stubs=False)):
                    want.add(f"before/{OPERATOR[case['m'][list(model).index(module) + 1]]}")
            elif (name == "bias_quantizer" and module.bias is None):
                want = set()
            else:
                want = {f"before/{op}"}
                if name == "input_quantizer" and last:
                    want.add(f"after/{last}")
            check(have == want, "a quantizer of a module is annotated with other operators than those around it", lambda: f"{case} {kind}.{name}: {sorted(have)}, expected {sorted(want)}")
        last = op
    return Stats(len(case["m"]), len(case["m"]), 1, case["m"])


FAMILIES = [
    Family("programs", gen_programs, run_programs, "all programs of up to 3 instructions over 12 instructions and 2 quantizers, of 4 instructions over 3 (quick) or 6, and all continuations of a value that is quantized twice by 2 (or 3) instructions"),
    Family("states", gen_states, run_programs, "programs x stubs, initialised and uninitialised quantizers and overrides; x disabled quantization x strict mode x training x models that raise"),
    Family("branches", gen_branches, run_programs, "models with two branches, annotated with a sample for each"),
    Family("modules", gen_modules, run_modules, "chains of up to 3 (quick) or 4 quantized modules, as stubs and with initialised quantizers"),
]
