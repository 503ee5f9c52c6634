"""C09: disabling quantization is exact, scoped and reversible."""

from __future__ import annotations

import itertools

import torch

import fastforward as ff

from fastforward.exceptions import QuantizationError
from fastforward.overrides import DisableQuantizationOverride, disable_quantization, enable_quantization
from fastforward.quantized_tensor import QuantizedTensor

from mc.harness import Family, Stats, check

PROP = "C09"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of disable/enable/attach/detach/scope histories (with exceptions) on two real models sharing a quantizer against a reference machine"
ASSUMPTIONS = [
    "histories up to the stated depth; two models with one shared quantizer and one quantizer nested in a container",
    "scopes left out of order are only required to restore the quantizers (the strict mode is a stack)",
]


class Boom(Exception):
    pass


QS = ["a", "shared", "b"]
MODELS = {"m1": ["a", "shared"], "m2": ["b", "shared"]}


class Model(torch.nn.Module):
    def __init__(self, own, shared):
        super().__init__()
        self.own = own
        self.blocks = torch.nn.ModuleList([torch.nn.Module(), torch.nn.Identity()])
        self.blocks[0].inner = shared
        self.again = shared  # the same quantizer under two names
        self.stub = ff.nn.QuantizerStub()


def quantizer(i):
    q = ff.nn.LinearQuantizer(3 + i, symmetric=False)
    q.quantization_range = (-1.0 - i, 2.0)
    return q


PROBE = torch.tensor([-0.83, 0.41, 1.77, 5.0])
_REF = {}


def reference(i):
    if i not in _REF:
        q = quantizer(i)
        _REF[i] = (q(PROBE), q.state_dict())
    return _REF[i]


class Marked(ff.nn.Quantizer):
    """A cheap quantizer: the quantized probe is precomputed."""

    def __init__(self, i):
        super().__init__()
        self.index = i

    def quantize(self, data):
        check(data is PROBE, "input-changed", "")
        return reference(self.index)[0]


class World:
    def __init__(self):
        self.q = {n: Marked(i) for i, n in enumerate(QS)}
        self.models = {m: Model(self.q[own], self.q["shared"]) for m, (own, _) in MODELS.items()}
        self.overrides = {"o1": DisableQuantizationOverride(), "o2": DisableQuantizationOverride()}
        self.scopes = []
        # reference state
        self.enabled = {"o1": False, "o2": False}
        self.attached = {"o1": [], "o2": []}  # override -> quantizers (with multiplicity)
        self.order = {n: [] for n in QS}
        self.strict = True
        self.lifo = True
        self.fresh = 0

    # ---- operations (real and reference side by side)

    def enter_disable(self, m):
        cm = disable_quantization(self.models[m])
        cm.__enter__()
        names = []
        for n in MODELS[m]:
            name = f"scope{self.fresh}"
            self.fresh += 1
            self.enabled[name] = False
            self.attached[name] = [n]
            names.append(name)
        self.scopes.append(("disable", cm, names, self.strict))
        self.strict = False

    def enter_enable(self, m):
        cm = enable_quantization(self.models[m])
        cm.__enter__()
        saved = {}
        for o, qs in self.attached.items():
            if any(n in MODELS[m] for n in qs):
                saved[o] = self.enabled[o]
                self.enabled[o] = True
        self.scopes.append(("enable", cm, saved, None))

    def enter_override(self, o, enabled):
        cm = self.overrides[o].enable_quantization() if enabled else self.overrides[o].disable_quantization()
        cm.__enter__()
        self.scopes.append(("enable", cm, {o: self.enabled[o]}, None))
        self.enabled[o] = enabled

    def leave(self, index, how):
        kind, cm, saved, strict = self.scopes.pop(index)
        if index != len(self.scopes):
            self.lifo = False
        if how == "exc":
            e = Boom()
            try:
                swallowed = cm.__exit__(Boom, e, None)
                check(not swallowed, "exception-swallowed", "")
            except Boom:
                pass
        else:
            cm.__exit__(None, None, None)
        if kind == "disable":
            for name in saved:
                self.attached[name] = []
            self.strict = strict
        else:
            self.enabled.update(saved)

    def attach(self, o, target):
        ov = self.overrides[o]
        if target == "m1":
            ov.attach_to(ff.find_quantizers(self.models["m1"], "own") | ff.find_quantizers(self.models["m1"], "again"))
            names = ["a", "shared"]
        elif target == "list":
            ov.attach_to([self.q["b"], self.q["shared"]])
            names = ["b", "shared"]
        else:
            ov.attach_to(self.q[target])
            names = [target]
        self.attached[o].extend(names)

    def detach(self, o):
        self.overrides[o].detach()
        self.attached[o] = []

    def observe(self, where):
        x = PROBE
        for i, n in enumerate(QS):
            disabled = any(n in qs and not self.enabled[o] for o, qs in self.attached.items())
            got = self.q[n](x)
            if disabled:
                check(got is x, "not-disabled", lambda: f"{where}: {n} should pass its input through")
            else:
                check(isinstance(got, QuantizedTensor), "not-quantizing", lambda: f"{where}: {n} should quantize")
                check(got is reference(i)[0], "different-quantization", lambda: f"{where}: {n}")
        for o in ("o1", "o2"):
            check(self.overrides[o].quantization_enabled == self.enabled[o], "override-state", lambda: f"{where}: {o}")
        if self.lifo:
            check(ff.get_strict_quantization() == self.strict, "strict-mode", lambda: f"{where}: strict={ff.get_strict_quantization()}, expected {self.strict}")
            # operators work (or refuse) according to the mode in force
            v = self.q["a"](x)
            try:
                ff.nn.functional.add(v, 1.0)
                accepted = True
            except QuantizationError:
                accepted = False
            check(accepted == (not self.strict), "operator-strictness", lambda: f"{where}: {accepted}")


def alphabet(depth):
    for m in MODELS:
        yield ("disable", m)
        yield ("enable", m)
    for o in ("o1", "o2"):
        for t in ("a", "shared", "m1" if o == "o1" else "list"):
            yield ("attach", o, t)
        yield ("detach", o)
        yield ("set", o, True)
        yield ("set", o, False)
    yield ("scope", "o1", True)
    yield ("scope", "o1", False)
    for how in ("ok", "exc"):
        yield ("leave", -1, how)
    yield ("leave", -2, "ok")


def legal(prefix, op):
    depth = sum(1 for p in prefix if p[0] in ("disable", "enable", "scope")) - sum(1 for p in prefix if p[0] == "leave")
    if op[0] == "leave":
        return depth >= -op[1]
    if op[0] == "detach":
        return any(p[0] == "attach" and p[1] == op[1] for p in prefix)
    return True


def histories(prefix, extra):
    if extra == 0:
        yield prefix
        return
    for op in alphabet(0):
        if legal(prefix, op):
            yield from histories(prefix + [op], extra - 1)


def gen(tier):
    for p in histories([], 2):
        yield {"prefix": p, "extra": 2 if tier == "quick" else 3}


def apply(w, op):
    if op[0] == "disable":
        w.enter_disable(op[1])
    elif op[0] == "enable":
        w.enter_enable(op[1])
    elif op[0] == "attach":
        w.attach(op[1], op[2])
    elif op[0] == "detach":
        w.detach(op[1])
    elif op[0] == "set":
        (w.overrides[op[1]].enable_quantization if op[2] else w.overrides[op[1]].disable_quantization)()
        w.enabled[op[1]] = op[2]
    elif op[0] == "scope":
        w.enter_override(op[1], op[2])
    else:
        w.leave(len(w.scopes) + op[1], op[2])


def run(case):
    n = t = 0
    seen = set()
    for h in histories([tuple(p) for p in case["prefix"]], case["extra"]):
        ff.flags.set_strict_quantization(True)
        w = World()
        for i, op in enumerate(h):
            apply(w, op)
            t += 1
            if tuple(h[: i + 1]) not in seen:  # each prefix is observed once
                seen.add(tuple(h[: i + 1]))
                w.observe(h[: i + 1])
        while w.scopes:
            w.leave(len(w.scopes) - 1, "ok" if len(w.scopes) % 2 else "exc")
        w.observe((h, "scopes left"))
        w.detach("o1")
        w.detach("o2")
        w.observe((h, "detached"))
        for i, name in enumerate(QS):
            check(not list(w.q[name].overrides), "left-over", lambda: f"{h}: {name}")
        n += 1
    return Stats(states=n, transitions=t, traces=n, outcome=[case["prefix"], n])


# ------------------------------------------------------- whole models inside the scope


def gen_models(tier):
    for kind in ("weights", "activations", "all"):
        for strict in (True, False):
            for raised in (False, True):
                for nested in ("none", "enable", "disable", "stranger"):
                    yield {"kind": kind, "strict": strict, "raise": raised, "nested": nested}


def run_models(case):
    """A quantized model equals the float model inside the scope and itself again afterwards."""
    torch.manual_seed(0)
    model = torch.nn.Sequential(torch.nn.Linear(3, 4), torch.nn.ReLU(), torch.nn.Linear(4, 2))
    ref = torch.nn.Sequential(torch.nn.Linear(3, 4), torch.nn.ReLU(), torch.nn.Linear(4, 2))
    ref.load_state_dict(model.state_dict())
    x = torch.tensor([[0.3, -1.2, 0.7], [1.5, 0.2, -0.4]])
    want_float = ref(x)
    ff.quantize_model(model)
    tags = {"weights": ["**/[quantizer:parameter/weight]"], "activations": ["**/[quantizer:activation]"], "all": ["**/[quantizer:parameter]", "**/[quantizer:activation]"]}
    for t in tags[case["kind"]]:
        ff.find_quantizers(model, t).initialize(ff.nn.LinearQuantizer, num_bits=4)
    for _, q in ff.nn.quantized_module.named_quantizers(model):
        q.quantization_range = (-2.0, 2.0)
    ff.set_strict_quantization(case["strict"])

    def run():
        with ff.strict_quantization(False):
            out = model(x)
        return out.dequantize() if isinstance(out, QuantizedTensor) else out

    want = run()
    before = {k: v.clone() for k, v in model.state_dict().items()}
    check(not torch.equal(want, want_float), "setup", "")
    other = quantizer(0)
    try:
        with disable_quantization(model):
            check(not ff.get_strict_quantization(), "strict-inside", "")
            check(torch.equal(model(x), want_float), "not-float", "")
            check(isinstance(other(x), QuantizedTensor), "stranger-disabled", "")
            if case["nested"] == "enable":
                with enable_quantization(model):
                    check(torch.equal(run(), want), "not-enabled", "")
            elif case["nested"] == "disable":
                with disable_quantization(model[0]):
                    check(torch.equal(model(x), want_float), "not-float", "")
            elif case["nested"] == "stranger":
                with enable_quantization(other):
                    check(torch.equal(model(x), want_float), "not-float", "")
            check(torch.equal(model(x), want_float), "not-float-after-nested", "")
            check(not ff.get_strict_quantization(), "strict-inside", "")
            if case["raise"]:
                raise Boom()
    except Boom:
        pass
    check(ff.get_strict_quantization() == case["strict"], "strict-after", "")
    check(torch.equal(run(), want), "not-restored", "")
    after = model.state_dict()
    check(before.keys() == after.keys() and all(torch.equal(v, after[k]) for k, v in before.items()), "parameters", "")
    with enable_quantization(model):
        check(torch.equal(run(), want), "enable-changed", "")
        check(ff.get_strict_quantization() == case["strict"], "strict-changed", "")
    return Stats(states=6, transitions=6, outcome=[case["kind"], want.tolist()])


FAMILIES = [
    Family("histories", gen, run, "all histories of disable/enable scopes, override attach/detach/switch, exits (normal, exceptional, out of order) over two models sharing a quantizer", timeout=300),
    Family("models", gen_models, run_models, "whole models: which quantizers x strict x exception x nested scope"),
]
