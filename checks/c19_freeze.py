"""C19: freezing bakes in exactly the quantized parameters and leaves nothing behind."""

from __future__ import annotations

import contextlib
import itertools

import torch

import fastforward as ff

from fastforward.quantization import freeze_parameters

from mc import qmodels as Q
from mc.harness import Family, Stats, check

PROP = "C19"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of quantizer assignments, sharing patterns, scope options and exception points; each freezing scope runs on the real code and is compared with a reference model of the parameters, slots and overrides"
ASSUMPTIONS = [
    "quantizers that stay in place are idempotent (a non-idempotent quantizer that is kept may be applied again)",
    "a quantizer object is shared by parameter slots only, and parameters tied to each other have a single grid",
    "parameters and scales are chosen such that the arithmetic of the model is exact",
]

# parameter slot -> the parameter that passes through it
PARAM = {
    "lin1.weight_quantizer": "lin1.weight",
    "lin1.bias_quantizer": "lin1.bias",
    "lin2.weight_quantizer": "lin2.weight",
    "own_quantizer": "own",
}
ACT = ["lin1.input_quantizer", "lin1.output_quantizer", "mid", "shift_quantizer", "lin2.output_quantizer"]


class Snapshot:
    """Everything that has to stay as it is, and the values that parameters have to get."""

    def __init__(self, model, slots):
        self.grads = {n: p.requires_grad for n, p in model.named_parameters(remove_duplicate=False)}
        self.training = {n: s.training for n, s in model.named_modules()}
        self.params = {n: (p, p.detach().clone()) for n, p in model.named_parameters(remove_duplicate=False)}
        self.slots = Q.all_quantizers(model)
        self.meta = {n: q.quant_metadata for n, q in self.slots.items()}
        ids = [id(q) for q in self.slots.values()]
        self.shared = [n for n, q in self.slots.items() if ids.count(id(q)) > 1]
        self.overrides = {n: list(q.overrides) for n, q in self.slots.items()}
        self.want = {}
        for slot, param in slots.items():
            q = self.slots.get(slot)
            if q is None or q.is_stub():
                continue
            p = Q.get(model, param)
            with torch.no_grad(), ff.strict_quantization(False):
                v = q(p)
            if v is not p:
                self.want[slot] = Q.plain(v).to(p.dtype).detach().clone()

    def compare(self, model, slots, frozen, kept):
        """`frozen`: the slots that have been frozen."""
        values = {}
        frozen = list(frozen)
        for slot in frozen:
            values[slots[slot]] = self.want[slot]
        for n, p in model.named_parameters(remove_duplicate=False):
            if n not in self.params:
                check(False, "parameter appeared", n)
            ref, old = self.params[n]
            check(p is ref, "parameter object replaced", n)
            want = old
            for m, v in values.items():
                if self.params[m][0] is ref:
                    want = v
            check(p.dtype == old.dtype, "dtype changed", n)
            check(p.requires_grad == self.grads[n] and p.is_leaf and p.grad is None, "gradient settings", n)
            check(torch.equal(p.detach(), want), "parameter value", lambda: f"{n}: {p.tolist()} want {want.tolist()}")
        if hasattr(model, "alias"):
            frozen += ["alias." + s[5:] for s in frozen if s.startswith("lin1.")]
        check(all(s.training == self.training.get(n, s.training) for n, s in model.named_modules() if not isinstance(s, ff.nn.Quantizer)), "training mode changed", "")
        missing = [n for n in self.params if n not in dict(model.named_parameters(remove_duplicate=False))]
        gone = {f"{s}." for s in frozen} if not kept else set()
        check(all(any(n.startswith(g) for g in gone) for n in missing), "parameter lost", missing)
        now = Q.all_quantizers(model)
        check(set(now) == set(self.slots), "slots", sorted(set(now) ^ set(self.slots)))
        for n, q in now.items():
            if n in frozen and not kept:
                check(q.is_stub(), "quantizer not removed", n)
                if n not in self.shared:
                    check(q.quant_metadata == self.meta[n], "metadata", n)
                check(not list(q.overrides), "override on stub", n)
            else:
                check(q is self.slots[n], "quantizer replaced", n)
        for n, q in self.slots.items():
            check(list(q.overrides) == self.overrides[n], "overrides changed", lambda: f"{n}: {list(q.overrides)}")


def modules_arg(model, how):
    return {
        "model": model,
        "list": [model],
        "parts": [model.lin1, model],
        "lin1": model.lin1,
        "children": [model.lin2, model.lin1],
        "quantizer": model.lin1.weight_quantizer,
        "none": [],
    }[how]


COVERS = {
    "model": lambda s: True, "list": lambda s: True, "parts": lambda s: True,
    "lin1": lambda s: s.startswith("lin1."), "children": lambda s: s.startswith("lin"),
    "quantizer": lambda s: False, "none": lambda s: False,
}


def build(case):
    m = Q.Net(bias=case.get("bias", True))
    for slot, kind in case["slots"].items():
        if Q.get(m, slot) is not None:
            Q.put(m, slot, Q.KINDS[kind]())
    for a, b in case.get("share", []):
        Q.put(m, b, Q.get(m, a))
    for a, b in case.get("tie", []):
        Q.put(m, b, Q.get(m, a))
    if case.get("alias"):
        m.alias = m.lin1
    m.to(getattr(torch, case.get("dtype", "float32")))
    for i, (n, p) in enumerate(m.named_parameters()):
        how = case.get("grads")
        if how == "none" or (how == "even" and i % 2 == 0) or (how == "odd" and i % 2) or (how == "scales" and "quantizer" not in n):
            p.requires_grad_(False)
    if case.get("training") is False:
        m.eval()
    return m


def forward(m, x, mode):
    if mode in (None, "no_grad"):
        return Q.run(m, x)
    with torch.inference_mode() if mode == "inference" else contextlib.nullcontext(), ff.strict_quantization(False):
        return Q.plain(m(x)).detach().clone()


def run(case):
    m = build(case)
    x = Q.X.to(getattr(torch, case.get("dtype", "float32")))
    slots = {s: p for s, p in PARAM.items() if Q.get(m, p) is not None}
    snap = Snapshot(m, slots)
    remove = case.get("remove", True)
    how = case.get("modules", "model")
    y0 = Q.run(m, x)
    strict = case.get("strict", True)
    ff.set_strict_quantization(strict)
    args = () if remove is None else (remove,)
    with freeze_parameters(modules_arg(m, how), *args):
        outs = [forward(m, x, case.get("mode")) for _ in range(case.get("forwards", 1))]
    check(ff.get_strict_quantization() == strict, "strict flag")
    ff.set_strict_quantization(True)
    if args:
        kept = not remove
    else:
        kept = False
    frozen = [s for s in snap.want if case.get("forwards", 1) and COVERS[how](s)]
    snap.compare(m, slots, frozen, kept)
    for y in outs:
        check(torch.equal(y, y0), "output while freezing", lambda: f"{y.tolist()} want {y0.tolist()}")
    idem = "bump" not in case["slots"].values() and "dbl" not in case["slots"].values()
    if idem or not kept:
        check(torch.equal(Q.run(m, x), y0), "output after freezing")
        again = Snapshot(m, slots)
        with freeze_parameters(modules_arg(m, how) if how != "quantizer" else m.lin2, *args):
            Q.run(m, x)
        if how != "quantizer":
            again.compare(m, slots, [s for s in again.want if COVERS[how](s)], kept)
            snap.compare(m, slots, [s for s in snap.want if COVERS[how](s)], kept)
            check(torch.equal(Q.run(m, x), y0), "output after freezing again")
    return Stats(transitions=len(outs) + 2, outcome=[sorted(frozen), kept])


def slot_cases(tier):
    pk = ["stub", "lin2", "off", "fake", "dbl", "bump"]
    deep = tier != "quick"
    for w1, b1, w2, own in itertools.product(pk, ["stub", "lin4", "off"], ["stub", "chan", "dbl"] if not deep else pk + ["chan"], ["stub", "sym", "off"]):
        for remove in (None, True, False):
            for act in (0, 1) if not deep else range(8):
                slots = {"lin1.weight_quantizer": w1, "lin1.bias_quantizer": b1, "lin2.weight_quantizer": w2, "own_quantizer": own}
                acts = {0: {}, 1: dict.fromkeys(ACT, "lin4"), 2: {"mid": "lin2"}, 3: {"lin1.input_quantizer": "fake", "lin2.output_quantizer": "lin4"},
                        4: {"shift_quantizer": "lin2"}, 5: {"mid": "off"}, 6: {"mid": "bump", "shift_quantizer": "dbl"}, 7: dict.fromkeys(ACT, "sym")}[act]
                for n in (1, 2) if not deep else (0, 1, 2):
                    if n == 2 and not (remove is not False or {"dbl", "bump"}.isdisjoint(slots.values())):
                        continue
                    yield {"slots": {**slots, **acts}, "remove": remove, "forwards": n}


def option_cases(tier):
    slots = {"lin1.weight_quantizer": "lin2", "lin1.bias_quantizer": "lin4", "lin2.weight_quantizer": "chan", "own_quantizer": "sym", "mid": "lin4"}
    for how, remove, n, dtype, strict, alias, bias in itertools.product(COVERS, (True, False), (0, 1, 2), ("float32", "float64", "float16", "bfloat16"), (True, False), (0, 1), (True, False)):
        for off in (None, "lin1.weight_quantizer", "own_quantizer"):
            s = dict(slots)
            if off:
                s[off] = "off"
            yield {"slots": s, "remove": remove, "forwards": n, "modules": how, "dtype": dtype, "strict": strict, "alias": alias, "bias": bias}


def share_cases(tier):
    for kind, remove, n in itertools.product(("lin2", "lin4", "fake", "dbl", "off", "sym"), (True, False), (0, 1, 2)):
        if n == 2 and kind == "dbl" and not remove:
            continue
        names = ["lin1.weight_quantizer", "lin2.weight_quantizer", "own_quantizer", "lin1.bias_quantizer"]
        for k in (2, 3, 4):
            for group in itertools.permutations(names, k):
                for extra in ({}, {"mid": "lin4"}):
                    yield {"slots": {group[0]: kind, **extra}, "share": [[group[0], g] for g in group[1:]], "remove": remove, "forwards": n}
        # tied parameters that share a quantizer
        if kind != "dbl":
            yield {"slots": {"lin1.weight_quantizer": kind}, "share": [["lin1.weight_quantizer", "lin2.weight_quantizer"]], "tie": [["lin1.weight", "lin2.weight"]], "remove": remove, "forwards": n}
            yield {"slots": {"own_quantizer": kind}, "share": [["own_quantizer", "lin1.bias_quantizer"]], "tie": [["own", "lin1.bias"]], "remove": remove, "forwards": n}


def mode_cases(tier):
    full = {"lin1.weight_quantizer": "lin2", "lin1.bias_quantizer": "lin4", "lin2.weight_quantizer": "chan", "own_quantizer": "sym", "mid": "lin4"}
    other = {"lin1.weight_quantizer": "fake", "lin2.weight_quantizer": "lin4", "lin1.bias_quantizer": "bump", "own_quantizer": "dbl"}
    for slots in (full, other, {**full, "lin1.weight_quantizer": "off"}):
        for grads, training, mode, remove, n in itertools.product(
            (None, "none", "even", "odd", "scales"), (True, False), ("no_grad", "grad", "inference"), (True, False), (0, 1, 2)
        ):
            if n == 2 and not remove and slots is other:
                continue
            yield {"slots": slots, "grads": grads, "training": training, "mode": mode, "remove": remove, "forwards": n}


# --- exceptions ------------------------------------------------------------------------------
class Boom(Exception):
    pass


CALLS = ["lin1.input_quantizer", "lin1.weight_quantizer", "lin1.bias_quantizer", "lin1.output_quantizer", "own_quantizer", "mid", "shift_quantizer", "lin2.weight_quantizer", "lin2.output_quantizer"]


def run_crash(case):
    """Raise at one point of the freezing scope: in a quantizer, in a module, before or after."""
    m = build(case)
    slots = dict(PARAM)
    snap = Snapshot(m, slots)
    y0 = Q.run(m, Q.X)
    ff.set_strict_quantization(case["strict"])
    point = case["at"]
    handles = []

    def boom(*args, **kwargs):
        raise Boom()

    if point.startswith("call:"):
        handles.append(Q.get(m, point[5:]).register_override(boom))
        snap.overrides[point[5:]].append(boom)
    elif point.startswith("module:"):
        handles.append(m.get_submodule(point[7:]).register_forward_hook(boom))
    elif point.startswith("premodule:"):
        handles.append(m.get_submodule(point[10:]).register_forward_pre_hook(boom))
    raised = False
    try:
        with freeze_parameters(m, case["remove"]):
            if point == "before":
                raise Boom()
            Q.run(m, Q.X)
            if point == "after":
                raise Boom()
    except Boom:
        raised = True
    check(raised, "exception swallowed")
    check(ff.get_strict_quantization() == case["strict"], "strict flag")
    ff.set_strict_quantization(True)
    name = point.partition(":")[2]
    done = {"before": [], "after": CALLS}.get(point)
    if point.startswith("call:"):
        done = CALLS[: CALLS.index(name)]
    elif point.startswith("module:"):
        done = CALLS[: {"lin1": 4, "lin2": 9, "": 9}[name]]
    elif point.startswith("premodule:"):
        done = CALLS[: {"lin1": 0, "lin2": 7, "": 0}[name]]
    frozen = [s for s in snap.want if s in done]
    snap.compare(m, slots, frozen, not case["remove"])
    for h in handles:
        h.remove()
    for n, q in snap.slots.items():
        check(not list(q.overrides), "override left", n)
    check(torch.equal(Q.run(m, Q.X), y0), "output after the failed freeze")
    if case["retry"]:
        # the scope can be entered again and completes the work
        with freeze_parameters(m, case["remove"]):
            Q.run(m, Q.X)
        snap.overrides = {n: [] for n in snap.overrides}
        snap.compare(m, slots, list(snap.want), not case["remove"])
        check(torch.equal(Q.run(m, Q.X), y0), "output after the retried freeze")
    return Stats(transitions=4, outcome=[sorted(frozen)])


def crash_cases(tier):
    full = {s: "lin4" for s in [*PARAM, *ACT]}
    full["lin2.weight_quantizer"] = "chan"
    sets = [full, {"lin1.weight_quantizer": "lin2", "own_quantizer": "sym", "mid": "lin2"}, {"lin1.bias_quantizer": "fake", "lin2.weight_quantizer": "lin2"}]
    for s in sets:
        points = ["before", "after"] + [f"call:{c}" for c in CALLS if c in s and s[c] != "stub"]
        points += [f"{w}:{m}" for w in ("module", "premodule") for m in ("lin1", "lin2", "")]
        for at, remove, strict, retry in itertools.product(points, (True, False), (True, False), (True, False)):
            yield {"slots": s, "at": at, "remove": remove, "strict": strict, "retry": retry}


# --- every quantized module ------------------------------------------------------------------
def zoo(name):
    nn = torch.nn
    m, x = {
        "Linear": lambda: (nn.Linear(3, 3), torch.ones(2, 3)),
        "Conv1d": lambda: (nn.Conv1d(3, 3, 2), torch.ones(1, 3, 4)),
        "Conv2d": lambda: (nn.Conv2d(3, 3, 2), torch.ones(1, 3, 4, 3)),
        "Embedding": lambda: (nn.Embedding(3, 3), torch.tensor([0, 2, 1])),
        "LayerNorm": lambda: (nn.LayerNorm(3), torch.tensor([[1.0, 2.0, -1.0]])),
    }[name]()
    for i, p in enumerate(m.parameters()):
        Q.fill(p, i)
    box = nn.ModuleDict({"m": m})
    ff.quantize_model(box)
    return box, x


def run_zoo(case):
    box, x = zoo(case["module"])
    box.to(getattr(torch, case["dtype"]))
    slots = {}
    for n, p in list(box.m.named_parameters()):
        slot = f"m.{n}_quantizer"
        if slot in Q.all_quantizers(box):
            Q.put(box, slot, Q.KINDS[case["kinds"][n]]())
            slots[slot] = f"m.{n}"
    check(slots, "no parameter slots")
    x = x.to(getattr(torch, case["dtype"])) if x.is_floating_point() else x
    snap = Snapshot(box, slots)
    y0 = Q.run(box.m, x)
    with freeze_parameters(box, case["remove"]):
        y1 = Q.run(box.m, x)
    snap.compare(box, slots, list(snap.want), not case["remove"])
    tol = dict(atol=2e-2, rtol=2e-2) if case["dtype"] in ("float16", "bfloat16") else dict(atol=1e-5, rtol=1e-5)
    check(torch.allclose(y1.float(), y0.float(), **tol), "output while freezing")
    if case["remove"] or "bump" not in case["kinds"].values():
        check(torch.allclose(Q.run(box.m, x).float(), y0.float(), **tol), "output after freezing")
    return Stats(transitions=3, outcome=[case["module"], sorted(snap.want)])


def zoo_cases(tier):
    kinds = ["stub", "lin4", "chan", "fake", "off", "bump"]
    for module, w, b, dtype, remove in itertools.product(
        ("Linear", "Conv1d", "Conv2d", "Embedding", "LayerNorm"), kinds, kinds, ("float32", "float64", "float16", "bfloat16"), (True, False)
    ):
        if module == "Embedding" and b != "stub":
            continue
        yield {"module": module, "kinds": {"weight": w, "bias": b}, "dtype": dtype, "remove": remove}


FAMILIES = [
    Family("slots", slot_cases, run, "quantizer kind per parameter and activation slot x option x number of forward passes"),
    Family("options", option_cases, run, "module argument x removal x passes x dtype x strictness x aliases x missing bias x disabled slots"),
    Family("sharing", share_cases, run, "all ordered sharing groups of the parameter slots, with and without tied parameters"),
    Family("modes", mode_cases, run, "gradients of parameters and scales x training x grad mode of the passes x removal x kinds"),
    Family("crash", crash_cases, run_crash, "every exception point of the scope, and retrying afterwards"),
    Family("modules", zoo_cases, run_zoo, "every shipped quantized module x kinds x dtype"),
]
