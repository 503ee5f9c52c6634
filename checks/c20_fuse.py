"""C20: fusing snaps each weight once, or refuses on conflicting ties."""

from __future__ import annotations

import itertools

import torch

import fastforward as ff

from fastforward.exceptions import QuantizationError
from fastforward.quantization import find_weight_quantizers, fuse_qdq_weights, stub_weight_quantizers

from mc import qmodels as Q
from mc.harness import Family, Stats, check

PROP = "C20"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of quantizer assignments, weight ties (whole, transposed, overlapping views) and quantizer sharing; fusing runs on the real code and is compared with a reference that snaps every weight once or refuses"
ASSUMPTIONS = [
    "a weight that is tied to a module without a weight quantizer has that grid for both modules",
    "a quantizer object is shared by weight slots only",
    "quantizers that stay active after fusing are idempotent, and so are quantizers of different views of the same data",
    "parameters and scales are chosen such that the arithmetic of the model is exact",
]


class Pair(ff.nn.QuantizedModule):
    """Three linear layers, a convolution and an embedding at different depths."""

    def __init__(self, dtype=torch.float32):
        super().__init__()
        nn = ff.nn
        self.a = nn.QuantizedLinear(3, 3, bias=True)
        self.b = nn.QuantizedLinear(3, 3, bias=False)
        self.box = torch.nn.ModuleDict({"c": nn.QuantizedLinear(3, 3), "e": nn.QuantizedEmbedding(3, 3)})
        self.to(dtype)
        for i, p in enumerate(self.parameters()):
            Q.fill(p, i)
        for m in (self.a, self.b, self.box["c"], self.box["e"]):
            m.__init_quantization__()
        self.__init_quantization__()

    def __init_quantization__(self):
        super().__init_quantization__()
        self.mid = ff.nn.QuantizerStub(output_quantizer=True)

    def forward(self, x):
        i, x = x
        y = self.box["e"](i) + x
        return self.box["c"](self.mid(self.b(self.a(y))))


LAYERS = {"a": "a", "b": "b", "c": "box.c", "e": "box.e"}


def tie(model, how, x, y):
    """Tie the weight of `y` to that of `x`."""
    a, b = model.get_submodule(LAYERS[x]), model.get_submodule(LAYERS[y])
    data = a.weight.detach()
    if how == "same":
        b.weight = a.weight
    elif how == "alias":  # another parameter with the same storage
        b.weight = torch.nn.Parameter(data)
    elif how == "transpose":
        b.weight = torch.nn.Parameter(data.t())
    elif how == "overlap":  # one common row
        flat = torch.zeros(5, 3, dtype=data.dtype)
        flat[:3] = data
        flat[3:] = b.weight.detach()[1:]
        a.weight = torch.nn.Parameter(flat[:3])
        b.weight = torch.nn.Parameter(flat[2:])
    elif how == "flat":  # disjoint parts of one storage
        flat = torch.cat([data, b.weight.detach()])
        a.weight = torch.nn.Parameter(flat[:3])
        b.weight = torch.nn.Parameter(flat[3:])
    elif how == "reshape":  # a different shape of the same data
        b.weight = torch.nn.Parameter(data.flatten().as_strided((3, 3), (1, 3)))
    else:
        raise AssertionError(how)


def build(case):
    m = Pair(getattr(torch, case.get("dtype", "float32")))
    for layer, kind in case["kinds"].items():
        Q.put(m, f"{LAYERS[layer]}.weight_quantizer", Q.KINDS[kind]())
    for layer, kind in case.get("bias", {}).items():
        Q.put(m, f"{LAYERS[layer]}.bias_quantizer", Q.KINDS[kind]())
    for slot in case.get("act", []):
        Q.put(m, slot, Q.KINDS["lin4"]())
    for x, y in case.get("share", []):
        m.get_submodule(LAYERS[y]).weight_quantizer = m.get_submodule(LAYERS[x]).weight_quantizer
    for how, x, y in case.get("tie", []):
        tie(m, how, x, y)
    if case.get("alias"):
        m.twice = m.a
        m.again = m.box["c"]
    seen = set()
    with torch.no_grad():
        for n, p in m.named_parameters():
            # Parameters that share memory are one value
            if (key := p.untyped_storage().data_ptr()) in seen or n.endswith("offset"):
                continue
            seen.add(key)
            torch.empty(0, dtype=p.dtype).set_(p.untyped_storage()).mul_(2.0 ** case.get("mag", 0))
        for layer in case.get("near", []):
            m.get_submodule(LAYERS[layer]).weight_quantizer.scale.mul_(1 + 2.0**-18)
    for i, p in enumerate(m.parameters()):
        how = case.get("grads")
        if how == "none" or (how == "even" and i % 2 == 0) or (how == "odd" and i % 2):
            p.requires_grad_(False)
    return m


def inputs(dtype):
    return torch.tensor([0, 2]), Q.X.to(dtype)


def elements(w):
    """The storage positions of every element."""
    base = w.untyped_storage().data_ptr()
    idx = torch.arange(w.untyped_storage().nbytes() // w.element_size())
    return base, idx.as_strided(w.shape, w.stride(), w.storage_offset())


def expect(model):
    """layer -> QDQ value of each active weight quantizer, or None when ties conflict."""
    want, cells, ok = {}, {}, True
    for layer, path in LAYERS.items():
        mod = model.get_submodule(path)
        q, w = mod.weight_quantizer, mod.weight
        if q.is_stub():
            continue
        with torch.no_grad(), ff.strict_quantization(False):
            v = q(w)
        active = v is not w
        v = Q.plain(v).detach()
        if active:
            want[layer] = v.to(w.dtype).clone()
        base, idx = elements(w)
        for pos, val in zip(idx.flatten().tolist(), v.to(w.dtype).flatten().tolist()):
            if cells.setdefault((base, pos), val) != val:
                ok = False
    return want if ok else None


def state(model):
    params = {n: (p, p.detach().clone()) for n, p in model.named_parameters(remove_duplicate=False)}
    return params, Q.all_quantizers(model), {n: p.requires_grad for n, (p, _) in params.items()}


def compare(model, before, want, stubbed):
    """Exactly the weights in `want` changed; exactly the quantizers in `stubbed` are replaced."""
    params, slots, grads = before
    names = {f"{LAYERS[k]}.weight": v for k, v in want.items()}
    for n, p in model.named_parameters(remove_duplicate=False):
        ref, old = params[n]
        check(p is ref, "parameter object replaced", n)
        check(p.dtype == old.dtype and p.shape == old.shape, "dtype or shape changed", n)
        check(p.requires_grad == grads[n] and p.is_leaf and p.grad is None, "gradient settings", n)
        value = None
        if n in names:
            value = names[n]
        else:
            value = old.clone()
            base, idx = elements(p)
            for m, v in names.items():  # tied to a weight that is fused
                b2, i2 = elements(params[m][0])
                if b2 == base and p.dtype == v.dtype:
                    where = dict(zip(i2.flatten().tolist(), v.flatten().tolist()))
                    flat = torch.tensor([where.get(i, o) for i, o in zip(idx.flatten().tolist(), value.flatten().tolist())])
                    value = flat.reshape(p.shape).to(p.dtype)
        check(torch.equal(p.detach(), value), "parameter value", lambda: f"{n}: {p.tolist()} want {value.tolist()}")
    now = Q.all_quantizers(model)
    check(set(now) == set(slots), "slots", sorted(set(now) ^ set(slots)))
    ids = [id(q) for q in slots.values()]
    for n, q in now.items():
        if n in stubbed:
            check(q.is_stub(), "quantizer not stubbed", n)
            if ids.count(id(slots[n])) == 1:
                check(q.quant_metadata == slots[n].quant_metadata, "metadata of stub", n)
        else:
            check(q is slots[n], "quantizer replaced", n)


def stub_names(model, layers):
    names = [f"{LAYERS[k]}.weight_quantizer" for k in layers]
    if hasattr(model, "twice"):
        names += ["twice.weight_quantizer"] if "a" in layers else []
        names += ["again.weight_quantizer"] if "c" in layers else []
    return names


def run(case):
    m = build(case)
    dtype = getattr(torch, case.get("dtype", "float32"))
    x = inputs(dtype)
    want = expect(m)
    before = state(m)
    active = [k for k, p in LAYERS.items() if not m.get_submodule(p).weight_quantizer.is_stub()]
    y0 = Q.run(m, x)
    ff.set_strict_quantization(case.get("strict", True))
    stub = case["stub"]

    found = find_weight_quantizers(m)
    listed = {(id(mod), attr, id(q)) for mod, attr, q in found}
    check(listed == {(id(m.get_submodule(LAYERS[k])), "weight", id(m.get_submodule(LAYERS[k]).weight_quantizer)) for k in active}, "targets", len(found))

    raised = False
    try:
        fuse_qdq_weights(m, **({} if stub is None else {"stub_quantizers": stub}))
    except QuantizationError:
        raised = True
    check(ff.get_strict_quantization() == case.get("strict", True), "strict flag")
    ff.set_strict_quantization(True)
    if want is None:
        check(raised, "conflicting ties accepted")
        compare(m, before, {}, [])
        check(torch.equal(Q.run(m, x), y0), "output after refusal")
        return Stats(transitions=3, outcome="refused")
    check(not raised, "refused without a conflict")
    compare(m, before, want, stub_names(m, want) if stub else [])
    # an active quantizer without ties to a float module leaves the outputs as they are
    bare = {k: p for k, p in LAYERS.items() if k not in want}
    cells = {(elements(m.get_submodule(LAYERS[k]).weight)[0], i) for k in want for i in elements(m.get_submodule(LAYERS[k]).weight)[1].flatten().tolist()}
    mixed = any((elements(m.get_submodule(p).weight)[0], i) in cells for p in bare.values() for i in elements(m.get_submodule(p).weight)[1].flatten().tolist())
    nonidem = any(case["kinds"].get(k) in ("bump", "dbl") for k in case["kinds"])
    steps = 3
    if not mixed and (stub or not nonidem):
        tol = 0 if dtype in (torch.float32, torch.float64) else 1e-1
        y1 = Q.run(m, x)
        near = 1e-5 * y0.abs().max().item() if case.get("mag") else 0
        check(torch.allclose(y1, y0, atol=tol + near, rtol=tol), "output changed", lambda: f"{y1.tolist()} {y0.tolist()}")
        again = state(m)
        fuse_qdq_weights(m, **({} if stub is None else {"stub_quantizers": stub}))
        compare(m, again, {}, [])
        steps += 2
    return Stats(transitions=steps, outcome=sorted(want))


def slot_cases(tier):
    kinds = ["stub", "lin2", "chan", "fake", "dbl", "off"]
    third = ["stub", "sym"] if tier == "quick" else kinds
    for a, b, c, e in itertools.product(kinds, kinds, third, ["stub", "lin4"] if tier == "quick" else ["stub", "chan", "fake", "off"]):
        for stub in (None, False, True):
            for bias, act in (({}, []), ({"a": "lin2", "c": "lin2"}, ["mid", "a.input_quantizer", "b.output_quantizer"])):
                for strict in (True,) if tier == "quick" else (True, False):
                    yield {"kinds": {"a": a, "b": b, "c": c, "e": e}, "stub": stub, "bias": bias, "act": act, "strict": strict}


def dtype_cases(tier):
    for dtype, kind, other, stub, alias in itertools.product(("float32", "float64", "float16", "bfloat16"), ("lin2", "chan", "fake", "off", "dbl", "bump", "sym"), ("stub", "off", "lin4"), (True, False), (0, 1)):
        yield {"kinds": {"a": kind, "b": other, "c": other, "e": kind}, "stub": stub, "dtype": dtype, "alias": alias}


PAIRS = [("a", "b"), ("b", "c"), ("a", "c"), ("e", "c"), ("a", "e")]


def tie_cases(tier):
    kinds = ["stub", "lin4", "lin2", "chan", "dbl", "off", "fake"]
    for how in ("same", "alias", "transpose", "overlap", "flat", "reshape"):
        for x, y in PAIRS if tier != "quick" else PAIRS[:4]:
            for kx, ky, stub in itertools.product(kinds, kinds, (True, False)):
                if kx == ky == "dbl" and how in ("transpose", "overlap", "reshape"):
                    continue  # see ASSUMPTIONS
                yield {"kinds": {x: kx, y: ky}, "tie": [[how, x, y]], "stub": stub}
                if kx == ky != "stub":
                    yield {"kinds": {x: kx}, "share": [[x, y]], "tie": [[how, x, y]], "stub": stub}
                    yield {"kinds": {x: kx}, "share": [[x, y]], "tie": [[how, x, y]], "stub": stub, "alias": 1}
    # three weights, two ties
    hows = ("same", "alias", "transpose") if tier == "quick" else ("same", "alias", "transpose", "reshape")
    for h1, h2 in itertools.product(hows, hows):
        for ks in itertools.product(["stub", "lin4", "lin2", "chan"], repeat=3):
            for stub in (True, False):
                yield {"kinds": dict(zip("abc", ks)), "tie": [[h1, "a", "b"], [h2, "b", "c"]], "stub": stub}


def share_cases(tier):
    for kind, stub, alias in itertools.product(("lin2", "lin4", "chan", "fake", "dbl", "off", "sym"), (None, True, False), (0, 1)):
        for k in (2, 3, 4):
            for group in itertools.permutations("abce", k):
                for other in ("stub", "lin4"):
                    kinds = {l: other for l in "abce" if l not in group}
                    yield {"kinds": {**kinds, group[0]: kind}, "share": [[group[0], g] for g in group[1:]], "stub": stub, "alias": alias}
        for p, q in (("ab", "ce"), ("ac", "be"), ("ae", "bc")):
            yield {"kinds": {p[0]: kind, q[0]: "lin4"}, "share": [[p[0], p[1]], [q[0], q[1]]], "stub": stub, "alias": alias}


def magnitude_cases(tier):
    kinds = ["stub", "lin4", "lin2", "chan", "off", "sym"]
    for mag in (-90, -40, -20, 0, 30) if tier == "quick" else (-110, -90, -60, -40, -30, -20, -10, 0, 10, 30, 60, 90):
        for how in ("same", "alias", "transpose", "overlap", "flat"):
            for kx, ky, stub in itertools.product(kinds, kinds, (True, False)):
                base = {"tie": [[how, "a", "b"]], "stub": stub, "mag": mag}
                yield {**base, "kinds": {"a": kx, "b": ky}, "grads": ("none", "even", "odd")[mag % 3]}
                if ky not in ("stub", "off"):
                    yield {**base, "kinds": {"a": kx, "b": ky}, "near": ["b"]}


# --- stubs only, custom discovery ------------------------------------------------------------
def run_stub(case):
    m = build(case)
    before = state(m)
    active = [k for k, p in LAYERS.items() if not m.get_submodule(p).weight_quantizer.is_stub()]
    select = case["select"]
    calls = []

    def discovery(model):
        calls.append(model)
        for k in select:
            mod = model.get_submodule(LAYERS[k])
            if not mod.weight_quantizer.is_stub():
                yield mod, "weight", mod.weight_quantizer

    kw = {} if select is None else {"discovery": discovery}
    picked = active if select is None else [k for k in select if k in active]
    if case["op"] == "stub":
        stub_weight_quantizers(m, **kw)
        compare(m, before, {}, stub_names(m, picked))
    else:
        want = expect(m)
        check(want is not None, "harness: no ties here")
        fuse_qdq_weights(m, stub_quantizers=case["op"] == "fusestub", **kw)
        want = {k: v for k, v in want.items() if k in picked}
        compare(m, before, want, stub_names(m, want) if case["op"] == "fusestub" else [])
    return Stats(transitions=2, outcome=sorted(picked))


def stub_cases(tier):
    kinds = ["stub", "lin2", "dbl", "off"]
    for ks in itertools.product(kinds, repeat=4):
        if tier == "quick" and ks[2] == "off":
            continue
        for op in ("stub", "fuse", "fusestub"):
            for select in (None, [], ["a"], ["c", "a"], ["e", "b", "a", "c"], ["a", "a"]):
                yield {"kinds": dict(zip("abce", ks)), "op": op, "select": select}


# --- a quantizer that raises -----------------------------------------------------------------
class Boom(Exception):
    pass


def run_crash(case):
    """When a quantizer raises, every weight holds its old or its snapped value."""
    m = build(case)
    want = expect(m)
    params, slots, _ = state(m)

    def boom(*a, **k):
        raise Boom()

    h = m.get_submodule(LAYERS[case["at"]]).weight_quantizer.register_override(boom)
    raised = False
    ff.set_strict_quantization(case["strict"])
    try:
        fuse_qdq_weights(m, stub_quantizers=case["stub"])
    except Boom:
        raised = True
    check(raised, "exception swallowed")
    check(ff.get_strict_quantization() == case["strict"], "strict flag")
    ff.set_strict_quantization(True)
    h.remove()
    for n, p in m.named_parameters(remove_duplicate=False):
        if n not in params:
            continue
        check(p is params[n][0], "parameter object replaced", n)
        new = {f"{LAYERS[k]}.weight": v for k, v in want.items()}.get(n)
        same, snapped = torch.equal(p.detach(), params[n][1]), new is not None and torch.equal(p.detach(), new)
        check(same or snapped, "parameter value", n)
        if n == f"{LAYERS[case['at']]}.weight":
            check(same, "weight of the failing quantizer changed", n)
        q = Q.all_quantizers(m).get(n + "_quantizer")
        if q is not None and q is not slots[n + "_quantizer"]:
            check(case["stub"] and snapped, "stubbed without its snapped weight", n)
    fuse_qdq_weights(m, stub_quantizers=case["stub"])
    if "dbl" not in case["kinds"].values() or case["stub"]:
        for k, v in want.items():
            check(torch.equal(m.get_submodule(LAYERS[k]).weight.detach(), v), "value after retry", k)
    return Stats(transitions=3, outcome=case["at"])


def crash_cases(tier):
    for ks in itertools.product(["lin2", "chan", "dbl", "stub"], repeat=4):
        for at in "abce":
            kinds = dict(zip("abce", ks))
            if kinds[at] == "stub":
                continue
            for stub, strict in itertools.product((True, False), (True, False)):
                yield {"kinds": kinds, "at": at, "stub": stub, "strict": strict}


FAMILIES = [
    Family("slots", slot_cases, run, "quantizer kind per weight slot x option x bias and activation quantizers"),
    Family("dtypes", dtype_cases, run, "kind x dtype x option x aliased modules"),
    Family("ties", tie_cases, run, "tie pattern x pair of layers x pair of kinds, shared or separate quantizers; chains of two ties"),
    Family("sharing", share_cases, run, "all ordered groups of layers that share one quantizer"),
    Family("magnitude", magnitude_cases, run, "magnitude of weights and scales, from 2^-110, x tie x kinds, with almost equal scales"),
    Family("stubs", stub_cases, run_stub, "stubbing alone and user-defined discovery"),
    Family("crash", crash_cases, run_crash, "a quantizer that raises, at every layer"),
]
