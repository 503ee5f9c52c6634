"""C15: quantizers, quantized modules and quantized tensors survive copies, pickles and state dicts."""

from __future__ import annotations

import copy
import io
import itertools
import logging
import pickle
import warnings

import torch

import fastforward as ff

from mc import refs
from mc.harness import Family, Stats, check

PROP = "C15"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all operation sequences (copy, pickle, state dict, initialise, reset, cast) up to a depth on the real objects, compared step by step with a value model; all earlier copies are re-examined after every step"
ASSUMPTIONS = [
    "CPU only; dtype moves instead of device moves",
    "a shallow copy (copy.copy) shares its parameters with the original, as for every torch module; only its equality is demanded",
    "state dicts of uninitialised quantizers are taken with keep_vars=True, torch itself cannot detach uninitialised parameters",
]

logging.getLogger("fastforward").setLevel(logging.CRITICAL)

SHAPE = (2, 4)
X = torch.tensor([[-3.0, 0.25, 1.25, 2.0], [0.5, 0.75, -0.75, 7.0]])


class Doubling(ff.nn.LinearQuantizer):
    """User-defined quantizer with an own attribute."""

    def __init__(self, num_bits, factor=1.0, **kwargs):
        super().__init__(num_bits, **kwargs)
        self.factor = factor

    def quantize(self, data):
        return super().quantize(data * self.factor)


CH0 = ff.PerChannel(0)
BLOCK = ff.PerBlock(block_dims=(1,), block_sizes=(2,), per_channel_dims=(0,))

# name -> constructor, bits, tile, offset kind (none/buffer/param), two ranges
T = torch.tensor
R1 = (-2.0, 1.75)
KINDS = {
    "sym": (lambda: ff.nn.LinearQuantizer(4, symmetric=True, allow_one_sided=False), 4, SHAPE, "none"),
    "one": (lambda: ff.nn.LinearQuantizer(3, granularity=CH0), 3, (1, 4), "buffer"),
    "asym": (lambda: ff.nn.LinearQuantizer(4, symmetric=False, granularity=BLOCK, quantized_dtype=torch.int8), 4, (1, 2), "param"),
    "asym16": (lambda: ff.nn.LinearQuantizer(4, symmetric=False, granularity=CH0, param_dtype=torch.float16), 4, (1, 4), "param"),
    "tile64": (lambda: ff.nn.LinearQuantizer(2, symmetric=True, granularity=ff.PerTile((2, 2)), param_dtype=torch.float64), 2, (2, 2), "buffer"),
    "custom": (lambda: Doubling(4, factor=2.0, symmetric=False), 4, SHAPE, "param"),
    "dyn": (lambda: ff.nn.DynamicLinearQuantizer(3, granularity=CH0, symmetric=True), 3, (1, 4), None),
    "stub": (lambda: ff.nn.QuantizerStub("a/b", weight_quantizer=True, shape=(2, 4), extra=[1, 2]), None, SHAPE, None),
}


def initialise(kind, q, which):
    make, bits, tile, off = KINDS[kind]
    n = refs.num_tiles(SHAPE, tile)
    lo = [0.0 if which == "pos" else -1.0 - i for i in range(n)]
    hi = [(1.75 if which == "pos" else 0.875) * (i + 1) for i in range(n)]
    q.quantization_range = (T(lo), T(hi))


def describe(kind, q, depth=0):
    """Everything observable about a quantizer."""
    d = {"type": type(q).__name__, "training": q.training}
    m = q.quant_metadata
    d["meta"] = None if m is None else [
        "a" in m, "a/b" in m, "c" in m, m.weight_quantizer, m.parameter_quantizer, m.bias_quantizer,
        tuple(m.shape) if m.shape is not None else None, getattr(m, "extra", None),
    ]
    d["keys"] = sorted(q.state_dict(keep_vars=True))
    for name in ("num_bits", "symmetric", "allow_one_sided", "quantized_dtype", "factor"):
        if kind != "stub" and hasattr(q, name):
            d[name] = str(getattr(q, name))
    if kind != "stub":
        d["gran"] = q.granularity
    for name, p in itertools.chain(q.named_parameters(), q.named_buffers()):
        if torch.nn.parameter.is_lazy(p):
            # pickling an uninitialised parameter is up to torch, and does not keep the dtype
            d[name] = ["uninitialised", isinstance(p, torch.nn.Parameter), p.requires_grad]
        else:
            d[name] = [p.tolist(), str(p.dtype), isinstance(p, torch.nn.Parameter), p.requires_grad]
    d["behaviour"] = behaviour(kind, q)
    return d


def behaviour(kind, q):
    try:
        with torch.no_grad():
            y = q(X)
    except ValueError:
        return "refused"
    if not isinstance(y, ff.QuantizedTensor):
        return ["float", y.tolist()]
    return ["quantized", y.raw_data.tolist(), y.dequantize().tolist(), str(y.raw_data.dtype)]


def expected_behaviour(kind, q):
    """From the parameters and the definition of the kind alone."""
    make, bits, tile, off = KINDS[kind]
    if kind == "stub":
        return ["float", X.tolist()]
    if kind == "dyn":
        with torch.no_grad():
            y = make()(X)
        return ["quantized", y.raw_data.tolist(), y.dequantize().tolist(), str(y.raw_data.dtype)]
    if torch.nn.parameter.is_lazy(q.scale):
        return "refused"
    scale = q.scale.tolist()
    offset = q.offset.tolist() if q.offset is not None else [None] * len(scale)
    factor = 2.0 if kind == "custom" else 1.0
    raw, deq = [], []
    for i in range(SHAPE[0]):
        raw.append([]), deq.append([])
        for j in range(SHAPE[1]):
            t = refs.tile_index((i, j), SHAPE, tile)
            v = refs.quantize(X[i, j].item() * factor, scale[t], offset[t], bits)
            raw[-1].append(v), deq[-1].append(refs.dequantize(v, scale[t], offset[t]))
    return ["quantized", raw, deq]


def same_outputs(got, want):
    if isinstance(want, str) or isinstance(got, str):
        return got == want
    if got[0] != want[0] or [list(map(float, r)) for r in got[1]] != want[1]:
        return False
    if got[0] == "float":
        return True
    return all(abs(a - b) < 1e-2 for r, s in zip(got[2], want[2]) for a, b in zip(r, s))


def torch_save_load(x):
    b = io.BytesIO()
    torch.save(x, b)
    b.seek(0)
    return torch.load(b, weights_only=False)


COPIES = {
    "deepcopy": copy.deepcopy,
    "pickle": lambda q: pickle.loads(pickle.dumps(q)),
    "save": torch_save_load,
    "copy": copy.copy,
}
Q_OPS = ["neg", "pos", "reset", "deepcopy", "pickle", "save", "copy", "reload", "reload_copy", "into_self", "half", "double", "eval"]


def is_init(q):
    return not any(torch.nn.parameter.is_lazy(p) for p in itertools.chain(q.parameters(), q.buffers()))


def state_of(q):
    if is_init(q):
        return {k: v.clone() for k, v in q.state_dict().items()}
    return q.state_dict(keep_vars=True)


def apply_op(kind, q, op):
    """Return (new current object, is an independent copy, description may change)."""
    make = KINDS[kind][0]
    if op in ("neg", "pos"):
        if kind not in ("dyn", "stub"):
            initialise(kind, q, op)
        return q, False, {"init"}
    if op == "reset":
        q.reset_parameters()
        return q, False, {"reset"}
    if op in COPIES:
        return COPIES[op](q), op != "copy", set()
    if op in ("reload", "reload_copy"):
        fresh = make()
        if op == "reload_copy":
            fresh = copy.deepcopy(fresh)
        fresh.to(dtypes_of(q)) if dtypes_of(q) is not None else None
        missing = fresh.load_state_dict(state_of(q))
        check(not missing.missing_keys and not missing.unexpected_keys, "state-keys", missing)
        return fresh, True, {"training"}
    if op == "into_self":
        sd = state_of(q)
        if is_init(q):
            q.reset_parameters()
            q.load_state_dict(sd)
        return q, False, set()
    if op == "half":
        return q.half(), False, {"dtype"}
    if op == "double":
        return q.double(), False, {"dtype"}
    if op == "eval":
        return q.eval(), False, {"training"}
    raise AssertionError(op)


def dtypes_of(q):
    return q.scale.dtype if isinstance(q, ff.nn.LinearQuantizer) else None


def strip(d, what):
    d = dict(d)
    if "training" in what:
        d.pop("training")
    return d


def run_quantizer(case):
    kind, ops = case["kind"], case["ops"]
    q = KINDS[kind][0]()
    fresh = describe(kind, q)
    originals = []
    shared = False
    states = 0
    for op in ops:
        before = describe(kind, q)
        dtype = dtypes_of(q)
        new, independent, change = apply_op(kind, q, op)
        after = describe(kind, new)
        states += 1
        where = f"{kind} after {ops} at {op}"
        check(type(new) is type(q), "type", where)
        if independent:
            check(new is not q, "independence", where)
            if not shared:
                originals.append((q, before))
        elif new is not q:
            shared = True
        if op in ("neg", "pos") and kind not in ("dyn", "stub"):
            check(is_init(new), "init", where)
            check({k: v for k, v in before.items() if k not in ("scale", "offset", "behaviour")} == {k: v for k, v in after.items() if k not in ("scale", "offset", "behaviour")}, "init-changes", lambda: f"{where}: {before} -> {after}")
            check(new.scale.dtype == dtype, "init-dtype", where)
        elif op == "reset" and kind not in ("dyn", "stub"):
            check(strip(after, {"training"}) == strip(fresh, {"training"}), "reset-fresh", lambda: f"{where}: {fresh} -> {after}")
            check(after["training"] == before["training"], "reset-training", where)
        elif change == {"dtype"}:
            want = torch.float16 if op == "half" else torch.float64
            if kind not in ("dyn", "stub"):
                check(dtypes_of(new) == want, "cast-dtype", where)
                for n in ("scale", "offset"):
                    if isinstance(before.get(n), list) and before[n][0] != "uninitialised":
                        check(after[n][0] == T(before[n][0]).to(want).tolist(), "cast-value", lambda: f"{where} {n}: {before[n]} {after[n]}")
        else:
            check(strip(before, change) == strip(after, change), "preserved", lambda: f"{where}: {before} -> {after}")
            if op == "eval":
                check(not new.training, "eval", where)
        check(same_outputs(after["behaviour"], expected_behaviour(kind, new)), "behaviour", lambda: f"{where}: {after['behaviour']} != {expected_behaviour(kind, new)}")
        for other, desc in originals:
            now = describe(kind, other)
            check(now == desc, "independence", lambda: f"{where}: earlier object changed {desc} -> {now}")
        q = new
    return Stats(states=states, transitions=len(ops), outcome=[kind, str(describe(kind, q))])


def gen_quantizer(tier):
    depth = 3 if tier == "quick" else 4
    for kind in KINDS:
        ops = [o for o in Q_OPS if not (kind in ("dyn", "stub") and o in ("neg", "pos", "into_self", "half"))]
        if tier != "quick" and kind in ("dyn", "stub"):
            use = 3
        else:
            use = depth
        for seq in itertools.product(ops, repeat=use):
            yield {"kind": kind, "ops": list(seq)}


# --- overrides -------------------------------------------------------------------------------
def run_overrides(case):
    """Deep copies carry the overrides, but adding or removing them is independent."""
    q = ff.nn.LinearQuantizer(4)
    q.quantization_range = (-1, 1)
    log = []

    def tracer(name):
        def fn(ctx, nxt, args, kwargs):
            log.append((name, ctx))
            return nxt(*args, **kwargs)

        return fn

    quantizers = [q]
    stacks = [[]]
    handles = []
    names = itertools.count()
    for op in case["ops"]:
        name, _, arg = op.partition(":")
        i = int(arg) if arg else 0
        if i >= len(quantizers):
            return Stats(states=0, outcome="skip")
        if name == "add":
            label = next(names)
            handles.append((quantizers[i].register_override(tracer(label)), i, label))
            stacks[i].append(label)
        elif name == "deepcopy":
            quantizers.append(copy.deepcopy(quantizers[i]))
            stacks.append(list(stacks[i]))
        elif name == "pickle":
            if stacks[i]:
                try:
                    pickle.dumps(quantizers[i])
                except RuntimeError:
                    continue
                check(False, "override-pickle", case)
            quantizers.append(pickle.loads(pickle.dumps(quantizers[i])))
            stacks.append([])
        elif name == "remove":
            if not handles:
                return Stats(states=0, outcome="skip")
            h, j, label = handles.pop()
            h.remove()
            stacks[j].remove(label)
        for qq, st in zip(quantizers, stacks):
            log.clear()
            y = qq(X)
            check([n for n, _ in log] == st[::-1], "overrides", lambda: f"{case}: {log} expected {st[::-1]}")
            check(all(c is qq for _, c in log), "override-context", case)
            check(isinstance(y, ff.QuantizedTensor), "override-result", case)
            check(len(list(qq.overrides)) == len(st), "override-list", case)
    return Stats(states=len(quantizers), transitions=len(case["ops"]), outcome=stacks)


def gen_overrides(tier):
    ops = ["add:0", "add:1", "deepcopy:0", "deepcopy:1", "pickle:0", "remove"]
    for seq in itertools.product(ops, repeat=4 if tier == "quick" else 5):
        yield {"ops": list(seq)}


# --- modules ---------------------------------------------------------------------------------
class Holder(torch.nn.Module):
    """Module that has entries with the same names as the entries of a quantizer."""

    def __init__(self, child_name, quantizer, extra):
        super().__init__()
        if extra:
            self.scale = torch.nn.Parameter(torch.arange(5.0)) if child_name != "scale" else None
            if child_name == "scale":
                del self.scale
            if child_name != "offset":
                self.register_buffer("offset", torch.arange(7.0))
        self.add_module(child_name, quantizer)


NAMES = ["q", "scale", "offset", "q_scale", "num_bits", "granularity"]


def build_nest(case):
    quantizer = KINDS[case["kind"]][0]()
    module = quantizer
    for name in reversed(case["path"]):
        module = Holder(name, module, case["extra"])
    return module, quantizer


def run_nested(case):
    """State dicts of nested quantizers: own entries only, foreign entries never matter."""
    src, sq = build_nest(case)
    initialise(case["kind"], sq, "neg")
    state = src.state_dict()
    for how in ("fresh", "deepcopy", "pickle"):
        dst, dq = build_nest(case)
        if how != "fresh":
            dst = COPIES[how](dst)
            dq = dst
            for name in case["path"]:
                dq = dq.get_submodule(name)
        load = dict(state)
        prefix = ".".join(case["path"])
        prefix = prefix + "." if prefix else ""
        dropped = case["drop"]
        for key in dropped:
            load.pop(prefix + key, None)
        for key in case["foreign"]:
            if key not in state and key not in [prefix + d for d in dropped]:
                load[key] = torch.full((9,), 3.0)
        result = dst.load_state_dict(load, strict=False)
        for key in ("scale", "offset"):
            got, want = getattr(dq, key), getattr(sq, key)
            if want is None:
                check(got is None, "none", case)
            elif key in dropped:
                check(torch.nn.parameter.is_lazy(got), "foreign-entry", lambda: f"{case} {how}: {key} = {got}")
                check(prefix + key in result.missing_keys, "missing-reported", case)
            else:
                check(got.tolist() == want.tolist(), "loaded", lambda: f"{case} {how}: {key} {got} {want}")
        if not dropped:
            check(describe(case["kind"], dq) == describe(case["kind"], sq), "loaded-equal", case)
    return Stats(states=3, transitions=3, outcome=[len(case["path"]), case["drop"]])


def gen_nested(tier):
    depths = (0, 1, 2) if tier == "quick" else (0, 1, 2, 3)
    for kind in ("sym", "one", "asym", "custom"):
        for d in depths:
            for path in itertools.product(NAMES, repeat=d):
                for extra in (False, True):
                    for drop in ([], ["scale"], ["offset"], ["scale", "offset"]):
                        foreign = ["other.scale", "scale", "offset", "q.scale", "q.q.scale", "scale.scale", "scale.offset", "offset.scale", "xq.scale", "quantize", "training"]
                        yield {"kind": kind, "path": list(path), "extra": extra, "drop": drop, "foreign": foreign}


def linear_model(case):
    torch.manual_seed(0)

    a = ff.nn.QuantizedLinear(4, 2)
    b = ff.nn.QuantizedRelu()
    modules = [a, b]
    slots = [("a", "input_quantizer"), ("a", "weight_quantizer"), ("a", "bias_quantizer"), ("b", "output_quantizer")]
    for (which, slot), kind in zip(slots, case["kinds"]):
        if kind == "none":
            continue
        owner = a if which == "a" else b
        q = {
            "uninit": lambda: ff.nn.LinearQuantizer(4, symmetric=False),
            "one": lambda: ff.nn.LinearQuantizer(3),
            "shared": lambda: SHARED[0],
        }[kind]()
        if kind != "uninit":
            q.quantization_range = (0.0, 2.0)
        setattr(owner, slot, q)
    if case["twice"]:
        modules.append(b)
    return torch.nn.Sequential(*modules)


SHARED = [None]


def describe_model(m):
    d = {}
    for name, mod in m.named_modules(remove_duplicate=False):
        d[name] = [type(mod).__name__, mod.training]
        if isinstance(mod, ff.nn.Quantizer):
            meta = mod.quant_metadata
            d[name] += [None if meta is None else [meta.weight_quantizer, meta.bias_quantizer, meta.input_quantizer, meta.output_quantizer, str(meta.shape)], getattr(mod, "num_bits", None)]
    for name, p in itertools.chain(m.named_parameters(remove_duplicate=False), m.named_buffers(remove_duplicate=False)):
        d["p:" + name] = ["lazy", p.requires_grad] if torch.nn.parameter.is_lazy(p) else [p.tolist(), str(p.dtype), p.requires_grad]
    ids = {}
    d["sharing"] = [ids.setdefault(id(x), len(ids)) for x in itertools.chain((mod for _, mod in m.named_modules(remove_duplicate=False)), (p for _, p in m.named_parameters(remove_duplicate=False)))]
    with torch.no_grad(), ff.strict_quantization(False):
        try:
            y = m(X)
            d["out"] = (y.dequantize() if isinstance(y, ff.QuantizedTensor) else y).tolist()
        except ValueError:
            d["out"] = "refused"
    return d


def run_model(case):
    SHARED[0] = ff.nn.LinearQuantizer(3)
    m = linear_model(case)
    originals = []
    states = 0
    for op in case["ops"]:
        before = describe_model(m)
        if op in COPIES and op != "copy":
            new = COPIES[op](m)
            originals.append((m, before))
        elif op == "reload":
            SHARED[0] = ff.nn.LinearQuantizer(3)
            new = linear_model(case)
            lazy = any(torch.nn.parameter.is_lazy(p) for p in itertools.chain(m.parameters(), m.buffers()))
            new.load_state_dict(m.state_dict(keep_vars=lazy))
            new.train(m.training)
            originals.append((m, before))
        elif op == "mutate":
            with torch.no_grad():
                for p in m.parameters():
                    if not torch.nn.parameter.is_lazy(p):
                        p.mul_(2)
            new = m
        elif op == "eval":
            new = m.eval()
        elif op == "init":
            for q in m.modules():
                if isinstance(q, ff.nn.LinearQuantizer):
                    q.quantization_range = (-1.0, 3.0)
            new = m
        after = describe_model(new)
        states += 1
        if op not in ("mutate", "eval", "init"):
            check(before == after, "model-preserved", lambda: f"{case} at {op}: {[(k, before[k], after.get(k)) for k in before if before[k] != after.get(k)]}")
        for o, desc in originals:
            check(describe_model(o) == desc, "model-independence", lambda: f"{case} at {op}")
        m = new
    return Stats(states=states, transitions=len(case["ops"]), outcome=str(describe_model(m)["out"]))


def gen_model(tier):
    ops = ["deepcopy", "pickle", "save", "reload", "mutate", "eval", "init"]
    kindsets = [("none",) * 4, ("shared", "one", "none", "shared"), ("uninit", "one", "shared", "one"), ("one", "shared", "uninit", "shared")]
    if tier != "quick":
        kindsets = list(itertools.product(("none", "uninit", "one", "shared"), repeat=4))
    for kinds in kindsets:
        for twice in (False, True):
            for seq in itertools.product(ops, repeat=3):
                if tier != "quick" or seq[0] != "eval":
                    yield {"kinds": list(kinds), "twice": twice, "ops": list(seq)}


# --- quantized tensors -----------------------------------------------------------------------
T_OPS = ["clone", "detach", "deepcopy", "copy", "pickle", "save", "cpu", "to", "contiguous", "grad", "mutate"]
T_KINDS = {
    "tensor": (SHAPE, None, None),
    "channel-i8": ((1, 4), "offset", torch.int8),
    "block-f64": ((1, 2), "offset", torch.float64),
    "tile": ((2, 2), None, torch.float32),
    "transposed": ((2, 1), "offset", None),
    "scalar": (SHAPE, "scalar", None),
    "scalar-i8": (SHAPE, "scalar", torch.int8),
}


def make_tensor(kind):
    tile, offset, dtype = T_KINDS[kind]
    n = refs.num_tiles(SHAPE, tile)
    gran = ff.PerTile(tile)
    scale = T([0.25 * (i + 1) for i in range(n)])
    off = T([float(i - 1) for i in range(n)]) if offset else None
    if offset == "scalar":
        scale, off = T(0.25), T(-1.0)
    x = X
    if kind == "transposed":
        x = X.t().contiguous().t()
    ctx = ff.quantization.affine.quantization_context(scale=scale, offset=off, granularity=gran, num_bits=4, output_dtype=dtype)
    with torch.no_grad():
        return ctx.quantization_fn.quantize(x, ctx.quantization_params)


def describe_tensor(y):
    p = y.quant_args()
    return {
        "type": type(y).__name__,
        "raw": y.raw_data.tolist(),
        "dtype": str(y.dtype),
        "raw_type": type(y.raw_data).__name__,
        "stride": y.raw_data.stride(),
        "grad": y.requires_grad,
        "scale": p.scale.tolist(),
        "scale_dtype": str(p.scale.dtype),
        "offset": None if p.offset is None else p.offset.tolist(),
        "gran": str(p.granularity),
        "bits": p.num_bits,
        "fn": y.quant_func,
        "deq": y.dequantize().tolist(),
        "device": str(y.device),
    }


def run_tensor(case):
    kind, ops = case["kind"], case["ops"]
    y = make_tensor(kind)
    originals = []
    group = 0  # objects in the same group may share memory
    states = 0
    for op in ops:
        before = describe_tensor(y)
        if op == "mutate":
            if y.requires_grad:
                continue  # torch restricts in-place changes of recorded views
            with torch.no_grad():
                y.raw_data.mul_(-1)
                y.quant_args().scale.mul_(2)
                if y.quant_args().offset is not None:
                    y.quant_args().offset.add_(1)
            check(y.raw_data.tolist() == [[-v for v in r] for r in before["raw"]], "mutate", case)
            for o, d, g in originals:
                if g != group:
                    check(describe_tensor(o) == d, "tensor-independence", lambda: f"{case}: {d} -> {describe_tensor(o)}")
            originals = [(o, describe_tensor(o), g) for o, d, g in originals]
            states += 1
            continue
        ignore = set()
        if op == "grad":
            if not y.raw_data.dtype.is_floating_point:
                continue
            new = y.requires_grad_(True)
            ignore = {"grad"}
            check(new.requires_grad, "requires-grad", case)
        elif op in ("clone", "detach", "cpu", "contiguous"):
            new = getattr(y, op)()
        elif op == "to":
            new = y.to("cpu")
        else:
            if op == "deepcopy" and not y.is_leaf:
                try:
                    copy.deepcopy(y)
                except RuntimeError:
                    continue
                check(False, "deepcopy-nonleaf", case)
            if op in ("deepcopy", "pickle", "save"):
                pair = COPIES[op]([y, {"again": y}])
                check(pair[0] is pair[1]["again"], "tensor-sharing", lambda: f"{case} at {op}")
                new = pair[0]
                if op != "deepcopy" and not y.is_leaf:
                    ignore = {"grad"}
            else:
                new = COPIES[op](y)
                if op == "copy" and not y.is_leaf:
                    ignore = {"grad"}
                if op == "copy":
                    ignore = {"grad"}
        if op in ("pickle", "save", "copy", "deepcopy"):
            # gradients are a property of the live graph: only deepcopy of leaves keeps the flag
            ignore |= {"grad"} if op != "deepcopy" else set()
        if op == "detach":
            ignore = {"grad"}
            check(not new.requires_grad, "detach", case)
        if op == "contiguous":
            ignore |= {"stride"}
            check(new.raw_data.is_contiguous(), "contiguous", case)
        after = describe_tensor(new)
        states += 1
        check({k: v for k, v in before.items() if k not in ignore} == {k: v for k, v in after.items() if k not in ignore}, "tensor-preserved", lambda: f"{case} at {op}: {before} -> {after}")
        originals.append((y, before if op != "grad" else describe_tensor(y), group))
        if op in ("clone", "deepcopy", "pickle", "save"):
            group += 1
            check(new.data_ptr() != y.data_ptr(), "tensor-alias", lambda: f"{case} at {op}")
            check(new.quant_args().scale.data_ptr() != y.quant_args().scale.data_ptr(), "scale-alias", lambda: f"{case} at {op}")
        elif op in ("detach", "copy"):
            pass
        for o, d, g in originals:
            check(describe_tensor(o) == d, "tensor-original", lambda: f"{case} at {op}: {d} -> {describe_tensor(o)}")
        y = new
    return Stats(states=states, transitions=len(ops), outcome=str(describe_tensor(y)))


def gen_tensor(tier):
    for kind in T_KINDS:
        for seq in itertools.product(T_OPS, repeat=3 if tier == "quick" else 4):
            yield {"kind": kind, "ops": list(seq)}


# --- the state of only the quantizers ---------------------------------------------------------
Q_KINDS = ("none", "init", "uninit", "custom", "shared", "dyn")
Q_SLOTS = ("a.input_quantizer", "a.weight_quantizer", "sub.b.output_quantizer", "sub.hidden")


def partial_model(kinds, level):
    """Model with a quantizer of a kind at every slot; `level` makes all values differ."""
    torch.manual_seed(level)
    sub = torch.nn.Module()
    sub.b = ff.nn.QuantizedRelu()
    sub.scale = torch.nn.Parameter(torch.full((3,), float(level)))
    model = torch.nn.Module()
    model.a = ff.nn.QuantizedLinear(4, 2)
    model.sub = sub
    model.register_buffer("offset", torch.full((2,), float(level)))
    shared = ff.nn.LinearQuantizer(5, symmetric=False)
    shared.quantization_range = (-1.0 - level, 2.0)
    made = {}
    for i, (slot, kind) in enumerate(zip(Q_SLOTS, kinds)):
        if kind == "none":
            if slot == "sub.hidden":
                continue
            made[slot] = model.get_submodule(slot)
            continue
        if kind == "shared":
            q = shared
        elif kind == "dyn":
            q = ff.nn.DynamicLinearQuantizer(3)
        else:
            q = Doubling(4, factor=2.0, symmetric=False) if kind == "custom" else ff.nn.LinearQuantizer(4, symmetric=i % 2 == 0)
            if kind != "uninit":
                q.quantization_range = (-1.0 - i - level, 2.0 + i)
        owner, _, name = slot.rpartition(".")
        setattr(model.get_submodule(owner), name, q)
        made[slot] = q
    return model, made


def values_of(q):
    return {k: None if torch.nn.parameter.is_lazy(p) else p.tolist() for k, p in itertools.chain(q.named_parameters(), q.named_buffers())}


def run_partial(case):
    """Entries of exactly the initialised quantizers, that restore them and change nothing else."""
    from fastforward.nn.quantized_module import quantizer_state_dict

    model, made = partial_model(case["kinds"], 0)
    state = quantizer_state_dict(model)
    want, seen = {}, set()
    # The first name counts for quantizers that are registered more than once
    for name, q in model.named_modules():
        if name in made and id(q) not in seen:
            seen.add(id(q))
            want.update({f"{name}.{k}": v for k, v in values_of(q).items() if v is not None})
    check({k: v.tolist() for k, v in state.items()} == want, "quantizer-state", lambda: f"{case}: {sorted(state)} instead of {sorted(want)}")
    check(all(not v.requires_grad for v in state.values()), "detached", case)

    for how in ("same", "uninitialised"):
        kinds = [{"init": "uninit"}.get(k, k) if how == "uninitialised" else k for k in case["kinds"]]
        dst, dst_made = partial_model(kinds, 3)
        others = {k: v.clone() for k, v in dst.named_parameters() if k in ("a.weight", "a.bias", "sub.scale")}
        others["offset"] = dst.offset.clone()
        report = dst.load_state_dict(copy.deepcopy(state), strict=False)
        check(not report.unexpected_keys, "unexpected", lambda: f"{case} {how}: {report.unexpected_keys}")
        for slot, q in made.items():
            check(values_of(dst_made[slot]) == values_of(q), "restored", lambda: f"{case} {how} {slot}: {values_of(dst_made[slot])} instead of {values_of(q)}")
        for k, v in others.items():
            check(torch.equal(dict(itertools.chain(dst.named_parameters(), dst.named_buffers()))[k], v), "other-parameters", f"{case} {how}: {k}")
    return Stats(states=3, transitions=3, outcome=sorted(want))


def gen_partial(tier):
    for kinds in itertools.product(Q_KINDS, repeat=len(Q_SLOTS)):
        yield {"kinds": list(kinds)}


def run_summary(case):
    """Every quantizer is listed exactly once, below its own representation, with its count."""
    from fastforward.nn.quantized_module import summarize_quantizers

    model = torch.nn.Module()
    model.blocks = torch.nn.ModuleList()
    made = {}
    shared = ff.nn.LinearQuantizer(7)
    for i, kinds in enumerate(case["blocks"]):
        block = torch.nn.Module()
        model.blocks.append(block)
        for name, kind in zip(("x", "y"), kinds):
            if kind == "shared" and any(q is shared for q in made.values()):
                setattr(block, name, shared)
                continue
            q = {
                "stub": lambda: ff.nn.QuantizerStub("a"),
                "4": lambda: ff.nn.LinearQuantizer(4),
                "8": lambda: ff.nn.LinearQuantizer(8, granularity=CH0),
                "shared": lambda: shared,
                "dyn": lambda: ff.nn.DynamicLinearQuantizer(4),
            }[kind]()
            setattr(block, name, q)
            if kind != "stub":
                made[f"blocks.{i}.{name}"] = q
    written = io.StringIO()
    summaries = summarize_quantizers(model, writer=written)
    locations = [loc for s in summaries.summaries for loc in s.locations]
    check(sorted(locations) == sorted(made), "locations", lambda: f"{case}: {locations}")
    for s in summaries.summaries:
        check(s.count == len(s.locations), "count", case)
        check({repr(made[loc]) for loc in s.locations} == {s.quantizer_repr}, "representation", case)
    check(len({s.quantizer_repr for s in summaries.summaries}) == len(summaries.summaries), "grouped", case)
    text = written.getvalue()
    check(str(summaries) in text and str(summarize_quantizers(model)) == str(summaries), "written", case)
    # The counts of the text cover every quantizer exactly once
    total = 0
    for s in summaries.summaries:
        lines = [line for line in str(s).splitlines() if line.startswith("  - ")]
        for line in lines:
            loc, _, n = line[4:].rpartition(" (")
            n = int(n.removesuffix("x)"))
            pattern = [None if part == "[]" else part for part in loc.split(".")]
            hits = [other for other in s.locations if len(other.split(".")) == len(pattern) and all(p is None or p == o for p, o in zip(pattern, other.split(".")))]
            check(len(hits) == n if n > 1 else loc in s.locations, "line", lambda: f"{case}: {line}")
            total += n
    check(total == len(made), "total", lambda: f"{case}: {total}")
    return Stats(states=1, transitions=len(made), outcome=[s.count for s in summaries.summaries])


def gen_summary(tier):
    pairs = list(itertools.product(("stub", "4", "8", "shared", "dyn"), repeat=2))
    for n in (0, 1, 2, 3) if tier != "quick" else (0, 1, 2):
        for blocks in itertools.product(pairs, repeat=n):
            yield {"blocks": [list(b) for b in blocks]}


FAMILIES = [
    Family("quantizers", gen_quantizer, run_quantizer, rule="all op sequences of the depth over all quantizer kinds"),
    Family("overrides", gen_overrides, run_overrides, rule="all sequences of adding/removing overrides and copying"),
    Family("nested", gen_nested, run_nested, rule="all nestings under colliding names x dropped entries x foreign entries"),
    Family("models", gen_model, run_model, rule="all op sequences over models with shared and uninitialised quantizers"),
    Family("quantizer-state", gen_partial, run_partial, rule="all kinds of quantizers at all slots: entries of exactly the initialised quantizers, loaded into differing and uninitialised copies"),
    Family("summary", gen_summary, run_summary, rule="all models of blocks with two slots"),
    Family("tensors", gen_tensor, run_tensor, rule="all op sequences over quantized tensors"),
]
