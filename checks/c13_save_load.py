"""C13: a saved quantization state reloads to an identical quantized model."""

from __future__ import annotations

import copy
import itertools
import json
import os
import pathlib
import shutil
import tempfile

import safetensors
import safetensors.torch
import torch

import logging

import fastforward as ff

from mc.harness import Family, Stats, check

PROP = "C13"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of models (quantizer kind per slot, sharing, names), load targets, policies and damaged files; every save/load runs on the real code and disk"
ASSUMPTIONS = [
    "models with up to four quantizer slots at different depths; requires_grad flags are not part of a state (as for torch state dicts)",
    "saved files are read back with the library only; the format itself is not judged",
]

logging.getLogger("fastforward").setLevel(logging.CRITICAL)

X = torch.tensor([[-3.0, 0.4, 1.25, 2.0], [0.5, 0.25, -0.75, 7.0]])


class Doubling(ff.nn.LinearQuantizer):
    """A user-defined quantizer with an own attribute and an own constructor."""

    def __init__(self, num_bits, factor=2.0, **kwargs):
        super().__init__(num_bits, **kwargs)
        self.factor = factor

    def quantize(self, data):
        return super().quantize(data * self.factor)


class Plain(ff.nn.LinearQuantizer):
    """A user-defined quantizer that inherits its constructor."""

    def quantize(self, data):
        return super().quantize(data + 1)


def ranged(q, lo, hi):
    q.quantization_range = (lo, hi)
    return q


def t(*v):
    return torch.tensor(v)


KINDS = {
    "stub": lambda: ff.nn.QuantizerStub(),
    "sym": lambda: ranged(ff.nn.LinearQuantizer(4, symmetric=True, allow_one_sided=False), -3.0, 2.0),
    "one": lambda: ranged(ff.nn.LinearQuantizer(3, granularity=ff.PerChannel(0)), t(0.0, 0.0), t(2.0, 8.0)),
    "asym16": lambda: ranged(ff.nn.LinearQuantizer(4, symmetric=False, granularity=ff.PerChannel(1), param_dtype=torch.float16), t(-1.0, 0.0, -2.0, -3.0), t(1.0, 2.0, 2.0, 0.5)),
    "block": lambda: ranged(ff.nn.LinearQuantizer(2, symmetric=False, granularity=ff.PerBlock(block_dims=(1,), block_sizes=(2,), per_channel_dims=(0,)), quantized_dtype=torch.int8), t(-1.0, 0.0, -2.0, -3.0), t(1.0, 2.0, 2.0, 0.5)),
    "tile": lambda: ranged(ff.nn.LinearQuantizer(8, symmetric=False, granularity=ff.PerTile((2, 2)), param_dtype=torch.bfloat16), t(-1.0, -7.0), t(1.0, 2.0)),
    "dyn": lambda: ff.nn.DynamicLinearQuantizer(3, granularity=ff.PerChannel(0), symmetric=True),
    "uninit": lambda: ff.nn.LinearQuantizer(5, symmetric=False, granularity=ff.PerChannel(0)),
    "custom": lambda: ranged(Doubling(4, factor=3.0, symmetric=False), -3.0, 2.0),
    "inherits": lambda: ranged(Plain(4, symmetric=False), -3.0, 2.0),
    "double": lambda: ranged(ff.nn.LinearQuantizer(4, symmetric=False, param_dtype=torch.float64), -3.0, 2.0),
}


def cast(q, dtype):
    return q.to(dtype)


def edit(q, **kw):
    for k, v in kw.items():
        setattr(q, k, v)
    return q


# changed after construction: the state of the object counts, not the constructor arguments
LATER = {
    "cast16": lambda: cast(KINDS["block"](), torch.float16),
    "cast64": lambda: cast(KINDS["one"](), torch.float64),
    "bits": lambda: edit(KINDS["sym"](), num_bits=2),
    "gran": lambda: edit(KINDS["one"](), granularity=ff.PerTile((1, 4))),
    "dtype": lambda: edit(KINDS["one"](), quantized_dtype=torch.int16),
    "dyn": lambda: edit(KINDS["dyn"](), symmetric=False, num_bits=2),
    "custom": lambda: edit(KINDS["custom"](), factor=0.5),
    "twosided": lambda: edit(ranged(ff.nn.LinearQuantizer(4), -3.0, 2.0), allow_one_sided=False),
    "rerange": lambda: ranged(KINDS["asym16"](), t(-1.0, 0.0, -2.0, -3.0), t(9.0, 1.0, 2.0, 3.0)),
    "train": lambda: KINDS["sym"]().eval(),
}
ALL = {**KINDS, **{"later-" + k: v for k, v in LATER.items()}}


class Inner(ff.nn.QuantizedModule):
    def __init__(self):
        super().__init__()
        self.lin = torch.nn.Linear(4, 4)

    def __init_quantization__(self):
        super().__init_quantization__()
        self.act = ff.nn.QuantizerStub(output_quantizer=True)


class Model(ff.nn.QuantizedModule):
    """Quantizer slots at the root, in a child and in a plain container."""

    def __init__(self):
        super().__init__()
        self.scale = torch.nn.Parameter(torch.tensor(2.0))
        self.child = Inner()
        self.items = torch.nn.ModuleList([torch.nn.Identity(), ff.nn.QuantizerStub()])

    def __init_quantization__(self):
        super().__init_quantization__()
        self.first = ff.nn.QuantizerStub(input_quantizer=True)
        self.last = ff.nn.QuantizerStub(output_quantizer=True)


SLOTS = ["first", "child.act", "items.1", "last"]


def put(model, name, q):
    parent, _, attr = name.rpartition(".")
    setattr(model.get_submodule(parent), attr, q)


def quantizers(model):
    return {n: m for n, m in model.named_modules(remove_duplicate=False) if isinstance(m, ff.nn.Quantizer)}


def config_of(q):
    out = {"class": type(q).__name__}
    for key in ("num_bits", "granularity", "quantized_dtype", "symmetric", "allow_one_sided", "factor", "parameter_inference_fn"):
        if hasattr(q, key):
            out[key] = str(getattr(q, key))
    return out


def lazy(p):
    return torch.nn.parameter.is_lazy(p)


def describe(model, values=True):
    """Everything observable about the quantizers of a model."""
    qs = quantizers(model)
    ids = {}
    out = {}
    for n, q in qs.items():
        params = {}
        for k, v in itertools.chain(q.named_parameters(), q.named_buffers()):
            kind = "parameter" if isinstance(v, torch.nn.Parameter) else "buffer"
            params[k] = [kind, str(v.dtype), "lazy" if lazy(v) else v.detach().tolist()]
        meta = q.quant_metadata
        out[n] = {"config": config_of(q), "params": params, "share": ids.setdefault(id(q), n),
                  "tags": sorted(map(str, meta._tags)) if meta is not None else None}
    return out


def outputs(model, x=X):
    out = {}
    for n, q in quantizers(model).items():
        try:
            r = q(x)
        except Exception as e:  # noqa: BLE001
            out[n] = type(e).__name__
            continue
        if isinstance(r, ff.quantized_tensor.QuantizedTensor):
            out[n] = [str(r.raw_data.dtype), r.raw_data.tolist(), str(r.dequantize().dtype), r.dequantize().tolist()]
        else:
            out[n] = [str(r.dtype), r.tolist()]
    return out


def same(a, b, key, where):
    check(a.keys() == b.keys(), key, lambda: f"{where}: slots {sorted(a)} vs {sorted(b)}")
    for n in a:
        check(a[n] == b[n], key, lambda: f"{where}: {n}: {a[n]} vs {b[n]}")


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="mc-c13-")
        self.cwd = os.getcwd()
        return pathlib.Path(self.path)

    def __exit__(self, *exc):
        os.chdir(self.cwd)
        shutil.rmtree(self.path)


def save(model, how, folder, name="m", **kw):
    if how == "state":
        return ff.quantization.save_quantization_state(model, name_or_path=name, cache_dir=folder, **kw)
    return ff.quantization.save_quantized_model(model, folder / "artifact", name_or_path=name, **kw)


def load(model, how, folder, name="m", **kw):
    if how == "state":
        return ff.quantization.load_quantization_state(model, name_or_path=name, cache_dir=folder, **kw)
    return ff.quantization.load_quantized_model(model, folder / "artifact", expected_name=name, **kw)


def floats(model):
    qs = tuple(n + "." for n in quantizers(model))
    return {k: (str(v.dtype), v.tolist()) for k, v in model.state_dict(keep_vars=True).items() if not k.startswith(qs) and not lazy(v)}


def strip(desc, metadata=False):
    return {n: {k: v for k, v in d.items() if metadata or k != "tags"} for n, d in desc.items()}


def check_roundtrip(source, target, how, where, tags=True):
    """`source` is saved and loaded into `target`; what must hold in between and afterwards."""
    fresh_tags = {n: d["tags"] for n, d in describe(target).items()}
    before, out, weights = describe(source), outputs(source), floats(source)
    ids = {n: id(q) for n, q in quantizers(source).items()}
    training = {n: m.training for n, m in source.named_modules()}
    target_float = floats(target)
    with Scratch() as folder:
        has_lazy = any(p[2] == "lazy" for d in before.values() for p in d["params"].values())
        if has_lazy:
            try:
                save(source, how, folder)
                refused = False
            except ValueError:
                refused = True
            check(refused, "lazy-saved", where)
        save(source, how, folder, allow_lazy_params=has_lazy)
        same(before, describe(source), "saving-changed-model", where)
        check(ids == {n: id(q) for n, q in quantizers(source).items()}, "saving-changed-model", where)
        check(training == {n: m.training for n, m in source.named_modules()}, "saving-changed-model", where)
        check(weights == floats(source), "saving-changed-model", where)
        if has_lazy:
            try:
                load(copy.deepcopy(target), how, folder)
                refused = False
            except ValueError:
                refused = True
            check(refused, "lazy-loaded", where)
        load(target, how, folder, allow_lazy_params=has_lazy)
    after = describe(target)
    same(strip(before), strip(after), "different-quantizers", where)
    same(out, outputs(target), "different-outputs", where)
    if how == "model":
        check(floats(target) == weights, "different-weights", where)
    else:
        check(floats(target) == target_float, "weights-touched", where)
    if tags:
        for n, d in after.items():
            if not isinstance(target.get_submodule(n.rpartition(".")[0]), ff.nn.QuantizedModule):
                continue  # other modules do not manage quantizers
            check(d["tags"] == fresh_tags[n], "metadata-lost", lambda: f"{where}: {n} has {d['tags']} instead of {fresh_tags[n]}")
    # the two models are independent
    for q in quantizers(target).values():
        for p in itertools.chain(q.parameters(), q.buffers()):
            if not lazy(p):
                with torch.no_grad():
                    p.mul_(3)
    same(before, describe(source), "not-independent", where)
    return out


def gen_kinds(tier):
    names = list(KINDS)
    for how in ("state", "model"):
        for a in names:
            yield {"how": how, "first": a, "depth": 3 if tier == "quick" else 4}


def run_kinds(case):
    n = 0
    seen = set()
    third = list(KINDS)
    fourth = ["stub", "block"] if case["depth"] == 4 else ["stub"]
    for rest in itertools.product(KINDS, third, fourth):
        kinds = (case["first"], *rest)
        source = Model()
        with torch.no_grad():
            source.scale.fill_(5.0)
        for slot, kind in zip(SLOTS, kinds):
            if kind != "stub":
                put(source, slot, KINDS[kind]())
        out = check_roundtrip(source, Model(), case["how"], f"{case['how']} {kinds}")
        seen.add(json.dumps(out))
        n += 1
    return Stats(states=n, transitions=3 * n, traces=n, outcome=[case, len(seen)])


def gen_later(tier):
    for how in ("state", "model"):
        for a in ALL:
            yield {"how": how, "first": a, "full": tier != "quick"}


def run_later(case):
    others = list(ALL) if case["full"] else ["later-" + k for k in LATER]
    n = 0
    for b in others:
        source = Model()
        put(source, "first", ALL[case["first"]]())
        put(source, "last", ALL[b]())
        check_roundtrip(source, Model(), case["how"], f"{case['how']} {case['first']},{b}")
        n += 1
    return Stats(states=n, transitions=3 * n, traces=n, outcome=case)


def partitions(items):
    if not items:
        yield []
        return
    head, *tail = items
    for part in partitions(tail):
        yield [[head], *part]
        for i in range(len(part)):
            yield [*part[:i], [head, *part[i]], *part[i + 1 :]]


def gen_sharing(tier):
    kinds = ["sym", "one", "tile", "dyn", "uninit", "inherits"] if tier == "quick" else [k for k in KINDS if k != "stub"]
    for how in ("state", "model"):
        for first in kinds:
            for second in kinds:
                yield {"how": how, "kinds": [first, second]}


def run_sharing(case):
    n = 0
    for part in partitions(SLOTS):
        source = Model()
        for i, group in enumerate(part):
            q = KINDS[case["kinds"][i % 2]]()
            for slot in group:
                put(source, slot, q)
        check_roundtrip(source, Model(), case["how"], f"{case} {part}", tags=False)
        n += 1
    # one module object with a quantizer reachable under two names
    def twice():
        m = Model()
        m.again = m.child
        m.items.append(m.child)
        return m

    source = twice()
    put(source, "child.act", KINDS[case["kinds"][0]]())
    put(source, "last", KINDS[case["kinds"][1]]())
    check_roundtrip(source, twice(), case["how"], f"{case} shared module", tags=False)
    return Stats(states=n + 1, transitions=3 * n, traces=n + 1, outcome=case)


NAMES = ["a", "scale", "offset", "weight", "x=1", "x,y", "x,scale=z", "x::lazy", "::", "=", ",", "a b", "\u00e9", "0", "__metadata__", "quantizers", "null", "a:b", "- a", "yes", "#c", "'q'", "{}", "%"]


def gen_names(tier):
    for how in ("state", "model"):
        for a in NAMES:
            yield {"how": how, "name": a}


def named_model(names, kinds):
    m = torch.nn.Module()
    m.box = torch.nn.Module()
    for n, k in zip(names, kinds):
        if not hasattr(m, n):
            m.add_module(n, KINDS[k]())
        if not hasattr(m.box, n):
            m.box.add_module(n, KINDS[k]())
    return m


def run_names(case):
    n = 0
    for other in NAMES:
        for kinds in (("asym16", "sym"), ("sym", "dyn"), ("block", "uninit")):
            names = [case["name"], other] if other != case["name"] else [other]
            source = named_model(names, kinds)
            target = named_model(names, ["stub"] * 2)
            check_roundtrip(source, target, case["how"], f"{case['how']} names {names} kinds {kinds}", tags=False)
            n += 1
    return Stats(states=n, transitions=3 * n, traces=n, outcome=case)


# ------------------------------------------------------------- states that do not fit

TARGET_KINDS = ["stub", "sym", "tile", "uninit", "missing", "module"]


def gen_misfit(tier):
    for how in ("state", "model"):
        for policy in ("error", "skip", "overwrite", "nonsense", None):
            for saved in itertools.product(["stub", "sym", "asym16"], repeat=2):
                yield {"how": how, "policy": policy, "saved": saved}


def slot_model(kinds):
    m = ff.nn.QuantizedModule()
    m.w = torch.nn.Parameter(torch.ones(2))
    m.part = ff.nn.QuantizedModule()
    for i, k in enumerate(kinds):
        host = m if i == 0 else m.part
        if k == "missing":
            continue
        setattr(host, f"q{i}", torch.nn.Identity() if k == "module" else KINDS[k]())
    return m


def run_misfit(case):
    n = 0
    with Scratch() as folder:
        source = slot_model(case["saved"])
        with torch.no_grad():
            source.w.fill_(7.0)
        save(source, case["how"], folder)
        want = describe(source)
        for target_kinds in itertools.product(TARGET_KINDS, repeat=2):
            target = slot_model(target_kinds)
            before = describe(target)
            kept = {name: id(q) for name, q in quantizers(target).items()}
            policy = case["policy"] or "error"
            bad = False
            expect = dict(strip(before))
            for i, (s, d) in enumerate(zip(case["saved"], target_kinds)):
                name = "q0" if i == 0 else "part.q1"
                if s == "stub":
                    continue
                if d in ("missing", "module"):
                    bad = True
                elif d == "stub" or policy == "overwrite":
                    expect[name] = strip(want)[name]
                elif policy != "skip":
                    bad = True
            kw = {} if case["policy"] is None else {"overwrite_policy": case["policy"]}
            where = f"{case} into {target_kinds}"
            try:
                load(target, case["how"], folder, **kw)
                raised = None
            except Exception as e:  # noqa: BLE001
                raised = e
            check((raised is not None) == bad, "not-reported" if bad else "refused", lambda: f"{where}: {raised!r}")
            if not bad:
                after = describe(target)
                same(expect, strip(after), "wrong-quantizers", where)
                for i, (s, d) in enumerate(zip(case["saved"], target_kinds)):
                    name = "q0" if i == 0 else "part.q1"
                    if d not in ("missing", "module") and (s == "stub" or (policy == "skip" and d != "stub")):
                        check(id(quantizers(target)[name]) == kept[name], "kept-quantizer-replaced", where)
                check(float(target.w[0].detach()) == (7.0 if case["how"] == "model" else 1.0), "weights", where)
            n += 1
        # another model's identifier
        try:
            load(slot_model(("stub", "stub")), case["how"], folder, name="other")
            raised = False
        except (RuntimeError, FileNotFoundError):
            raised = True
        check(raised, "foreign-identifier", str(case))
    return Stats(states=n, transitions=n, traces=n, outcome=case)


def gen_damage(tier):
    for how in ("state", "model"):
        for kinds in itertools.product(["sym", "one", "asym16", "block"], repeat=2):
            yield {"how": how, "kinds": kinds}


def run_damage(case):
    """Remove every single piece of the files in turn: it is always reported."""
    n = 0
    source = slot_model(case["kinds"])
    with Scratch() as folder:
        save(source, case["how"], folder)
        files = sorted(p for p in folder.rglob("*") if p.is_file())
        contents = {p: p.read_bytes() for p in files}

        def attempt(where):
            nonlocal n
            n += 1
            try:
                load(slot_model(("stub", "stub")), case["how"], folder)
            except Exception:  # noqa: BLE001
                return
            finally:
                for p, c in contents.items():
                    p.write_bytes(c)
            check(False, "damage-not-reported", where)

        for p in files:
            p.unlink()
            attempt(f"{case}: {p.name} missing")
            if p.suffix == ".safetensors":
                for cut in (0, 4, 8, len(contents[p]) // 2, len(contents[p]) - 1):
                    p.write_bytes(contents[p][:cut])
                    attempt(f"{case}: {p.name} cut to {cut}")
                with safetensors.safe_open(p, "pt") as f:
                    meta = f.metadata()
                    tensors = {k: f.get_tensor(k) for k in f.keys()}
                for key in tensors:
                    safetensors.torch.save_file({k: v for k, v in tensors.items() if k != key}, p, metadata=meta)
                    attempt(f"{case}: {p.name} without tensor {key}")
                    wrong = {**tensors, key: torch.cat([tensors[key].reshape(-1)] * 2 + [torch.ones(1, dtype=tensors[key].dtype)])}
                    if p.name == "weights.safetensors":
                        safetensors.torch.save_file(wrong, p, metadata=meta)
                        attempt(f"{case}: {p.name} with another shape of {key}")
    return Stats(states=n, transitions=n, traces=n, outcome=case)


# ------------------------------------------------------------- identifiers and locations

IDS = ["m", "org/m", "a b", "a:b", "here", "here/sub", "./x", "file.txt", "..", "~", "\u00e9"]
TAGS = ["main", "v1", "v1.0", "a_b"]


def gen_ids(tier):
    for a in IDS:
        for via in ("argument", "config"):
            yield {"id": a, "via": via, "tier": tier}


def clean(ident):
    for c in " /\\:<>|":
        ident = ident.replace(c, "--")
    return ident


class Config:
    def __init__(self, name):
        self.name_or_path = name
        self.transformers_version = "1"


def run_ids(case):
    """Two saves under every pair of identifier and tag: each loads as itself."""
    n = 0
    for other in IDS:
        for tag, tag2 in itertools.product(TAGS, repeat=2) if case["tier"] == "thorough" else [("main", "main"), ("main", "v1"), ("v1", "v1.0")]:
            if (case["id"], tag) == (other, tag2):
                continue
            with Scratch() as folder:
                os.chdir(folder)
                (folder / "here" / "sub").mkdir(parents=True)
                (folder / "file.txt").write_text("x")
                cache = folder / "cache"
                stored = []
                for ident, tg, kind in ((case["id"], tag, "sym"), (other, tag2, "tile")):
                    m = slot_model((kind, kind))
                    kw = {"tag": tg, "cache_dir": cache}
                    if case["via"] == "config":
                        m.config = Config(ident)
                    else:
                        kw["name_or_path"] = ident
                    ff.quantization.save_quantization_state(m, **kw)
                    stored.append((ident, kw, strip(describe(m))))
                for ident, kw, want in stored:
                    target = slot_model(("stub", "stub"))
                    if case["via"] == "config":
                        target.config = Config(ident)
                    if ident == "file.txt" and case["via"] == "argument":
                        continue  # an existing file is taken to be a config file, as documented
                    try:
                        ff.quantization.load_quantization_state(target, **kw)
                    except RuntimeError:
                        # identifiers that map to the same folder may replace each other, which is reported
                        check(ident == case["id"] and clean(ident) == clean(other) and ident != other and tag == tag2, "refused", f"{case} {other} {tag},{tag2}: {ident}")
                        continue
                    same(want, strip(describe(target)), "wrong-state", f"{case} {other} {tag},{tag2}: {ident}")
                    n += 1
                check(sorted(p.name for p in folder.iterdir()) == ["cache", "file.txt", "here"], "written-elsewhere", str(sorted(folder.iterdir())))
    return Stats(states=n, transitions=2 * n, traces=n, outcome=case)


# ------------------------------------------------------------- weights of an artifact


def make_weights(kind):
    m = ff.nn.QuantizedModule()
    m.a = torch.nn.Linear(2, 2, bias=False)
    m.b = torch.nn.Linear(2, 2, bias=False)
    m.conv = torch.nn.Conv2d(2, 2, 2, bias=False)
    m.q = ff.nn.QuantizerStub()
    if kind == "tied":
        m.b.weight = m.a.weight
    elif kind == "tied3":
        m.b.weight = m.a.weight
        m.register_parameter("c", m.a.weight)
    elif kind == "strided":
        m.a.weight = torch.nn.Parameter(torch.zeros(2, 2).t())
        m.b.weight = torch.nn.Parameter(torch.zeros(2, 4)[:, ::2])
    elif kind == "channels_last":
        m = m.to(memory_format=torch.channels_last)
    elif kind == "shared-storage":
        flat = torch.zeros(8)
        m.a.weight = torch.nn.Parameter(flat[:4].view(2, 2))
        m.b.weight = torch.nn.Parameter(flat[4:].view(2, 2))
    elif kind == "overlap":
        flat = torch.zeros(6)
        m.register_buffer("x", flat[:4])
        m.register_buffer("y", flat[2:])
    elif kind == "view":
        m.b.weight = torch.nn.Parameter(m.a.weight.detach().view(2, 2).t())
    elif kind == "reinterpreted":
        m.register_buffer("x", torch.zeros(2))
        m.register_buffer("y", m.x.view(torch.int32))
    elif kind == "mixed":
        m.a.half()
        m.b.double()
        m.register_buffer("x", torch.zeros(2, dtype=torch.int64))
        m.register_buffer("y", torch.zeros(0))
        m.register_buffer("z", torch.zeros(0, dtype=torch.int8))
        m.register_buffer("s", torch.tensor(False))
        m.register_buffer("gone", torch.zeros(2), persistent=False)
    elif kind == "quantizer-like":
        m.register_buffer("q_scale", torch.zeros(2))
        m.qq = torch.nn.Linear(2, 2)
    elif kind == "expanded":
        m.register_buffer("x", torch.zeros(1).expand(3))
    return m


WEIGHTS = ["plain", "tied", "tied3", "strided", "channels_last", "shared-storage", "overlap", "view", "reinterpreted", "mixed", "quantizer-like", "expanded"]


def gen_weights(tier):
    for kind in WEIGHTS:
        for q in ("stub", "sym", "block"):
            yield {"kind": kind, "q": q}


def run_weights(case):
    torch.manual_seed(1)
    source, target = make_weights(case["kind"]), make_weights(case["kind"])
    if case["kind"] == "expanded":
        target.x = target.x.clone()
    with torch.no_grad():
        for i, v in enumerate(source.state_dict().values()):
            if 0 in v.stride() and v.numel() > 1:
                v = v[:1]
            v.copy_(torch.arange(v.numel()).reshape(v.shape) + 10 * i)
    if case["q"] != "stub":
        source.q = KINDS[case["q"]]()
    want = floats(source)
    refused = False
    with Scratch() as folder:
        try:
            save(source, "model", folder)
        except RuntimeError:
            refused = True
        if not refused:
            load(target, "model", folder)
    # tensors that overlap only partly cannot be stored and may be refused, never altered
    check(not refused or case["kind"] in ("overlap", "view", "reinterpreted", "expanded"), "refused", str(case))
    check(floats(source) == want, "saving-changed-model", str(case))
    if not refused:
        got = floats(target)
        check(got == want, "different-weights", lambda: f"{case}: {want} vs {got}")
        check((target.a.weight is target.b.weight) == case["kind"].startswith("tied"), "tying-lost", str(case))
    return Stats(states=1, transitions=2, outcome=[case, refused])


FAMILIES = [
    Family("kinds", gen_kinds, run_kinds, "quantizer kind in every slot x saved form", timeout=900),
    Family("changed-later", gen_later, run_later, "quantizers modified after construction, in pairs", timeout=600),
    Family("sharing", gen_sharing, run_sharing, "all partitions of four slots into shared quantizers; shared parents", timeout=600),
    Family("names", gen_names, run_names, "pairs of module names with special characters x kinds", timeout=600),
    Family("misfit", gen_misfit, run_misfit, "saved kinds x target kinds (stub, active, missing, not a quantizer) x policy", timeout=600),
    Family("damage", gen_damage, run_damage, "every file, cut, and tensor removed in turn", timeout=600),
    Family("identifiers", gen_ids, run_ids, "pairs of identifiers and tags in one cache", timeout=600),
    Family("weights", gen_weights, run_weights, "tied, strided, overlapping and mixed weights in an artifact", timeout=600),
]
