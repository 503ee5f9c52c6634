"""C25: exported encodings and ONNX graphs mean what the quantized model computes."""

from __future__ import annotations

import copy
import itertools
import json
import logging
import math
import pathlib
import pickle
import shutil
import tempfile
import warnings

import torch

import fastforward as ff

from fastforward.exceptions import ExportError
from fastforward.export import export
from fastforward.export._export_schemas import LegacySchemaHandler, V1SchemaHandler, V2SchemaHandler
from fastforward.export._lpbq import LPBQProcessor
from fastforward.export.module_export import export_modules
from fastforward.export.pipeline import ExportRequest, QnnOnnxOptions, export_with_pipeline

from mc import refs
from mc.harness import Family, Stats, check, digest

PROP = "C25"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of quantization parameters x granularities x schemas, of handler histories, and of small models; every emitted encoding is decoded by an independent reader and compared with the real quantizer, and exported graphs are executed with their encodings and compared with the model"
ASSUMPTIONS = [
    "encodings are read as documented: u in [0, 2^bw), x = (u + offset) * scale, where offset includes the shift of -2^(bw-1); the block axis of a per-block encoding of schema 1.0.0 (which does not state it) is that of the quantizer",
    "encodings of values that only move the elements of an encoded value (Transpose, Reshape, ...) are not read: the optimize option of the ONNX exporter, which permanently transposes weights, is documented to misalign them",
    "exported graphs are executed by onnxruntime (QDQ) or node by node by the ONNX reference evaluator (encodings); results may differ by one quantization step where a value is within 1e-3 of a tie",
    "all tensors fit in memory and have at most 64 elements",
]

logging.getLogger("fastforward").setLevel(logging.ERROR)

# ------------------------------------------------------------------ encodings

HANDLERS = {
    "legacy": LegacySchemaHandler,
    "v1": V1SchemaHandler,
    "v2": V2SchemaHandler,
}
LAYOUTS = [  # data shape, tile size
    ((3,), (3,)), ((3,), (1,)), ((4,), (2,)),
    ((2, 3), (2, 3)), ((2, 3), (1, 3)), ((2, 3), (2, 1)), ((2, 3), (1, 1)),
    ((1, 3), (1, 3)), ((1, 3), (1, 1)), ((3, 1), (1, 1)), ((1, 1), (1, 1)),
    ((4, 4), (1, 2)), ((4, 4), (2, 1)), ((4, 4), (2, 4)), ((4, 4), (4, 2)), ((4, 4), (2, 2)),
    ((2, 6), (1, 2)), ((2, 6), (1, 3)), ((6, 2), (3, 1)), ((6, 2), (2, 1)),
    ((2, 3, 2), (2, 3, 2)), ((2, 3, 2), (1, 3, 2)), ((2, 3, 2), (2, 1, 2)), ((2, 4, 2), (1, 2, 2)),
    ((2, 4, 2), (1, 2, 1)), ((4, 2, 2), (2, 1, 2)), ((4, 2, 2), (2, 2, 2)), ((2, 2, 4), (1, 1, 2)),
    ((2, 2, 1, 1), (1, 2, 1, 1)), ((2, 2, 1, 1), (2, 2, 1, 1)),
]  # fmt: skip
OFFSETS = ["absent", "none", "float0", "int", "scalar", "one", "zeros", "negzero", "first", "last", "all", "frac", "ints"]
SCALES = ["float", "scalar", "one", "vec", "odd"]


def granularity_kind(shape, tile):
    """The documented classes of tilings: tensor, channel0, other channel, or block dims."""
    chan = [i for i in range(len(shape)) if tile[i] == 1 and shape[i] > 1]
    block = [i for i in range(len(shape)) if tile[i] not in (1, shape[i])]
    if block:
        return ("block", tuple(block), tuple(chan))
    if chan:
        return ("channel", tuple(chan))
    return ("tensor",)


def supported(handler, kind):
    if kind[0] == "tensor":
        return True
    if kind[0] == "channel":
        return kind[1] == (0,)
    if handler == "legacy":
        return False
    if handler == "v1":
        return (kind[1], kind[2]) in (((1,), (0,)), ((0,), (1,)))
    return len(kind[1]) == 1


def gen_encodings(tier):
    bits = [2, 4, 8, 3.5] if tier == "quick" else [1, 2, 3, 4, 7, 8, 16, 24, 3.5, 8.0]
    dtypes = ["f32"] if tier == "quick" else ["f32", "f64", "bf16"]
    for li in range(len(LAYOUTS)):
        for h in HANDLERS:
            for b in bits:
                for dt in dtypes:
                    yield {"layout": li, "handler": h, "bits": b, "dtype": dt}


DTYPES = {"f32": torch.float32, "f64": torch.float64, "bf16": torch.bfloat16}


def make_params(ntiles, scale_kind, offset_kind, bits, dtype):
    """The `scale` and `offset` entries and their values per tile."""
    half = 2.0 ** (math.ceil(bits) - 1)
    vec = [0.5 * (t + 1) for t in range(ntiles)]
    if scale_kind == "odd":
        vec = [0.1 + t / 3 for t in range(ntiles)]
    if scale_kind in ("float", "scalar", "one"):
        vec = [0.75] * ntiles
    tens = torch.tensor(vec, dtype=dtype)
    scale = {"float": 0.75, "scalar": torch.tensor(0.75, dtype=dtype), "one": torch.tensor([0.75], dtype=dtype)}.get(scale_kind, tens)
    scales = tens.double().tolist()
    o = half / 2
    far = [o + t - (half * (t % 2)) for t in range(ntiles)]
    table = {
        "absent": None, "none": None, "float0": 0.0, "int": 3, "scalar": torch.tensor(-o, dtype=dtype), "one": torch.tensor([2.0], dtype=dtype),
        "zeros": [0.0] * ntiles, "negzero": [-0.0] * ntiles,
        "first": [0.0] + far[1:], "last": far[:-1] + [0.0],
        "all": far, "frac": [v + 0.25 for v in far], "ints": [int(v) for v in far],
    }  # fmt: skip
    offset = table[offset_kind]
    if isinstance(offset, list):
        offset = torch.tensor(offset, dtype=torch.int32 if offset_kind == "ints" else dtype)
    if offset is None:
        offsets = [0.0] * ntiles
    elif isinstance(offset, torch.Tensor):
        offsets = torch.round(offset.double()).reshape(-1).expand(ntiles).tolist()
    else:
        offsets = [float(offset)] * ntiles
    return scale, offset, scales, offsets


def shifts(zero_points):
    return [float(z) for z in zero_points]


def broadcast(values, shape, axis=None):
    """Per-element values (row-major) of a list of 1 or shape[axis] values."""
    if len(values) == 1:
        return [values[0]] * math.prod(shape)
    check(axis is not None and len(values) == shape[axis], "wrong-count", lambda: f"{len(values)} values along axis {axis} of {shape}")
    return [values[idx[axis]] for idx in refs.indices(shape)]


def nested(value, shape, axis, block):
    """Per-element values of a nested list of rank len(shape), blocked along `axis`."""
    t = torch.tensor(value, dtype=torch.float64)
    check(t.dim() == len(shape), "wrong-rank", lambda: f"{tuple(t.shape)} for {shape}")
    t = t.repeat_interleave(block, dim=axis)
    check(all(a in (1, b) for a, b in zip(t.shape, shape)), "wrong-shape", lambda: f"{tuple(t.shape)} for {shape}")
    return t.expand(tuple(shape)).reshape(-1).tolist()


def decode(handler, entry, shape, tile):
    """(bits, symmetric, scale per element, offset per element) of an encoding entry."""
    if handler == "legacy":
        bits = {e["bitwidth"] for e in entry}
        check(len(bits) == 1 and all(e["dtype"] == "int" for e in entry), "legacy-fields", str(entry))
        sym = {e["is_symmetric"] for e in entry}
        check(len(sym) == 1 and sym <= {"True", "False"}, "legacy-symmetric", str(sym))
        for e in entry:
            lo, hi = e["offset"] * e["scale"], (e["offset"] + 2 ** e["bitwidth"] - 1) * e["scale"]
            tol = 2e-2 * (abs(lo) + abs(hi)) + 1e-9
            check(abs(lo - e["min"]) <= tol and abs(hi - e["max"]) <= tol, "legacy-range", lambda: f"{e} covers [{lo}, {hi}]")
        return (bits.pop(), sym == {"True"}, broadcast([e["scale"] for e in entry], shape, 0), broadcast([e["offset"] for e in entry], shape, 0))
    if handler == "v1":
        check(entry["dtype"] == "INT" and isinstance(entry["is_sym"], bool), "v1-fields", str(entry))
        b, s, o = entry["bw"], entry["scale"], entry["offset"]
        check(len(s) == len(o), "v1-lengths", f"{len(s)} scales, {len(o)} offsets")
        if entry["enc_type"] == "PER_TENSOR":
            check(len(s) == 1, "v1-per-tensor", str(s))
            return b, entry["is_sym"], broadcast(s, shape), broadcast(o, shape)
        if entry["enc_type"] == "PER_CHANNEL":
            return b, entry["is_sym"], broadcast(s, shape, 0), broadcast(o, shape, 0)
        axis = granularity_kind(shape, tile)[1][0]
        check(entry["block_size"] == tile[axis], "v1-block-size", lambda: f"{entry['block_size']} for {tile}")
        if entry["enc_type"] == "LPBQ":
            ch = 1 - axis
            n = shape[axis] // tile[axis]
            check(len(entry["per_block_int_scale"]) == n * shape[ch] and len(s) == shape[ch], "lpbq-count", str(entry))
            grid = torch.tensor(entry["per_block_int_scale"], dtype=torch.float64).reshape((shape[0], n) if axis == 1 else (n, shape[1]))
            cs = torch.tensor(s, dtype=torch.float64)
            eff = (grid * (cs[:, None] if axis == 1 else cs[None, :])).reshape(-1).tolist()
            return b, entry["is_sym"], eff, o
        check(entry["enc_type"] == "PER_BLOCK", "v1-type", str(entry))
        per = {i: v for i, v in enumerate(zip(s, o))}
        check(len(s) == refs.num_tiles(shape, tile), "v1-block-count", str(len(s)))
        el = [per[refs.tile_index(i, shape, tile)] for i in refs.indices(shape)]
        return b, entry["is_sym"], [e[0] for e in el], [e[1] for e in el]
    dt = entry["output_dtype"]
    sym = dt.startswith("int")
    b = int(dt.removeprefix("u").removeprefix("int"))
    check(("y_zero_point" in entry) == (not sym), "v2-zero-point", str(entry))
    zero = entry.get("y_zero_point")
    if "block_size" in entry:
        s = nested(entry["y_scale"], shape, entry["axis"], entry["block_size"])
        o = nested(zero, shape, entry["axis"], entry["block_size"]) if not sym else None
    elif "axis" in entry:
        s = broadcast(entry["y_scale"], shape, entry["axis"])
        o = broadcast(zero, shape, entry["axis"]) if not sym else None
    else:
        s = broadcast([entry["y_scale"]], shape)
        o = broadcast([zero], shape) if not sym else None
    if o is None:  # a signed type: no zero point
        o = [-(2.0 ** (b - 1))] * len(s)
    return b, sym, s, o


def find(handler, built, name, is_param=None):
    """Entries named `name`, from the section where they belong."""
    if handler == "legacy":
        secs = [built["param_encodings"], built["activation_encodings"]]
        got = [sec.get(name) for sec in secs]
    elif handler == "v1":
        got = []
        for key in ("param_encodings", "activation_encodings"):
            hits = [e for e in built[key] if e["name"] == name]
            check(len(hits) <= 1, "duplicate-name", name)
            got.append(hits[0] if hits else None)
    else:
        hits = [e for e in built["encodings"] if e["name"] == name]
        check(len(hits) <= 1, "duplicate-name", name)
        return hits[0] if hits else None
    if is_param is None:
        return got[0] if got[0] is not None else got[1]
    return got[0] if is_param else got[1]


def count(handler, built):
    return len(built["encodings"]) if handler == "v2" else len(built["param_encodings"]) + len(built["activation_encodings"])


def compare_grid(handler, entry, shape, tile, bits, scales, offsets, key, rtol=1e-6):
    got_bits, sym, s, o = decode(handler, entry, shape, tile)
    check(got_bits == bits, f"{key}-bits", lambda: f"{got_bits} != {bits}")
    check(sym == all(v == 0 for v in offsets), f"{key}-symmetric", lambda: f"is symmetric: {sym}, offsets {offsets}")
    for i, idx in enumerate(refs.indices(shape)):
        t = refs.tile_index(idx, shape, tile)
        check(abs(s[i] - scales[t]) <= rtol * abs(scales[t]), f"{key}-scale", lambda: f"element {idx}: scale {s[i]} != {scales[t]}")
        want = offsets[t] - 2.0 ** (bits - 1)
        check(o[i] == want, f"{key}-offset", lambda: f"element {idx}: offset {o[i]} != {want}")
    return s, o


def run_encodings(case):
    shape, tile = LAYOUTS[case["layout"]]
    bits, h, dtype = case["bits"], case["handler"], DTYPES[case["dtype"]]
    ntiles = refs.num_tiles(shape, tile)
    kind = granularity_kind(shape, tile)
    n = 0
    for sk, ok in itertools.product(SCALES, OFFSETS):
        if sk in ("float", "scalar", "one") and ntiles > 1:
            continue  # one scale per tile
        if ok == "frac" and case["dtype"] == "bf16" or bits > 8 and case["dtype"] == "bf16":
            continue
        scale, offset, scales, offsets = make_params(ntiles, sk, ok, bits, dtype)
        enc = {"scale": scale, "num_bits": bits, "data_shape": torch.Size(shape), "tile_size": torch.Size(tile)}
        if ok != "absent":
            enc["offset"] = offset
        keep = copy.deepcopy(enc)
        handler = HANDLERS[h]()
        for is_param in (True, False):
            n += 1
            key = f"{h}"
            try:
                handler.add_encoding("w", enc, is_param)
                ok_add = True
            except (ValueError, ExportError):
                ok_add = False
            want_ok = supported(h, kind) and float(bits).is_integer()
            check(ok_add == want_ok, f"{key}-accepts", lambda: f"{kind} with {bits} bits: {'accepted' if ok_add else 'refused'}")
            built = json.loads(json.dumps(handler.build_encodings_dictionary()))
            check(built["version"] == handler.version, "version", str(built.get("version")))
            if not want_ok:
                check(count(h, built) == 0, f"{key}-refused-entry", "entry after a refusal")
                continue
            entry = find(h, built, "w", is_param)
            check(entry is not None, f"{key}-missing", "")
            s, o = compare_grid(h, entry, shape, tile, int(bits), scales, offsets, key, 1e-6 if dtype != torch.float64 else 1e-12)
        check(same_dict(enc, keep), "modified-input", f"{sk}/{ok}")
        if not (supported(h, kind) and float(bits).is_integer()) or bits > 8:
            continue
        # The integer codes and values of the real quantizer.
        if dtype == torch.float32:
            lo, hi = refs.int_bounds(int(bits))
            tensor_scale = scale if isinstance(scale, torch.Tensor) else torch.tensor(scale)
            tensor_scale = tensor_scale.reshape(-1).expand(ntiles).contiguous()
            tensor_offset = torch.tensor(offsets)
            idx = list(refs.indices(shape))
            for step in (lo - 2, lo - 0.3, lo, -1, 0, 0.3, 1.7, hi, hi + 0.3, hi + 2):
                xs = []
                for i in range(len(idx)):
                    t = refs.tile_index(idx[i], shape, tile)
                    xs.append((step + (i % 3) + offsets[t]) * scales[t])
                data = torch.tensor(xs, dtype=torch.float32).reshape(shape)
                q = torch.ops.fastforward.quantize_by_tile(data, tensor_scale, list(tile), float(bits), None, tensor_offset)
                dq = torch.ops.fastforward.dequantize_by_tile(q, tensor_scale, list(tile), tensor_offset, None)
                for i, (x, qv, dv) in enumerate(zip(xs, q.reshape(-1).tolist(), dq.reshape(-1).tolist())):
                    u = min(max(refs.round_half_even(x / s[i]) - o[i], 0), 2 ** int(bits) - 1)
                    check(abs(u + lo - qv) < 1e-6, "code", lambda: f"{x}: encoding gives {u}, quantizer {qv - lo}")
                    val = (u + o[i]) * s[i]
                    check(abs(val - dv) <= 1e-5 * (1 + abs(dv)), "value", lambda: f"{x}: encoding gives {val}, quantizer {dv}")
                n += 1
    return Stats(states=n, transitions=n, traces=1, outcome=digest(case))


def same_dict(a, b):
    if a.keys() != b.keys():
        return False
    return all(torch.equal(a[k], b[k]) if isinstance(a[k], torch.Tensor) else a[k] == b[k] for k in a)


# ------------------------------------------------------------------ histories

ADDS = {
    "t8": {"scale": torch.tensor([0.5]), "offset": None, "num_bits": 8, "data_shape": (2, 3), "tile_size": (2, 3)},
    "t4a": {"scale": torch.tensor([0.25]), "offset": torch.tensor([3.0]), "num_bits": 4, "data_shape": (2, 3), "tile_size": (2, 3)},
    "c4": {"scale": torch.tensor([0.25, 1.5]), "offset": torch.tensor([0.0, -1.0]), "num_bits": 4, "data_shape": (2, 3), "tile_size": (1, 3)},
    "bad": {"scale": torch.arange(1.0, 7.0), "offset": None, "num_bits": 4, "data_shape": (2, 3), "tile_size": (1, 1)},
}


def gen_histories(tier):
    ops = [["add", nm, e, p] for nm in ("a", "b") for e in ADDS for p in (True, False)] + [["clear"], ["build"]]
    for h in HANDLERS:
        for first in ops:
            yield {"handler": h, "first": first, "depth": 3 if tier == "quick" else 4}


def run_histories(case):
    ops = [["add", nm, e, p] for nm in ("a", "b") for e in ADDS for p in (True, False)] + [["clear"], ["build"]]
    h = case["handler"]
    states, steps, traces = 0, 0, 0
    for tail in itertools.product(ops, repeat=case["depth"] - 1):
        handler = HANDLERS[h]()
        model = {}
        earlier = []
        for op in [case["first"], *tail]:
            steps += 1
            if op[0] == "clear":
                handler.clear()
                model = {}
            elif op[0] == "build":
                d = handler.build_encodings_dictionary()
                earlier.append((d, json.dumps(d, sort_keys=True)))
            else:
                _, nm, e, p = op
                slot = (nm, None if h == "v2" else p)
                try:
                    handler.add_encoding(nm, ADDS[e], p)
                    refused = False
                except ValueError:
                    refused = True
                check(refused == (e == "bad"), "history-refusal", lambda: f"{op}")
                if not refused:
                    model.setdefault(slot, e)
        built = handler.build_encodings_dictionary()
        check(count(h, built) == len(model), "history-count", lambda: f"{[case['first'], *tail]}: {built} for {model}")
        for (nm, p), e in model.items():
            entry = find(h, built, nm, p)
            check(entry is not None, "history-missing", lambda: f"{nm} after {[case['first'], *tail]}")
            enc = ADDS[e]
            offs = [0.0] * enc["scale"].numel() if enc["offset"] is None else enc["offset"].tolist()
            compare_grid(h, entry, enc["data_shape"], enc["tile_size"], enc["num_bits"], enc["scale"].tolist(), offs, "history")
        for d, text in earlier:
            check(json.dumps(d, sort_keys=True) == text, "history-earlier", lambda: f"an earlier dictionary changed after {[case['first'], *tail]}")
        states += 1
        traces += 1
    return Stats(states=states, transitions=steps, traces=traces, outcome=digest(case))


# ------------------------------------------------------------------ LPBQ


def gen_lpbq(tier):
    bws = [(4, 8), (2, 4)] if tier == "quick" else [(c, d) for c in range(1, 9) for d in range(2, 33) if c < d and d in (c + 1, 8, 16, 32)]
    for cb, db in bws:
        for shape, axis, block in (((2, 4), 1, 2), ((3, 4), 1, 2), ((4, 3), 0, 2), ((4, 2), 0, 2), ((2, 6), 1, 2), ((6, 2), 0, 2), ((4, 4), 0, 2), ((4, 4), 1, 2), ((2, 4, 2), 1, 2)):  # fmt: skip
            yield {"cb": cb, "db": db, "shape": list(shape), "axis": axis, "block": block, "wide": tier != "quick"}


def run_lpbq(case):
    cb, db, shape, axis, block = case["cb"], case["db"], tuple(case["shape"]), case["axis"], case["block"]
    tile = [1 if i == 1 - axis else s for i, s in enumerate(shape)]
    tile[axis] = block
    nb, ch = shape[axis] // block, shape[1 - axis]
    values = [0.5, 0.01, 1.0, 0.37] if case["wide"] else [0.5, 0.01, 1.0]
    n = 0
    for combo in itertools.product(values, repeat=min(nb * 2, 4)):
        # The first two channels get every combination of block scales.
        per = {}
        for c in range(ch):
            for b in range(nb):
                per[c, b] = combo[((c % 2) * nb + b) % len(combo)]
        flat = [per[c, b] for c in range(ch) for b in range(nb)] if axis == 1 else [per[c, b] for b in range(nb) for c in range(ch)]
        for off in ("none", "zero", "one"):
            for bits in (cb, cb + 1):
                scale = torch.tensor(flat)
                enc = {"scale": scale, "num_bits": bits, "data_shape": shape, "tile_size": tuple(tile)}
                if off != "none":
                    enc["offset"] = torch.zeros(len(flat))
                    if off == "one":
                        enc["offset"][-1] = 1.0
                handler = V1SchemaHandler(lpbq_processor=LPBQProcessor(cb, db))
                n += 1
                try:
                    handler.add_encoding("w", enc, True)
                    accepted = True
                except ValueError:
                    accepted = False
                want = off != "one" and bits == cb
                check(accepted == want, "lpbq-accepts", lambda: f"offset {off}, {bits} bits: {accepted}")
                built = json.loads(json.dumps(handler.build_encodings_dictionary()))
                if not want:
                    check(count("v1", built) == 0, "lpbq-refused-entry", "")
                    continue
                entry = find("v1", built, "w", True)
                check(entry["bw"] == db and entry["compressed_bw"] == cb and entry["is_sym"] is True, "lpbq-fields", str(entry))
                _, _, eff, offs = decode("v1", entry, shape, tuple(tile))
                check(offs == [-(2.0 ** (db - 1))] * ch, "lpbq-offset", str(offs))
                ints = entry["per_block_int_scale"]
                check(all(isinstance(i, int) and 1 <= i <= 2**cb for i in ints), "lpbq-int-scale", str(ints))
                for c in range(ch):
                    top = max(per[c, b] for b in range(nb))
                    step = top / 2**cb
                    for b in range(nb):
                        k = c * nb + b if axis == 1 else b * ch + c
                        lim = max(step / 2, step - per[c, b]) * (1 + 1e-4)
                        check(abs(eff[k] - per[c, b]) <= lim + 1e-7, "lpbq-scale", lambda: f"channel {c} block {b}: {eff[k]} for {per[c, b]} (step {step})")
                        if per[c, b] == top:
                            check(abs(eff[k] - top) <= 1e-5 * top, "lpbq-largest", lambda: f"{eff[k]} != {top}")
    return Stats(states=n, transitions=n, traces=n, outcome=digest(case))


# ------------------------------------------------------------------ models


def ranged(q, lo, hi):
    q.quantization_range = (lo, hi)
    return q


T = torch.tensor
KINDS = {
    "stub": lambda: ff.nn.QuantizerStub(),
    "a8": lambda: ranged(ff.nn.LinearQuantizer(8, symmetric=False), -1.03, 2.11),
    "a4": lambda: ranged(ff.nn.LinearQuantizer(4, symmetric=False), -0.77, 1.13),
    "a16": lambda: ranged(ff.nn.LinearQuantizer(16, symmetric=False), -1.7, 2.3),
    "s8": lambda: ranged(ff.nn.LinearQuantizer(8, symmetric=True, allow_one_sided=False), -1.21, 1.21),
    "s4": lambda: ranged(ff.nn.LinearQuantizer(4, symmetric=True, allow_one_sided=False), -0.91, 0.91),
    "one": lambda: ranged(ff.nn.LinearQuantizer(8, symmetric=True), 0.0, 1.37),
    "far": lambda: ranged(ff.nn.LinearQuantizer(8, symmetric=False), 0.41, 0.93),
    "c4": lambda: ranged(ff.nn.LinearQuantizer(4, symmetric=False, granularity=ff.PerChannel(0)), -T([1.03, 2.0, 0.57]), T([1.0, 1.53, 1.1])),
    "cs4": lambda: ranged(ff.nn.LinearQuantizer(4, symmetric=True, allow_one_sided=False, granularity=ff.PerChannel(0)), -T([1.03, 2.0, 0.57]), T([1.03, 2.0, 0.57])),
    "c1": lambda: ranged(ff.nn.LinearQuantizer(8, symmetric=False, granularity=ff.PerChannel(1)), -T([1.03, 2.0, 0.57]), T([1.0, 1.53, 1.1])),
    "b4": lambda: ranged(ff.nn.LinearQuantizer(4, symmetric=True, allow_one_sided=False, granularity=ff.PerBlock(1, 2, 0)), -torch.arange(6.0) / 7 - 0.21, torch.arange(6.0) / 7 + 0.21),
    "b4a": lambda: ranged(ff.nn.LinearQuantizer(4, symmetric=False, granularity=ff.PerBlock(1, 2, 0)), -torch.arange(6.0) / 7 - 0.21, torch.arange(6.0) / 9 + 0.33),
    "b22": lambda: ranged(ff.nn.LinearQuantizer(4, symmetric=False, granularity=ff.PerBlock((0, 1), (2, 2))), -torch.arange(4.0) - 1.1, torch.arange(4.0) + 1.3),
    "c01": lambda: ranged(ff.nn.LinearQuantizer(4, symmetric=False, granularity=ff.PerChannel((0, 1))), -torch.arange(9.0) / 5 - 0.21, torch.arange(9.0) / 5 + 0.31),
    "a3": lambda: ranged(ff.nn.LinearQuantizer(3, symmetric=False), -0.77, 1.13),
    "a7.5": lambda: ranged(ff.nn.LinearQuantizer(7.5, symmetric=False), -1.0, 1.13),
    "off": lambda: ranged(ff.nn.LinearQuantizer(4, symmetric=False), -0.77, 1.13),
}  # fmt: skip


def fill(p, seed=0):
    with torch.no_grad():
        v = torch.tensor([((i * 7 + seed * 5 + 3) % 25 - 12) / 9.7 + 0.0131 * ((i * 3 + seed) % 7) for i in range(p.numel())])
        p.copy_(v.reshape(p.shape).to(p.dtype))
    return p


class Linear(ff.nn.QuantizedModule):
    def __init__(self):
        super().__init__()
        self.lin = ff.nn.QuantizedLinear(4, 3)
        self.lin.__init_quantization__()

    slots = ("lin.input_quantizer", "lin.weight_quantizer", "lin.output_quantizer")
    inputs = ((2, 4),)

    def forward(self, x):
        return self.lin(x)


class Conv(ff.nn.QuantizedModule):
    def __init__(self):
        super().__init__()
        self.conv = ff.nn.QuantizedConv1d(2, 3, 2, bias=False)
        self.act = ff.nn.QuantizedRelu()
        self.conv.__init_quantization__()
        self.act.__init_quantization__()

    slots = ("conv.input_quantizer", "conv.weight_quantizer", "conv.output_quantizer", "act.output_quantizer")
    inputs = ((1, 2, 4),)

    def forward(self, x):
        return self.act(self.conv(x))


class Two(ff.nn.QuantizedModule):
    """Two inputs, two outputs, a parameter of its own and an intermediate quantizer."""

    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(3, 2))

    def __init_quantization__(self):
        super().__init_quantization__()
        for name in ("qx", "qw", "qm", "qo"):
            self.register_quantizer(name, ff.nn.QuantizerStub())

    slots = ("qx", "qw", "qm", "qo")
    inputs = ((3, 2), (3, 2))

    def forward(self, x, y):
        m = self.qm(self.qx(x) * self.qw(self.w))
        return self.qo(m + y), m * 2.0


class Chain(ff.nn.QuantizedModule):
    """Two layers after each other."""

    def __init__(self):
        super().__init__()
        self.a = ff.nn.QuantizedLinear(3, 3)
        self.b = ff.nn.QuantizedLinear(3, 3, bias=False)
        self.a.__init_quantization__()
        self.b.__init_quantization__()

    slots = ("a.input_quantizer", "a.weight_quantizer", "a.output_quantizer", "b.weight_quantizer", "b.output_quantizer")
    inputs = ((2, 3),)

    def forward(self, x):
        return self.b(torch.relu(self.a(x)))


class Square(ff.nn.QuantizedModule):
    """A single quantizer."""

    slots = ("q",)
    inputs = ((4, 4),)
    shape = None

    def __init_quantization__(self):
        super().__init_quantization__()
        self.register_quantizer("q", ff.nn.QuantizerStub())

    def forward(self, x):
        return self.q(x)


class Cube(Square):
    inputs = ((3, 3),)


class Pointwise(Square):
    inputs = ((3, 2, 1, 1),)


MODELS = {"linear": Linear, "conv": Conv, "two": Two, "chain": Chain, "square": Square, "cube": Cube, "point": Pointwise}


def build(name, kinds):
    model = MODELS[name]()
    for i, p in enumerate(model.parameters()):
        fill(p, i)
    for slot, kind in zip(model.slots, kinds):
        owner, _, attr = slot.rpartition(".")
        setattr(model.get_submodule(owner), attr, KINDS[kind]())
    inputs = tuple(fill(torch.zeros(s), 11 + i) for i, s in enumerate(model.inputs))
    return model, inputs


class Scratch:
    def __enter__(self):
        self.path = pathlib.Path(tempfile.mkdtemp(prefix="c25-"))
        self.stack = warnings.catch_warnings()
        self.stack.__enter__()
        warnings.simplefilter("ignore")
        logging.disable(logging.WARNING)
        return self.path

    def __exit__(self, *exc):
        logging.disable(logging.NOTSET)
        self.stack.__exit__(*exc)
        shutil.rmtree(self.path, ignore_errors=True)


def plain(out):
    out = out if isinstance(out, tuple) else (out,)
    return [o.dequantize() if isinstance(o, ff.QuantizedTensor) else o for o in out]


def snapshot(model):
    return {k: v.detach().clone() for k, v in model.state_dict().items()}


def unchanged(model, before, inputs, want, exported):
    """Exporting stores the weights on their grid (by default), and changes nothing else."""
    after = model.state_dict()
    check(after.keys() == before.keys(), "model-changed", "exporting changed the parameters of the model")
    for k, v in before.items():
        owner = k.rpartition(".")[0]
        q = getattr(model.get_submodule(owner), "weight_quantizer", None) if k.endswith(".weight") else None
        if isinstance(q, ff.nn.LinearQuantizer):
            with torch.no_grad():
                snapped = q(v).dequantize()
            good = torch.allclose(after[k], snapped, atol=1e-6) or (not exported and torch.equal(after[k], v))
        else:
            good = torch.equal(after[k], v)
        check(good, "model-changed", lambda: f"exporting changed {k}")
    check(not ff.get_export_mode(), "export-mode", "export mode is still on")
    check(sum(len(m._forward_hooks) + len(m._forward_pre_hooks) for m in model.modules()) == 0, "hooks-left", "")
    with ff.strict_quantization(False), torch.no_grad():
        for a, b in zip(plain(model(*inputs)), want):
            check(torch.equal(a, b), "model-changed", "the model computes something else after exporting")


def fake_quant(x, enc, handler, shape, tile_hint):
    """Round `x` to the grid of an encoding; and where the result is not decided by rounding error."""
    bits, _, s, o = decode(handler, enc, shape, tile_hint)
    s, o = torch.tensor(s, dtype=torch.float64).reshape(shape), torch.tensor(o, dtype=torch.float64).reshape(shape)
    v = x.double() / s
    u = torch.clamp(torch.round(v) - o, 0, 2**bits - 1)
    check(bool(((v - torch.floor(v) - 0.5).abs() > 1e-5).all()), "near-tie", "the chosen inputs must not be near ties")
    return ((u + o) * s).to(x.dtype)


MOVES = {"Transpose", "Reshape", "Squeeze", "Unsqueeze", "Flatten", "Identity"}


def simulate(proto, encodings, handler, inputs, tiles):
    """Execute an ONNX graph node by node, rounding every encoded value to its grid."""
    import onnx

    from onnx import numpy_helper
    from onnx.reference import ReferenceEvaluator

    values, applied = {}, set()

    def put(name, value, skip=False):
        enc = find(handler, encodings, name)
        if enc is not None and not skip:
            value = fake_quant(value, enc, handler, tuple(value.shape), tiles.get(name))
            applied.add(name)
        values[name] = value

    for init in proto.graph.initializer:
        put(init.name, torch.from_numpy(numpy_helper.to_array(init).copy()))
    inits = {i.name for i in proto.graph.initializer}
    for gi, x in zip([g for g in proto.graph.input if g.name not in inits], inputs):
        put(gi.name, x)
    for node in proto.graph.node:
        model = onnx.helper.make_model(
            onnx.helper.make_graph(
                [node], "n",
                [onnx.helper.make_empty_tensor_value_info(i) for i in node.input if i],
                [onnx.helper.make_empty_tensor_value_info(o) for o in node.output if o],
            ),
            opset_imports=list(proto.opset_import), functions=list(proto.functions),
        )  # fmt: skip
        outs = ReferenceEvaluator(model).run(None, {i: values[i].numpy() for i in node.input if i})
        moved = node.op_type in MOVES and bool(node.input) and find(handler, encodings, node.input[0]) is not None
        for name, value in zip(node.output, outs):
            put(name, torch.as_tensor(value), skip=moved)
            if moved and find(handler, encodings, name) is not None:
                applied.add(name)
    return [values[o.name] for o in proto.graph.output], applied


def session_for(path):
    """An onnxruntime session without optimizations (which replace float by integer arithmetic)."""
    import onnxruntime

    options = onnxruntime.SessionOptions()
    options.graph_optimization_level = onnxruntime.GraphOptimizationLevel.ORT_DISABLE_ALL
    return onnxruntime.InferenceSession(str(path), options, providers=["CPUExecutionProvider"])


def agree(got, want, key, detail=""):
    check(len(got) == len(want), f"{key}-count", lambda: f"{len(got)} outputs for {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        check(tuple(a.shape) == tuple(b.shape), f"{key}-shape", lambda: f"{tuple(a.shape)} != {tuple(b.shape)}")
        err = (a.double() - b.double()).abs().max().item()
        check(err <= 1e-4, f"{key}-values", lambda: f"output {i} differs by {err} {detail}")


# Assignments of quantizers to the slots of the models, for the encodings export.
ENCODED = {
    "quick": [
        ("linear", ["a8", "c4", "a8"]), ("linear", ["s8", "cs4", "s8"]), ("linear", ["stub", "b4", "a4"]), ("linear", ["a8", "b4a", "stub"]),
        ("linear", ["stub", "stub", "stub"]), ("conv", ["a8", "c4", "stub", "a8"]), ("conv", ["s8", "s4", "a8", "one"]),
        ("two", ["a8", "c4", "s8", "a8"]), ("two", ["s8", "a4", "a8", "stub"]), ("chain", ["a8", "s4", "a8", "c4", "a8"]), ("chain", ["stub", "cs4", "one", "a4", "far"]),
        ("square", ["a7.5"]), ("square", ["b22"]), ("cube", ["c01"]), ("cube", ["c4"]), ("two", ["a16", "a3", "far", "a8"]),
    ],
}  # fmt: skip
ACT, WEIGHT = ["stub", "a8", "s8", "one"], ["stub", "a4", "s4", "c4", "cs4"]
ENCODED["thorough"] = (
    ENCODED["quick"]
    + [("linear", list(k)) for k in itertools.product(ACT, WEIGHT + ["b4", "b4a"], ACT)]
    + [("conv", list(k)) for k in itertools.product(["stub", "a8", "s8"], WEIGHT, ["stub", "a8"], ["stub", "s8", "one"])]
    + [("two", list(k)) for k in itertools.product(["stub", "a8", "s8"], WEIGHT, ["stub", "a8", "s8"], ["stub", "a8"])]
    + [("square", [k]) for k in KINDS if k[0] in "aso"]
)
NAMES = {
    "linear": [None, (["inp"], ["out"])],
    "conv": [None, (["a"], ["b"])],
    "chain": [None, (["inp"], ["out"])],
    "two": [None, (["y", "x"], ["second", "first"])],
}


def gen_models(tier):
    for i, (name, kinds) in enumerate(ENCODED[tier]):
        hs = [("v1", "v2", "legacy")[i % 3]] if tier == "quick" or i >= len(ENCODED["quick"]) else ["v1", "v2", "legacy"]
        for h in hs:
            opts = [(i % 2, (i // 2) % 2)] if tier == "quick" or i >= len(ENCODED["quick"]) else [(a, b) for a in (0, 1) for b in (0, 1)]
            for rename, alter in opts:
                yield {"model": name, "kinds": kinds, "handler": h, "rename": rename, "alter": alter}


def kind_of(kind, shape):
    q = KINDS[kind]()
    tile = q.granularity.tile_size(torch.Size(shape))
    return granularity_kind(tuple(shape), tuple(shape) if tile == "data_shape" else tuple(tile))


def run_models(case):
    import onnx

    name, kinds, h = case["model"], case["kinds"], case["handler"]
    model, inputs = build(name, kinds)
    names = (NAMES.get(name) or [None])[-1] if case["rename"] else None
    active = [(s, k) for s, k in zip(model.slots, kinds) if k != "stub"]
    with Scratch() as tmp:
        with ff.strict_quantization(False), torch.no_grad():
            want = plain(model(*inputs))
        before = snapshot(model)
        shapes = slot_shapes(model, inputs)
        ok = all(float(KINDS[k]().num_bits).is_integer() and supported(h, kind_of(k, shapes[s])) for s, k in active)
        handler = HANDLERS[h]()
        try:
            artifacts = export(
                model, inputs, tmp, "net", encoding_schema_handler=handler, verbose=False,
                input_names=names and list(names[0]), output_names=names and list(names[1]),
                alter_node_names=bool(case["alter"]), onnx_export_options={"optimize": False},
            )  # fmt: skip
            exported = True
        except Exception as e:  # noqa: BLE001
            exported, error = False, e
        check(exported == ok, "export-accepts", lambda: f"{kinds} with {h}: " + ("exported" if exported else f"{type(error).__name__}: {error}"[:300]))
        unchanged(model, before, inputs, want, exported)
        if not exported:
            return Stats(outcome=digest(case))
        proto = onnx.load(str(tmp / "net.onnx"))
        onnx.checker.check_model(proto)
        encodings = json.loads((tmp / "net.encodings").read_text())
        inits = {i.name for i in proto.graph.initializer}
        gin = [g.name for g in proto.graph.input if g.name not in inits]
        gout = [g.name for g in proto.graph.output]
        if names:
            check(gin == names[0] and gout == names[1], "graph-names", lambda: f"{gin}, {gout} for {names}")
        tiles = {}
        for s, k in active:
            q = KINDS[k]()
            shape = torch.Size(shapes[s])
            tile = q.granularity.tile_size(shape)
            for vn in inits | set(gin):
                if s.endswith("weight_quantizer") and s.rpartition(".")[0] + ".weight" in vn or s == "qw" and vn in ("w", "ff_w_0"):
                    tiles[vn] = tuple(shape) if tile == "data_shape" else tuple(tile)
        got, applied = simulate(proto, encodings, h, inputs, tiles)
        agree(got, want, "encodings", f"for {kinds} with {h}")
        # Every quantizer is represented, parameters under their own name.
        total = count(h, encodings)
        check(total >= len(active), "encodings-missing", lambda: f"{total} encodings for {len(active)} quantizers")
        check((total == 0) == (not active), "encodings-extra", lambda: f"{total} encodings without quantizers")
        every = every_name(h, encodings)
        check(every == applied, "encodings-unknown-name", lambda: f"{sorted(every - applied)} do not exist in the graph")
        for s, k in active:
            pname = {"qw": "w"}.get(s, s.replace("weight_quantizer", "weight") if s.endswith("weight_quantizer") else None)
            if pname:
                if case["alter"]:
                    pname = f"ff_{pname}_0"
                check(find(h, encodings, pname, True) is not None, "parameter-encoding", lambda: f"no parameter encoding for {pname} in {sorted(every)}")
        # The stored sample is the quantized model's behaviour.
        with open(tmp / "net_input_output.pickle", "rb") as f:
            io = pickle.load(f)
        agree([t for t in io["input"]], list(inputs), "recorded-input")
        agree([t for t in io["output"]], want, "recorded-output")
        # Exporting something else with the same handler does not change earlier results.
        recorded = json.dumps(artifact_encodings(artifacts), sort_keys=True, default=str)
        check(json.loads(recorded) == json.loads(json.dumps(encodings)), "artifact-encodings", "the returned encodings are not those in the file")
        handler.clear()
        handler.add_encoding("other", ADDS["t8"], True)
        check(json.dumps(artifact_encodings(artifacts), sort_keys=True, default=str) == recorded, "artifact-encodings-alias", "the encodings of an earlier export changed")
    return Stats(states=len(proto.graph.node) + 1, transitions=len(proto.graph.node), traces=1, outcome=digest(case))


def artifact_encodings(artifacts):
    found = []

    def visit(x):
        if isinstance(x, dict):
            if "version" in x and "quantizer_args" in x:
                found.append(x)
            else:
                for v in x.values():
                    visit(v)

    visit(artifacts.stage_outputs)
    check(len(found) == 1, "artifacts", lambda: f"{len(found)} encodings among the results of the export")
    return found[0]


def every_name(h, built):
    if h == "v2":
        return {e["name"] for e in built["encodings"]}
    if h == "v1":
        return {e["name"] for k in ("param_encodings", "activation_encodings") for e in built[k]}
    return set(built["param_encodings"]) | set(built["activation_encodings"])


def slot_shapes(model, inputs):
    """Shape of the data that every quantizer gets."""
    shapes, handles = {}, []
    for s in model.slots:
        q = model.get_submodule(s)

        def hook(mod, args, s=s):
            shapes[s] = tuple(args[0].shape)

        handles.append(q.register_forward_pre_hook(hook))
    with ff.strict_quantization(False), torch.no_grad():
        model(*inputs)
    for hd in handles:
        hd.remove()
    return shapes


# ------------------------------------------------------------------ QDQ graphs

QDQ = {
    "quick": [
        ("square", [k], 21) for k in ("a8", "a4", "a16", "s8", "one", "far", "b22", "a3", "a7.5")
    ] + [("cube", [k], None) for k in ("c4", "c1", "c01", "cs4")] + [("point", ["c4"], 22),
        ("linear", ["a8", "c4", "a8"], None), ("linear", ["s8", "b4", "a8"], None), ("conv", ["a8", "cs4", "stub", "a8"], 23), ("chain", ["a8", "c4", "a8", "s4", "a16"], None), ("two", ["a8", "a4", "s8", "a8"], None)],
}  # fmt: skip
QDQ["thorough"] = (
    [(m, k, o) for m, k, _ in QDQ["quick"] for o in (None, 21, 22, 23)]
    + [("linear", list(k), None) for k in itertools.product(ACT, WEIGHT, ACT)]
    + [("conv", list(k), 21) for k in itertools.product(["stub", "a8", "s8"], WEIGHT, ["stub", "a8"], ["stub", "s8"])]
    + [("two", list(k), 21) for k in itertools.product(["stub", "a8"], WEIGHT, ["stub", "s8"], ["stub", "a8", "a16"])]
)


def gen_qdq(tier):
    for m, k, o in QDQ[tier]:
        yield {"model": m, "kinds": k, "opset": o}


def run_qdq(case):
    name, kinds = case["model"], case["kinds"]
    model, inputs = build(name, kinds)
    active = [(s, k) for s, k in zip(model.slots, kinds) if k != "stub"]
    with Scratch() as tmp:
        with ff.strict_quantization(False), torch.no_grad():
            want = plain(model(*inputs))
        before = snapshot(model)
        shapes = slot_shapes(model, inputs)

        def representable(s, k):
            q = model.get_submodule(s)
            bits = q.num_bits
            if bits not in (4, 8, 16):
                return False
            kind = kind_of(k, shapes[s])
            if kind[0] == "block" or kind[0] == "channel" and len(kind[1]) > 1:
                return False
            lo, hi = refs.int_bounds(int(bits))
            offsets = [] if q.offset is None else torch.round(q.offset.detach()).tolist()
            return all(lo <= -o <= hi for o in offsets)

        ok = all(representable(s, k) for s, k in active)
        options = {} if case["opset"] is None else {"opset_version": case["opset"]}
        keep = copy.deepcopy(options)
        try:
            export(model, inputs, tmp, "net", format="onnx_qdq", verbose=False, onnx_export_options=options)
            exported = True
        except Exception as e:  # noqa: BLE001
            exported, error = False, e
        check(exported == ok, "qdq-accepts", lambda: f"{kinds}: " + ("exported" if exported else f"{type(error).__name__}: {error}"[:300]))
        check(options == keep, "qdq-options", "the options of the caller changed")
        unchanged(model, before, inputs, want, exported)
        if not exported:
            return Stats(outcome=digest(case))
        session = session_for(tmp / "net.onnx")
        feed = {i.name: x.numpy() for i, x in zip(session.get_inputs(), inputs)}
        check(len(feed) == len(inputs), "qdq-inputs", str(list(feed)))
        agree([torch.from_numpy(o) for o in session.run(None, feed)], want, "qdq", f"for {kinds}")
    return Stats(states=2, transitions=1, traces=1, outcome=digest(case))


# ------------------------------------------------------------------ options of the pipeline

OPTION_MODELS = [("linear", ["a8", "c4", "a8"]), ("conv", ["s8", "s4", "a8", "a8"]), ("chain", ["a8", "s4", "a8", "c4", "a8"]), ("two", ["a8", "c4", "s8", "a8"])]


def gen_options(tier):
    for i, (name, kinds) in enumerate(OPTION_MODELS):
        for store in (False, True):
            for prefix in (None, "p", "q_1"):
                for h in HANDLERS if tier != "quick" else [list(HANDLERS)[i % 3]]:
                    for rename in (False, True) if tier != "quick" else [prefix == "p"]:
                        yield {"model": name, "kinds": kinds, "store": store, "prefix": prefix, "rename": rename, "handler": h}
            yield {"model": name, "kinds": kinds, "store": store, "format": "onnx_qdq"}


def run_options(case):
    """The options of an export request are followed; what is stored is what the model computes."""
    import onnx

    from onnx import numpy_helper

    name, kinds, qdq = case["model"], case["kinds"], "format" in case
    model, inputs = build(name, kinds)
    names = (NAMES.get(name) or [None])[-1] if case.get("rename") else None
    with Scratch() as tmp, ff.strict_quantization(False), torch.no_grad():
        want = plain(model(*inputs))
        before = snapshot(model)
        shapes = slot_shapes(model, inputs)
        options = {"onnx_export_options": {"optimize": False}, "store_weights_as_qdq": case["store"], "verbose": False}
        if names:
            options.update(input_names=list(names[0]), output_names=list(names[1]))
        if case.get("prefix"):
            options.update(alter_node_names=True, alter_node_names_prefix=case["prefix"])
        if not qdq:
            options["encoding_schema_handler"] = HANDLERS[case["handler"]]()
        request = ExportRequest(model=model, sample_inputs=[(inputs, {})], output_dir=tmp, model_name="net", target="qnn", format=case.get("format", "onnx"), options=QnnOnnxOptions(**options).to_context())
        with ff.export_mode(True):
            export_with_pipeline(request)
        if case["store"]:
            unchanged(model, before, inputs, want, True)
        else:
            after = model.state_dict()
            check(after.keys() == before.keys() and all(torch.equal(after[k], v) for k, v in before.items()), "weights-stored", "the weights changed without the option to store them")
        proto = onnx.load(str(tmp / "net.onnx"))
        onnx.checker.check_model(proto)
        if qdq:
            session = session_for(tmp / "net.onnx")
            feed = {i.name: x.numpy() for i, x in zip(session.get_inputs(), inputs)}
            agree([torch.from_numpy(o) for o in session.run(None, feed)], want, "qdq", f"for {kinds}")
            return Stats(states=2, transitions=1, traces=1, outcome=digest(case))
        encodings = json.loads((tmp / "net.encodings").read_text())
        prefix = case["prefix"]
        values = {i.name: torch.from_numpy(numpy_helper.to_array(i).copy()) for i in proto.graph.initializer}
        for pname, p in model.named_parameters():
            if "quantizer" in pname or pname.split(".")[0] in ("qx", "qw", "qm", "qo"):
                continue
            stored = values.get(f"{prefix}_{pname}_0" if prefix else pname)
            check(stored is not None, "parameter-name", lambda: f"no {pname} with prefix {prefix} in {sorted(values)}")
            check(torch.equal(stored, p.detach()), "parameter-value", lambda: f"{pname} is stored as {stored} instead of {p}")
        if prefix:
            outs = [o for n in proto.graph.node for o in n.output] if not names else []
            check(all(n.startswith(prefix + "_") for n in [*values, *outs, *(n.name for n in proto.graph.node)]), "prefix", lambda: f"{sorted(values)} {outs}")
        gin, gout = [g.name for g in proto.graph.input if g.name not in values], [g.name for g in proto.graph.output]
        if names:
            check(gin == names[0] and gout == names[1], "graph-names", lambda: f"{gin}, {gout} for {names}")
        tiles = {}
        for s, k in zip(model.slots, kinds):
            shape = torch.Size(shapes[s])
            tile = KINDS[k]().granularity.tile_size(shape)
            for vn in [*values, *gin]:
                if s.endswith("weight_quantizer") and s.rpartition(".")[0] + ".weight" in vn or s == "qw" and vn in ("w", f"{prefix}_w_0"):
                    tiles[vn] = tuple(shape) if tile == "data_shape" else tuple(tile)
        got, applied = simulate(proto, encodings, case["handler"], inputs, tiles)
        agree(got, want, "encodings", f"for {kinds}")
        check(every_name(case["handler"], encodings) == applied, "encodings-unknown-name", lambda: f"{sorted(every_name(case['handler'], encodings) - applied)}")
    return Stats(states=len(proto.graph.node) + 1, transitions=len(proto.graph.node), traces=1, outcome=digest(case))


# ------------------------------------------------------------------ calls


class Optional(ff.nn.QuantizedModule):
    """Optional inputs, one of which can only be passed by name."""

    slots = ("qx", "qy", "qz")
    inputs = ((2, 3), (2, 3), (2, 3))

    def __init_quantization__(self):
        super().__init_quantization__()
        for n in self.slots:
            self.register_quantizer(n, ff.nn.QuantizerStub())

    def forward(self, x, y=None, *, z=None):
        r = self.qx(x)
        if y is not None:
            r = r - 2 * self.qy(y)
        if z is not None:
            r = r * self.qz(z)
        return r


MODELS["optional"] = Optional


def gen_calls(tier):
    """All ways to pass the inputs: by position, by name (in every order), as None, or not at all."""
    i = 0
    for px, py, pz in itertools.product(("pos", "kw"), ("pos", "kw", "posnone", "kwnone", "absent"), ("kw", "kwnone", "absent")):
        if px == "kw" and py.startswith("pos"):
            continue
        args = [v for v, how in (("x", px), ("y", py)) if how == "pos" or how == "posnone"]
        named = [v for v, how in (("x", px), ("y", py), ("z", pz)) if how in ("kw", "kwnone")]
        none = [v for v, how in (("y", py), ("z", pz)) if how.endswith("none")]
        for kwargs in itertools.permutations(named):
            for h in [*HANDLERS, "qdq"] if tier != "quick" else [(*HANDLERS, "qdq")[i % 4]]:
                yield {"args": args, "kwargs": list(kwargs), "none": none, "handler": h}
            i += 1


def run_calls(case):
    """Exported with arguments by position and by name, the graph takes each tensor by its name."""
    import onnx

    kinds, h = ["a8", "a4", "s8"], case["handler"]
    model, inputs = build("optional", kinds)
    tensors = dict(zip("xyz", inputs))
    given = {n: None if n in case["none"] else tensors[n] for n in [*case["args"], *case["kwargs"]]}
    args, kwargs = tuple(given[n] for n in case["args"]), {n: given[n] for n in case["kwargs"]}
    live = {n: v for n, v in given.items() if v is not None}
    with Scratch() as tmp, ff.strict_quantization(False), torch.no_grad():
        want = plain(model(*args, **kwargs))
        options = {"model_kwargs": dict(kwargs), "verbose": False, "onnx_export_options": {"optimize": False}}
        if h == "qdq":
            export(model, args, tmp, "net", format="onnx_qdq", **options)
        else:
            export(model, args, tmp, "net", encoding_schema_handler=HANDLERS[h](), **options)
        proto = onnx.load(str(tmp / "net.onnx"))
        gin = [g.name for g in proto.graph.input]
        check(sorted(gin) == sorted(live), "call-inputs", lambda: f"graph inputs {gin} for {list(live)}")
        with open(tmp / "net_input_output.pickle", "rb") as f:
            io = pickle.load(f)
        same = lambda a, b: (a is None and b is None) or (a is not None and b is not None and torch.equal(a, b))  # noqa: E731
        check(len(io["input"]) == len(args) and all(map(same, io["input"], args)), "call-recorded-input", lambda: f"{io['input']} for {args}")
        check(io["kwargs"].keys() == kwargs.keys() and all(same(io["kwargs"][k], v) for k, v in kwargs.items()), "call-recorded-kwargs", lambda: f"{io['kwargs']} for {kwargs}")
        agree(plain(tuple(io["output"])), want, "call-recorded-output")
        if h == "qdq":
            got = session_for(tmp / "net.onnx").run(None, {n: live[n].numpy() for n in gin})
            agree([torch.from_numpy(o) for o in got], want, "call-qdq")
        else:
            encodings = json.loads((tmp / "net.encodings").read_text())
            got, applied = simulate(proto, encodings, h, [live[n] for n in gin], {})
            agree(got, want, "call-encodings")
            check(every_name(h, encodings) == applied, "call-unknown-name", lambda: f"{sorted(every_name(h, encodings) - applied)}")
    return Stats(states=len(proto.graph.node) + 1, transitions=len(proto.graph.node), traces=1, outcome=digest(case))


# ------------------------------------------------------------------ modules


class Sum(torch.nn.Module):
    def forward(self, x, n=None, y=None):
        z = x * 2.0 if y is None else x * 2.0 + y
        return z


class Pair(torch.nn.Module):
    def forward(self, xs, y):
        return xs[0] + xs[1] * y


class Out(torch.nn.Module):
    def forward(self, x, y):
        return torch.reshape(x, (3, 2)), None, torch.reshape(y, (3, 2))


class OutNested(torch.nn.Module):
    def forward(self, x, y):
        return {"b": torch.reshape(y, (3, 2)), "a": (torch.reshape(x, (3, 2)), None)}


class Boom(torch.nn.Module):
    """Fails at its n-th call."""

    def __init__(self):
        super().__init__()
        self.left = -1

    def forward(self, x):
        self.left -= 1
        if self.left == -1:
            raise KeyError("boom")
        return x + 0.5


CALLS = {  # module, how it is called with three tensors, the tensors it is given in graph order
    "one": (Sum, lambda m, x, y, z: m(x), [0]),
    "const": (Sum, lambda m, x, y, z: m(x, 3, y), [0, 1]),
    "none": (Sum, lambda m, x, y, z: m(x, None, y), [0, 1]),
    "kw": (Sum, lambda m, x, y, z: m(x, y=y), [0, 1]),
    "kwnone": (Sum, lambda m, x, y, z: m(x, n=None, y=z), [0, 2]),
    "nested": (Pair, lambda m, x, y, z: m((x, y), z), [0, 1, 2]),
    "nestedlist": (Pair, lambda m, x, y, z: m([z, y], x), [2, 1, 0]),
    "outs": (Out, lambda m, x, y, z: m(x, y), [0, 1]),
    "outnested": (OutNested, lambda m, x, y, z: m(z, x), [2, 0]),
}


class Top(ff.nn.QuantizedModule):
    def __init__(self, bodies, calls):
        super().__init__()
        self.body = torch.nn.ModuleList(bodies)
        self.boom = Boom()
        self.calls = calls

    def __init_quantization__(self):
        super().__init_quantization__()
        for n in ("q0", "q1", "q2"):
            self.register_quantizer(n, ff.nn.QuantizerStub())

    slots = ("q0", "q1", "q2")

    def forward(self, x, y, z):
        a = self.q0(x), self.q1(y), self.q2(z)
        outs = [call(m, *a) for m, call in zip(self.body, self.calls)]
        self.boom(x)
        return outs


QUANTS = [["a8", "a4", "s8"], ["stub", "a4", "s8"], ["a8", "stub", "one"], ["a8", "a4", "stub"], ["stub", "stub", "stub"]]


def gen_modules(tier):
    if tier == "quick":
        for c, q, h in (("one", 0, "v2"), ("const", 0, "v1"), ("none", 1, "v2"), ("kw", 0, "v1"), ("kwnone", 0, "legacy"), ("nested", 0, "v1"), ("nestedlist", 2, "v2"), ("outs", 0, "v1"), ("outs", 2, "v2"), ("outnested", 3, "v2")):  # fmt: skip
            yield {"calls": [c], "quants": QUANTS[q], "handler": h, "fail": None}
        yield {"calls": ["kw", "outs"], "quants": QUANTS[0], "handler": "v1", "fail": None}
    else:
        for c in CALLS:
            for q in QUANTS:
                for h in HANDLERS:
                    yield {"calls": [c], "quants": q, "handler": h, "fail": None}
        for c in itertools.permutations(["kw", "outs", "nested", "none"], 2):
            yield {"calls": list(c), "quants": QUANTS[0], "handler": "v1", "fail": None}
    for fail in (0, 1):
        for c in (["one"], ["kw", "outs"]):
            yield {"calls": c, "quants": QUANTS[0], "handler": "v1", "fail": fail}


def run_modules(case):
    import onnx

    h = case["handler"]
    top = Top([CALLS[c][0]() for c in case["calls"]], [CALLS[c][1] for c in case["calls"]])
    for s, k in zip(top.slots, case["quants"]):
        setattr(top, s, KINDS[k]())
    inputs = tuple(fill(torch.zeros(2, 3), 3 + i) for i in range(3))
    with Scratch() as tmp, ff.strict_quantization(False), torch.no_grad():
        fed = [q(x) for q, x in zip((top.q0, top.q1, top.q2), inputs)]
        fed_plain = [plain(f)[0] for f in fed]
        handler = HANDLERS[h]()
        top.boom.left = case["fail"] if case["fail"] is not None else -1
        failed = None
        try:
            paths = export_modules(top, inputs, ff.mpath.search("body/*", top), "net", tmp, verbose=False, encoding_schema_handler=handler, onnx_export_options={"optimize": False})
        except Exception as e:  # noqa: BLE001
            failed = e
        check(sum(len(m._forward_hooks) + len(m._forward_pre_hooks) for m in top.modules()) == 0, "modules-hooks-left", "hooks are still attached")
        check(all(isinstance(q(x), ff.QuantizedTensor) == (k != "stub") for q, x, k in zip((top.q0, top.q1, top.q2), inputs, case["quants"])), "modules-quantization", "quantization is not active after the export")
        check(not ff.get_export_mode(), "modules-export-mode", "")
        if case["fail"] is not None:
            check(isinstance(failed, KeyError), "modules-failure", lambda: f"{failed!r}")
            return Stats(outcome=digest(case))
        if failed is not None:
            raise failed
        check(len(paths) == len(case["calls"]), "modules-paths", str(paths))
        for i, c in enumerate(case["calls"]):
            path = paths[f"body.{i}"]
            proto = onnx.load(str(path / f"body.{i}.onnx"))
            built = json.loads((path / f"body.{i}.encodings").read_text())
            given = CALLS[c][2]
            names = [g.name for g in proto.graph.input]
            check(len(names) == len(given), "modules-inputs", lambda: f"{names} for {given}")
            seen = set()
            for nm, k in zip(names, given):
                grid(h, built, nm, fed[k], (2, 3), f"{c}: input {nm}")
                seen.add(nm)
            onames = [o.name for o in proto.graph.output]
            with open(path / f"body.{i}_input_output.pickle", "rb") as f:
                io = pickle.load(f)
            outs = torch.utils._pytree.tree_leaves(top.calls[i](top.body[i], *fed))
            outs = [o for o in outs if isinstance(o, torch.Tensor)]
            check(len(onames) == len(outs), "modules-outputs", lambda: f"{onames} for {len(outs)} outputs")
            for nm, out in zip(onames, outs):
                grid(h, built, nm, out, tuple(out.shape), f"{c}: output {nm}")
                seen.add(nm)
            rec = [v for v in io["output"] if isinstance(v, torch.Tensor)]
            agree(rec, plain(tuple(outs)), "modules-recorded-output", c)
            # Graph, fed with the recorded inputs, gives the recorded outputs.
            leaves = torch.utils._pytree.tree_leaves(io["input"]) + torch.utils._pytree.tree_leaves(io["kwargs"])
            leaves = [v for v in leaves if isinstance(v, torch.Tensor)]
            agree(leaves, [fed_plain[k] for k in given], "modules-recorded-input", c)
            session = session_for(path / f"body.{i}.onnx")
            got = session.run(onames, dict(zip(names, [v.numpy() for v in leaves])))
            agree([torch.from_numpy(g) for g in got], rec, "modules-graph", c)
            extra = every_name(h, built) - seen
            check(not extra, "modules-extra", lambda: f"{c}: encodings for {extra}")
    return Stats(states=len(case["calls"]), transitions=len(case["calls"]), traces=1, outcome=digest(case))


def grid(h, built, name, tensor, shape, what):
    entry = find(h, built, name)
    if not isinstance(tensor, ff.QuantizedTensor):
        check(entry is None, "modules-unquantized", lambda: f"{what} is not quantized but has {entry}")
        return
    check(entry is not None, "modules-missing", lambda: f"{what} has no encoding")
    q = tensor.quant_args()
    offsets = [0.0] if q.offset is None else torch.round(q.offset.detach()).reshape(-1).tolist()
    compare_grid(h, entry, shape, shape, int(q.num_bits), q.scale.detach().reshape(-1).tolist(), offsets, "modules")


FAMILIES = [
    Family("encodings", gen_encodings, run_encodings, "all parameter forms x tilings x bitwidths for every schema, against the real quantizer"),
    Family("histories", gen_histories, run_histories, "all histories of additions, refusals, clears and builds of a schema handler"),
    Family("lpbq", gen_lpbq, run_lpbq, "all block-scale combinations for LPBQ compression"),
    Family("models", gen_models, run_models, "exported graphs executed with their encodings compute what the model computes", timeout=300),
    Family("qdq", gen_qdq, run_qdq, "QDQ graphs compute what the model computes, or are refused", timeout=300),
    Family("options", gen_options, run_options, "models x options of the export request (weights stored on their grid or not, prefixes, names, both formats)", timeout=300),
    Family("calls", gen_calls, run_calls, "all ways to pass the inputs of the exported model: by position, by name in every order, as None, or not at all", timeout=300),
    Family("modules", gen_modules, run_modules, "exported modules carry the encodings of the tensors they get and return", timeout=300),
]
