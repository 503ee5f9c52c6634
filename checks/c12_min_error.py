"""C12: error-minimising range search returns the best candidate on its grid."""

from __future__ import annotations

import itertools
import math

import torch

import fastforward as ff

from fastforward.range_setting import min_error as range_setting
from fastforward.range_setting.min_error import uniform_search_grid

from mc import refs
from mc.harness import Family, Stats, check

PROP = "C12"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small tensors, batch sequences, granularities and grid sizes on the real search against brute force over all candidates"
ASSUMPTIONS = [
    "data over a value alphabet, shape (2,2) or (2,4); the error of a candidate is the error of the quantizer when given that range (C04 relates ranges to parameters)",
    "ties and differences below 1e-5 relative may be decided either way",
]


class Boom(Exception):
    pass


def make_q(gran, sym, one, bits):
    return ff.nn.LinearQuantizer(bits, symmetric=sym, allow_one_sided=one, granularity=refs.make_granularity(gran))


def params(q, n):
    s = q.scale.detach().double().tolist()
    o = [None] * len(s) if q.offset is None else q.offset.detach().double().tolist()
    return list(zip(s, o)) if len(s) == n else [(s[0], o[0])] * n


def tile_errors(x, tile, pars, bits, p):
    """Mean |x - qdq(x)|**p for every tile, elementwise in double."""
    n = refs.num_tiles(x.shape, tile)
    tot, cnt = [0.0] * n, [0] * n
    for idx in refs.indices(x.shape):
        t = refs.tile_index(idx, x.shape, tile)
        v = float(x[idx])
        s, o = pars[t]
        d = refs.dequantize(refs.quantize(v, s, o, bits), s, o)
        tot[t] += abs(d - v) ** p
        cnt[t] += 1
    return [a / c for a, c in zip(tot, cnt)]


class Recorder:
    """A search grid that remembers what it proposed."""

    def __init__(self, inner):
        self.inner = inner
        self.lo = self.hi = None
        self.calls = 0

    def __call__(self, data, symmetric, dims, count):
        self.calls += 1
        self.data = data.clone()
        self.asked = (symmetric, dims, count)
        lo, hi = self.inner(data, symmetric, dims, count)
        self.lo, self.hi = lo.detach().clone(), hi.detach().clone()
        return lo, hi


def usable(q):
    for t in (q.scale, q.offset):
        if t is not None and not torch.isfinite(t).all():
            return False
    return bool((q.scale > 0).all())


def verify(case, q, rec, batches, tile, bits, gran, sym, one, p, where):
    n = refs.num_tiles(batches[0].shape, tile)
    check(usable(q), "unusable-parameters", lambda: f"{where}: scale {q.scale} offset {q.offset}")
    cands = []
    for i in range(rec.lo.shape[0]):
        twin = make_q(gran, sym, one, bits)
        twin.quantization_range = (rec.lo[i], rec.hi[i])
        pars = params(twin, n)
        if any(not math.isfinite(s) or s <= 0 for s, _ in pars):
            cands.append(([math.inf] * n, pars))
            continue
        errs = [0.0] * n
        for x in batches:
            errs = [a + b for a, b in zip(errs, tile_errors(x, tile, pars, bits, p))]
        cands.append((errs, pars))
    got = params(q, n)
    mine = [0.0] * n
    for x in batches:
        mine = [a + b for a, b in zip(mine, tile_errors(x, tile, got, bits, p))]
    for t in range(n):
        best = min(e[t] for e, _ in cands)
        check(mine[t] <= best * (1 + 1e-4) + 1e-7, "not-minimal", lambda: f"{where}: tile {t} error {mine[t]} but a candidate has {best}")
        if not (sym and one):  # one-sidedness is decided over all tiles together
            near = any(abs(pr[t][0] - got[t][0]) <= 1e-6 * pr[t][0] + 1e-12 and (got[t][1] is None or abs(pr[t][1] - got[t][1]) <= 1e-3) for _, pr in cands)
            check(near, "not-a-candidate", lambda: f"{where}: tile {t} has {got[t]}, not on the grid")


GRANS = [["tensor"], ["channel", [0]], ["tile", [1, 1]], ["channel", [1]]]
KINDS = [(False, True), (True, False), (True, True)]


def tile_of(gran, shape):
    return {"tensor": tuple(shape), "channel": None, "tile": tuple(gran[1]) if gran[0] == "tile" else None}[gran[0]] or tuple(
        1 if d in gran[1] else s for d, s in enumerate(shape))


ALPHABET = [-3.0, -0.25, 0.0, 0.4, 5.0]


def gen_default(tier):
    counts = [1, 2, 3, 5, 9] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24]
    for gran in GRANS:
        for kind in KINDS:
            for count in counts:
                for margins in ([0.5, 1.0], [0.0, 1.0], [0.1, 1.25])[: 2 if tier == "quick" else 3]:
                    yield {"gran": gran, "kind": kind, "count": count, "margins": margins, "tier": tier}


def run_default(case):
    gran, (sym, one) = case["gran"], case["kind"]
    tile = tile_of(gran, (2, 2))
    n = 0
    outs = set()
    alpha = ALPHABET if case["tier"] == "thorough" else [-3.0, 0.0, 0.4, 5.0]
    for vals in itertools.combinations_with_replacement(alpha, 4):
        for arrange in (vals, (vals[3], vals[0], vals[1], vals[2])):
            x = torch.tensor(arrange).reshape(2, 2)
            for bits in (2, 4):
                q = make_q(gran, sym, one, bits)
                rec = Recorder(uniform_search_grid(*case["margins"]))
                where = lambda: f"{case} data {x.tolist()} bits {bits}"
                with ff.estimate_ranges(q, range_setting.min_error_grid, num_candidates=case["count"], search_grid_generator=rec):
                    out = q(x)
                check(not list(q.overrides), "left-over", where)
                check(torch.equal(out.dequantize(), q(x).dequantize()), "output", where)
                check(rec.calls == 1 and rec.asked == (sym, refs.num_tiles((2, 2), tile), case["count"]), "grid-request", where)
                check(rec.lo.shape == rec.hi.shape and rec.lo.shape[1] == refs.num_tiles((2, 2), tile) and rec.lo.shape[0] >= 1, "grid-shape", where)
                for idx in refs.indices((2, 2)):
                    t = refs.tile_index(idx, (2, 2), tile)
                    v = float(x[idx])
                    check(float(rec.hi[:, t].max()) >= v - 1e-5 * abs(v) and (float(rec.lo[:, t].min()) <= v + 1e-5 * abs(v)), "grid-span",
                          lambda: f"{where()}: element {v} outside {rec.lo[:, t].tolist()}..{rec.hi[:, t].tolist()}")
                verify(case, q, rec, [x], tile, bits, gran, sym, one, 2, where())
                outs.add(str(q.scale.tolist()))
                n += 1
    return Stats(states=n * case["count"], transitions=n, traces=n, outcome=[case["gran"], case["kind"], case["count"], len(outs)])


# ------------------------------------------------ own grids, error functions, batch histories

BATCHES = [
    torch.tensor([[-3.0, 0.4, 1.0, 2.0], [0.5, 0.25, -0.5, 0.75]]),
    torch.tensor([[0.1, 0.2, 0.3, 12.0], [-8.0, -1.0, 0.0, 0.0]]),
    torch.zeros(2, 4),
    torch.tensor([[1.5, 1.5, 1.5, 1.5], [-1.5, -1.5, -1.5, -1.5]]),
]
GRIDS = {
    "ordered": [(-1.0, 1.0), (-2.0, 2.0), (-4.0, 4.0), (-8.0, 8.0), (-16.0, 16.0)],
    "reversed": [(-16.0, 16.0), (-4.0, 4.0), (-1.0, 1.0)],
    "single": [(-2.0, 3.0)],
    "mixed": [(-0.5, 4.0), (-8.0, 1.0), (0.0, 2.0), (-3.0, 0.0), (-1.5, 1.5), (-0.1, 12.0), (-9.0, 12.0)],
}


def gen_hist(tier):
    for gran in (["tensor"], ["channel", [0]], ["tile", [1, 2]]):
        for kind in KINDS:
            for grid in GRIDS:
                if kind == (True, True) and gran != ["tensor"] and grid == "mixed":
                    continue  # one-sidedness is a property of all tiles together: no per-tile optimum is defined
                for err in ("mse", "mae"):
                    yield {"gran": gran, "kind": kind, "grid": grid, "err": err, "length": 2 if tier == "quick" and (gran[0] == "tile" or err == "mae") else 3 if tier == "quick" else 4}


def mae(a, b):
    return (a - b).abs().mean(dim=1)


POLICIES = {"always": None, "true": lambda est, n: True, "every2": lambda est, n: n % 2 == 0, "last3": lambda est, n: n == 3, "never": lambda est, n: False}


def run_hist(case):
    gran, (sym, one) = case["gran"], case["kind"]
    tile = tile_of(gran, (2, 4))
    grid = GRIDS[case["grid"]]

    def generator(data, symmetric, dims, count):
        # every tile gets its own scaling of the grid
        f = torch.tensor([1.0 + 0.5 * i for i in range(dims)])
        lo = torch.stack([g[0] * f for g in grid])
        hi = torch.stack([g[1] * f for g in grid])
        return lo, hi

    n = 0
    outs = set()
    for length in range(1, case["length"] + 1):
        for seq in itertools.product(range(len(BATCHES)), repeat=length):
            for pname, policy in POLICIES.items():
                if length == 1 and pname != "always":
                    continue
                if length > 2 and pname == "never":
                    continue
                kw = dict(search_grid_generator=generator, num_candidates=len(grid))
                if case["err"] == "mae":
                    kw["error_fn"] = mae
                if policy is not None:
                    kw["update_range_policy"] = policy
                q = make_q(gran, sym, one, 3)
                q.quantization_range = (torch.full((refs.num_tiles((2, 4), tile),), -1.0), torch.full((refs.num_tiles((2, 4), tile),), 1.0))
                before = q.scale.detach().clone()
                batches = []
                updated = 0
                with ff.estimate_ranges(q, range_setting.min_error_grid(**kw)):
                    rec = Recorder(generator)
                    rec(BATCHES[0], sym, refs.num_tiles((2, 4), tile), len(grid))
                    for k, b in enumerate(seq, 1):
                        keep = BATCHES[b].clone()
                        q(BATCHES[b])
                        check(torch.equal(keep, BATCHES[b]), "data-changed", "")
                        batches.append(BATCHES[b])
                        where = f"{case} {seq[:k]} policy {pname}"
                        if policy is None or policy(None, k):
                            updated = k
                            verify(case, q, rec, batches, tile, 3, gran, sym, one, 2 if case["err"] == "mse" else 1, where)
                    if not updated:
                        check(torch.equal(q.scale, before), "policy-ignored", where)
                    elif updated < length:
                        verify(case, q, rec, batches[:updated], tile, 3, gran, sym, one, 2 if case["err"] == "mse" else 1, where)
                after = q.scale.detach().clone()
                q(BATCHES[1])
                check(torch.equal(after, q.scale) and not list(q.overrides), "left-over", "")
                outs.add(str(after.tolist()))
                n += 1
    return Stats(states=n * len(grid), transitions=n * case["length"], traces=n, outcome=[case["gran"], case["grid"], len(outs)])


def gen_models(tier):
    for skip in (True, False):
        for slots in itertools.product("LDS", repeat=2):
            for fail in (False, True):
                yield {"skip": skip, "slots": "".join(slots), "fail": fail}


def run_models(case):
    """Model-level scope: refusal of unsupported quantizers, weights that require grad, nothing left behind."""
    qs = torch.nn.ModuleList([{"L": lambda: make_q(["channel", [0]], False, True, 3), "D": lambda: ff.nn.DynamicLinearQuantizer(3), "S": lambda: ff.nn.QuantizerStub()}[c]() for c in case["slots"]])
    w = torch.nn.Parameter(torch.tensor([[-3.0, 0.4], [0.5, 7.0]]))
    refuse = "D" in case["slots"] and not case["skip"]
    refused = False
    try:
        with ff.estimate_ranges(qs, range_setting.mse_grid, num_candidates=9, skip_unsupported_quantizers=case["skip"]):
            for q in qs:
                q(w)
            if case["fail"]:
                raise Boom()
    except TypeError:
        refused = True
    except Boom:
        pass
    check(refused == refuse, "refusal", str(case))
    for q, c in zip(qs, case["slots"]):
        check(not list(q.overrides), "left-over", str(case))
        if c == "L":
            check(q.has_uninitialized_params == refuse, "initialised", str(case))
            if not refuse:
                check(usable(q) and not q.scale.grad_fn and q.scale.requires_grad, "parameter-kind", "")
                q(w).dequantize().sum().backward()
                check(w.grad is not None, "gradient", "")
    return Stats(states=2, transitions=2, outcome=case)


FAMILIES = [
    Family("default-grid", gen_default, run_default, "all 2x2 tensors over the alphabet (two arrangements) x granularity x symmetry x bits x number of candidates x margins", timeout=600),
    Family("histories", gen_hist, run_hist, "all batch sequences up to a length x explicit grids x error functions x update policies", timeout=600),
    Family("models", gen_models, run_models, "quantizer kinds in a model x skip setting x exception"),
]
