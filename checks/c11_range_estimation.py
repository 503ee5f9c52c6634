"""C11: range estimation equals the estimator's definition over the whole history."""

from __future__ import annotations

import itertools

import torch

import fastforward as ff

from fastforward import range_setting
from fastforward.quantized_tensor import QuantizedTensor
from fastforward.range_setting.common import RangeEstimator

from mc import refs
from mc.harness import Family, Stats, check

PROP = "C11"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of calibration histories (batch sequences x scope groupings x exception points) on the real estimators against per-element reference statistics"
ASSUMPTIONS = [
    "batches of shape (2,4) from a fixed alphabet; sequences up to the stated length",
    "a scope that starts on an initialised quantizer continues from the range the quantizer reports, as documented by the estimators' construction",
]


class Boom(Exception):
    pass


SHAPE = (2, 4)
BATCHES = [
    torch.tensor([[0.5, -1.0, 2.0, 0.25], [0.0, 3.0, -0.5, 1.0]]),
    torch.tensor([[-4.0, 0.5, 0.5, 0.75], [1.0, 1.5, 0.25, -6.0]]),
    torch.tensor([[1.0, 2.0, 1.5, 5.0], [0.125, 0.5, 7.0, 2.5]]),
    torch.zeros(SHAPE),
]
GRANS = [["tensor"], ["channel", [0]], ["channel", [1]], ["channel", [0, 1]], ["tile", [1, 2]], ["tile", [2, 2]], ["block", [1], [2], [0]]]
ESTIMATORS = [["running", {}], ["running", {"disable_quantization": True}], ["smoothed", {}], ["smoothed", {"gamma": 0.25}],
              ["smoothed", {"gamma": 0.5, "disable_quantization": True}], ["smoothed", {"gamma": 0.0}]]
CLASSES = {"running": range_setting.running_minmax, "smoothed": range_setting.smoothed_minmax}


def make_quantizer(gran, symmetric=False, one_sided=True, bits=4):
    return ff.nn.LinearQuantizer(bits, symmetric=symmetric, allow_one_sided=one_sided, granularity=refs.make_granularity(gran))


def tile_of(gran):
    for spec, tile in refs.granularities(SHAPE, False):
        if spec[0] == gran[0] and [list(x) if isinstance(x, (tuple, list)) else x for x in spec[1:]] == gran[1:]:
            return tile
    raise AssertionError(gran)


def stats_of(batch, tile):
    n = refs.num_tiles(SHAPE, tile)
    lo, hi = [float("inf")] * n, [float("-inf")] * n
    for idx in refs.indices(SHAPE):
        t = refs.tile_index(idx, SHAPE, tile)
        v = float(batch[idx])
        lo[t], hi[t] = min(lo[t], v), max(hi[t], v)
    return lo, hi


def step(kind, cfg, state, lo, hi):
    if state is None:
        return lo, hi
    if kind == "running":
        return [min(a, b) for a, b in zip(state[0], lo)], [max(a, b) for a, b in zip(state[1], hi)]
    g = cfg.get("gamma", 1.0)
    return [g * b + (1 - g) * a for a, b in zip(state[0], lo)], [g * b + (1 - g) * a for a, b in zip(state[1], hi)]


def same_params(q, twin):
    for n in ("scale", "offset"):
        a, b = getattr(q, n), getattr(twin, n)
        if (a is None) != (b is None):
            return False
        if a is not None and not (a.shape == b.shape and torch.allclose(a, b, rtol=1e-5, atol=1e-7)):
            return False
    return True


def range_state(q):
    lo, hi = q.quantization_range
    return None if lo is None else (lo.tolist(), hi.tolist())


def groupings(n):
    """All ways to split n batches into consecutive scopes."""
    if n == 0:
        yield []
        return
    for first in range(1, n + 1):
        for rest in groupings(n - first):
            yield [first] + rest


def gen_seq(tier):
    for gran in GRANS:
        for est in ESTIMATORS:
            for sym, one in ((False, True), (True, True), (True, False)):
                yield {"gran": gran, "est": est, "sym": sym, "one": one, "length": 3 if tier == "quick" else 4}


def run_seq(case):
    tile = tile_of(case["gran"])
    per = [stats_of(b, tile) for b in BATCHES]
    kind, cfg = case["est"]
    n = t = 0
    outs = set()
    for length in range(1, case["length"] + 1):
        for seq in itertools.product(range(len(BATCHES)), repeat=length):
            for groups in groupings(length):
                for fail in sorted({-1, 0, len(groups) - 1}):
                    fail = None if fail < 0 else fail
                    if fail is not None and length > case["length"] - 1:
                        continue
                    q, twin = (make_quantizer(case["gran"], case["sym"], case["one"]) for _ in range(2))
                    pos = 0
                    state = None
                    for gi, size in enumerate(groups):
                        state = range_state(q)
                        outside = list(q.overrides)
                        estimator = CLASSES[kind](**cfg) if gi % 2 == 0 else CLASSES[kind]
                        args = {} if gi % 2 == 0 else cfg
                        try:
                            with ff.estimate_ranges(q if gi == 0 else [q], estimator, **args):
                                for b in seq[pos : pos + size]:
                                    x = BATCHES[b]
                                    got = q(x)
                                    state = step(kind, cfg, state, *per[b])
                                    twin.quantization_range = (torch.tensor(state[0]), torch.tensor(state[1]))
                                    check(same_params(q, twin), "range", lambda: f"{case} {seq} {groups}: range {q.quantization_range} expected {state}")
                                    if cfg.get("disable_quantization"):
                                        check(got is x, "output", "expected the data itself")
                                    else:
                                        check(isinstance(got, QuantizedTensor) and torch.equal(got.dequantize(), q.quantize(x).dequantize()), "output", "expected quantized data")
                                    t += 1
                                if fail == gi:
                                    raise Boom()
                        except Boom:
                            check(fail == gi, "exception", "")
                        check(list(q.overrides) == outside == [], "left-over", lambda: f"{case} {seq} {groups} fail={fail}")
                        check(ff.get_strict_quantization(), "mode", "")
                        pos += size
                    # the data seen now no longer influences the range
                    q(torch.full(SHAPE, 100.0))
                    check(same_params(q, twin), "range-after", lambda: f"{case} {seq} {groups}")
                    outs.add(str(state))
                    n += 1
    return Stats(states=len(outs), transitions=t, traces=n, outcome=[case["gran"], case["est"], len(outs)])


# ---------------------------------------------------------------------- whole models


class Net(torch.nn.Module):
    def __init__(self, slots):
        super().__init__()
        qs = {}
        for name, spec in slots.items():
            if spec.startswith("="):
                qs[name] = qs[spec[1:]]
            elif spec == "L":
                qs[name] = make_quantizer(["tensor"])
            elif spec == "D":
                qs[name] = ff.nn.DynamicLinearQuantizer(4)
            else:
                qs[name] = ff.nn.QuantizerStub()
        self.first = torch.nn.Module()
        self.first.q = qs["a"]
        self.second = torch.nn.Module()
        self.second.q = qs["b"]
        self.second.deep = torch.nn.ModuleList([torch.nn.Identity(), qs["c"]])
        self.by_slot = qs
        self.fail_after = None

    def forward(self, x):
        for i, (slot, scale) in enumerate((("a", 1.0), ("b", 2.0), ("c", 3.0))):
            self.by_slot[slot](x * scale)
            if self.fail_after == i:
                raise Boom()
        return x


def selections():
    return {"all": lambda m: m, "first": lambda m: m.first, "second": lambda m: m.second, "pair": lambda m: [m.first, m.second],
            "overlap": lambda m: [m.second, m], "same": lambda m: [m.first, m.first], "none": lambda m: []}


SELECTED = {"all": "abc", "first": "a", "second": "bc", "pair": "abc", "overlap": "bcabc", "same": "aa", "none": ""}


def gen_models(tier):
    for a, b, c in itertools.product("LDS", "LDS=", "LDS="):
        for sel in SELECTED:
            yield {"slots": {"a": a, "b": "=a" if b == "=" else b, "c": "=a" if c == "=" else c}, "sel": sel}


def run_models(case):
    n = 0
    outs = set()
    ests = (["running", {}], ["smoothed", {"gamma": 0.5}], ["running", {"skip_unsupported_quantizers": True}], ["smoothed", {"skip_unsupported_quantizers": True}])
    for (kind, cfg), fail, warm, strict in itertools.product(ests, (None, 0, 1, 2), (False, True), (True, False)):
        net = Net(case["slots"])
        ff.set_strict_quantization(strict)
        ids = {s: id(q) for s, q in net.by_slot.items()}
        selected = {ids[s] for s in SELECTED[case["sel"]]}
        dynamic = any(type(net.by_slot[s]) is ff.nn.DynamicLinearQuantizer for s in SELECTED[case["sel"]])
        twins = {ids[s]: make_quantizer(["tensor"]) for s in "abc"}
        state = {i: None for i in twins}
        linear = {ids[s]: q for s, q in net.by_slot.items() if type(q) is ff.nn.LinearQuantizer}
        need = [q for i, q in linear.items() if warm or i not in selected]
        for q in need:
            q.quantization_range = (-1.5, 1.5)
        for i, q in linear.items():
            state[i] = range_state(q)
            if state[i] is not None:
                twins[i].quantization_range = tuple(torch.tensor(v) for v in state[i])
        pre = {i: ([list(q.overrides)]) for i, q in linear.items()}
        refused = False
        reached = False
        try:
            with ff.estimate_ranges(selections()[case["sel"]](net), CLASSES[kind], **cfg):
                reached = True
                for bi in (0, 1):
                    net.fail_after = fail if bi == 1 else None
                    for i, (slot, scale) in enumerate((("a", 1.0), ("b", 2.0), ("c", 3.0))):
                        if ids[slot] in linear and ids[slot] in selected and (net.fail_after is None or i <= net.fail_after):
                            lo, hi = stats_of(BATCHES[bi] * scale, SHAPE)
                            times = 2 if case["sel"] in ("overlap", "same") else 1
                            del times  # every estimator attached twice follows the same recurrence
                            state[ids[slot]] = step(kind, cfg, state[ids[slot]], lo, hi)
                            twins[ids[slot]].quantization_range = tuple(torch.tensor(v) for v in state[ids[slot]])
                    net(BATCHES[bi])
        except Boom:
            check(fail is not None, "exception", "")
        except TypeError:
            refused = True
        must_refuse = dynamic and not cfg.get("skip_unsupported_quantizers")
        check(refused == must_refuse and reached != must_refuse, "refusal", lambda: f"{case} {kind} {cfg}: refused={refused}")
        for s, q in net.by_slot.items():
            check(not list(q.overrides), "left-over", lambda: f"{case} {kind} {cfg} fail={fail}: {s} keeps {list(q.overrides)}")
        check(ff.get_strict_quantization() == strict, "mode", "")
        for i, q in linear.items():
            if state[i] is None:
                check(q.has_uninitialized_params, "touched", lambda: f"{case} {kind} {cfg}")
            else:
                check(same_params(q, twins[i]), "range", lambda: f"{case} {kind} {cfg} fail={fail} warm={warm}: {q.quantization_range} expected {state[i]}")
        del pre
        outs.add(str(sorted(map(str, state.values()))))
        n += 1
    ff.set_strict_quantization(True)
    return Stats(states=len(outs), transitions=2 * n, traces=n, outcome=[case["sel"], len(outs)])


# ------------------------------------------------------- estimator protocol and reuse


def gen_protocol(tier):
    for fail_at in (None, "split", "prepare0", "prepare1", "prepare2", "body"):
        for modules in range(4):
            yield {"fail": fail_at, "modules": modules}


def run_protocol(case):
    """prepare/cleanup pair up for every module part, also when something raises."""
    log = []

    class Est(RangeEstimator):
        def split_module(self, module):
            for i, child in enumerate(module.children()):
                if case["fail"] == "split" and i == 1:
                    raise Boom()
                yield child

        def prepare(self, module):
            if case["fail"] == f"prepare{sum(1 for e in log if e[0] == 'p')}":
                raise Boom()
            log.append(("p", id(module), len(log)))
            return len(log) - 1

        def cleanup(self, module, metadata):
            log.append(("c", id(module), metadata))

    mods = [torch.nn.Sequential(torch.nn.Identity(), torch.nn.Identity()) for _ in range(case["modules"])]
    raised = ran = False
    try:
        with ff.estimate_ranges(mods, Est()):
            ran = True
            prepared = [e for e in log]
            check(len(prepared) == 2 * len(mods) and all(e[0] == "p" for e in prepared), "prepare", str(log))
            if case["fail"] == "body":
                raise Boom()
    except Boom:
        raised = True
    p = sorted((e[1], e[2]) for e in log if e[0] == "p")
    c = sorted((e[1], e[2]) for e in log if e[0] == "c")
    check(p == c, "cleanup", lambda: f"{case}: prepared {p} cleaned {c}")
    parts = 2 * len(mods)
    want = case["fail"] == "body" or (case["fail"] == "split" and parts) or (str(case["fail"]).startswith("prepare") and int(case["fail"][-1]) < parts)
    check(raised == bool(want), "exception", lambda: f"{case} {raised}")
    # an estimator instance takes no further arguments, and nothing is attached then
    q = make_quantizer(["tensor"])
    try:
        with ff.estimate_ranges(q, range_setting.running_minmax(), disable_quantization=True):
            check(False, "instance-arguments", "")
    except ValueError:
        pass
    check(not list(q.overrides), "left-over", "")
    return Stats(states=len(log) + 1, transitions=len(log), outcome=[case["fail"], len(log), ran])


FAMILIES = [
    Family("sequences", gen_seq, run_seq, "all batch sequences up to a length x all groupings into scopes x exception in first/last scope x granularity x estimator settings x quantizer kind", timeout=600),
    Family("models", gen_models, run_models, "all slot assignments (linear/dynamic/stub/shared) x selections x estimators x exception points x prior initialisation", timeout=300),
    Family("protocol", gen_protocol, run_protocol, "estimator protocol: failure at every split/prepare step and in the body"),
]
