"""C23: offloading moves values and weights so that every node computes on the compute device."""

from __future__ import annotations

import dataclasses
import itertools

import torch

import fastforward as ff  # noqa: F401

from fastforward import orchestration
from fastforward._orchestration import graph_module as gm
from fastforward._orchestration import instruction_engine as ie
from fastforward._orchestration import registry

from checks.c22_graphs import cyclic, gen_dags, gen_flat, pairs, region_leaves
from mc import devices, graphs
from mc.devices import FT, NAMES, values
from mc.graphs import Net, build, evaluate, freeze
from mc.harness import Family, Stats, check

PROP = "C23"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small graphs, regions and initial placements; the real passes and engine run on tensors with a simulated device, and every node checks where its arguments and weights are"
ASSUMPTIONS = [
    "devices are simulated by a tensor subclass that intercepts device, to and data",
    "no delegate raises",
]


def prepare(desc, weights):
    """The model with one parameter and one buffer per module; `weights`: device per module."""
    net = Net(desc)
    names = itertools.cycle(weights)
    for m in net.modules():
        if isinstance(m, graphs.Leaf) and not hasattr(m, "weight"):
            m.weight = torch.nn.Parameter(FT.make(f"{m.leaf}.weight", NAMES[next(names)]))
            m.register_buffer("stat", FT.make(f"{m.leaf}.stat", NAMES[next(names)]))
    return net


def place(net):
    return {n: p.device for n, p in [*net.named_parameters(), *net.named_buffers()]}


class Monitor:
    def __init__(self, net, compute, storage, where):
        self.net, self.compute, self.storage, self.where = net, compute, storage, where
        self.leaves = {m.leaf: m for m in net.modules() if isinstance(m, graphs.Leaf)}
        self.unit = {}  # leaf -> leaves of its region
        self.calls = 0

    def __call__(self, leaf, args, kwargs):
        self.calls += 1
        for v in values([args, kwargs]):
            check(v.dev == self.compute, f"{self.where}: a node reads a value that is not on the compute device", lambda: f"{leaf.leaf} reads {v!r}")
        if isinstance(leaf, graphs.Leaf):
            for p in (leaf.weight, leaf.stat):
                check(p.device == self.compute, f"{self.where}: a module runs with weights that are not on the compute device", lambda: f"{leaf.leaf}: {p.key} on {p.device}")
        together = self.unit.get(leaf.leaf, {leaf.leaf})
        for name, m in self.leaves.items():
            # a function does not release the module before it
            if name not in together and isinstance(leaf, graphs.Leaf):
                for p in (m.weight, m.stat):
                    check(p.device == self.storage, f"{self.where}: the weights of an idle module are not on the storage device", lambda: f"{p.key} on {p.device} when {leaf.leaf} runs")


def batch(desc, b, places):
    def make(key, i):
        return FT.make(key, NAMES[places[i % len(places)]])

    return [(make(f"x1.0{b}", i), make(f"x1.1{b}", i)) if i == 1 else make(f"x{i}{b}", i) for i in range(desc["inputs"])]


def run_program(case):
    desc, regs = case["g"], case.get("r", [])
    compute, storage = NAMES[case["compute"]], NAMES[case["storage"]]
    graphs.fix_ids(case.get("ids", 0))
    net = prepare(desc, case["weights"])
    sets = [region_leaves(desc, r) for r in regs]
    if any(a & b for a, b in itertools.combinations(sets, 2)) or cyclic(desc, sets):
        return Stats(1, 1, 0, "refused")
    original = place(net)
    keys = {n: p.key for n, p in [*net.named_parameters(), *net.named_buffers()]}
    functions = {f"n{i}" for i, n in enumerate(desc["nodes"]) if n["k"] in graphs.FUNCTIONS}
    bumped = set().union(set(), *sets) - functions
    # outputs which no node reads
    read = {r[0] for n in desc["nodes"] for r in [*n["a"], *n.get("kw", {}).values()]}
    idle = {i for i, r in enumerate(desc["outs"]) if r[0][0] == "n" and r[0] not in read}
    calls = 0
    passes_of = {
        "full": [],
        "released": [ie.lifetime_management_pass],
        "optimise": [ie.optimization_only_pass, ie.lifetime_management_pass],
    }
    for how in case.get("how", ["full", "released", *(["optimise", "layerwise"] if regs else [])]):
        for m in net.modules():
            if isinstance(m, graphs.Leaf):
                m.version = 0
        seen = []

        def delegate(module, *bundles):
            graphs.W.in_delegate = True
            for b in bundles:
                rows = list(b)
                for a, k in rows:
                    for v in values([a, k]):
                        check(v.dev == compute, "a delegate reads a value that is not on the compute device", lambda: repr(v))
                for p in [*module.parameters(), *module.buffers()]:
                    check(p.device == compute, "a delegate reads weights that are not on the compute device", lambda: f"{p.key} on {p.device}")
                if not isinstance(module, gm.GraphModule):
                    for a, k in rows:
                        module(*a, **k)
            graphs.W.in_delegate = False
            seen.append(module)
            for m in module.modules():
                if isinstance(m, graphs.Leaf):
                    m.version += 1

        graph, _ = build(desc, net)
        batches = [batch(desc, b, case["inputs"]) for b in "ab"]
        w = graphs.reset()
        w.on_arguments = monitor = Monitor(net, compute, storage, f"offloading ({how})")
        for s in sets:
            for leaf in s:
                monitor.unit[leaf] = s
        w.term = lambda key: FT.make(key, compute)  # the arguments of every node are there
        strategy = ie.OffloadEverything(compute_device=compute, storage_device=storage)
        subjects = [subject(net, r) for r in regs]
        args = [list(v) for v in zip(*batches)]
        if how == "layerwise":
            specs = [orchestration.AlgorithmSpec(fn=delegate, selector=Listed([s]), flows=[]) for s in subjects]
            data = args[0] if desc["inputs"] == 1 else [tuple(r) for r in zip(*args)]
            orchestration.layerwise_optimize(net, data, specs, graph=graph, offloading=strategy)
            out = None
        else:
            reduced, _ = gm.reduce_resolution(graph, [gm.SubgraphSpec(s, delegate, []) for s in subjects])
            program = ie.InstructionScheduler().schedule(reduced)
            program = ie.InstructionPasses.apply(program, [*passes_of[how], strategy.create_instruction_pass(reduced)])
            out = ie.InstructionEngine().run(program, *args)
        check(len(seen) == len(regs), f"offloading ({how}): not every region is optimised exactly once", str(seen))
        after = place(net)
        check(after == original, f"offloading ({how}): weights are not restored to their devices", lambda: str({k: (str(v), str(after[k])) for k, v in original.items() if after[k] != v}))
        check({n: p.key for n, p in [*net.named_parameters(), *net.named_buffers()]} == keys, f"offloading ({how}): weights are exchanged", "")
        if how in ("full", "released"):
            want = [evaluate(desc, b, "d", lambda leaf: int(leaf in bumped))[0] for b in batches]
            want = [freeze(e[0] if len(desc["outs"]) == 1 else e) for e in want]
            rows = next(v for k, v in out.items() if k is gm.DEFAULT_CONTEXT)
            have = [freeze(v) for v in rows]
            check(have == want or have == want[:1], f"offloading ({how}) computes other outputs", lambda: f"{have} {want}")
            for v in values([pick(desc, v, idle) for v in rows]):
                check(v.dev == storage, f"offloading ({how}): an output is not moved to the storage device", lambda: repr(v))
        else:
            check(out is None, "an optimisation returns values", repr(out))
        calls += monitor.calls
    return Stats(len(desc["nodes"]), calls, 2, f"{calls}")


class Listed(orchestration.Selector):
    def __init__(self, regions):
        self.regions = regions

    def resolve(self, model):
        return self.regions


def pick(desc, out, which):
    """The outputs which are numbered `which`."""
    return [v for i, v in enumerate([out] if len(desc["outs"]) == 1 else out) if i in which]


def find_leaf(net, name):
    return net.leaves[int(name[1:])]


def subject(net, r):
    if r[0] == "m":
        return find_leaf(net, r[1])
    if r[0] == "s":
        return gm.Span(find_leaf(net, r[1]), find_leaf(net, r[2]))
    return gm.Group(tuple(find_leaf(net, x) for x in r[1:]))


PLACES = [
    {"compute": "gpu", "storage": "cpu", "weights": w, "inputs": x}
    for w in (["cpu"], ["gpu"], ["gpu", "cpu"], ["cpu", "gpu", "gpu1"])
    for x in (["cpu"], ["gpu"], ["cpu", "gpu"])
] + [
    {"compute": "cpu", "storage": "gpu", "weights": ["cpu", "gpu"], "inputs": ["cpu"]},
    {"compute": "cpu", "storage": "cpu", "weights": ["cpu"], "inputs": ["cpu"]},
    {"compute": "gpu", "storage": "gpu1", "weights": ["cpu"], "inputs": ["cpu"]},
]


def gen_programs(tier):
    full = "ubtwfpldogS"
    base2 = [["x0"], ["x1", 1], ["x1"], ["c", 0]]
    for g in gen_flat([full, full if tier == "thorough" else "ubwfd"], base2, 2, "all"):
        for p in PLACES if tier == "thorough" else (PLACES[2], PLACES[6]):
            yield {"g": g, **p}
    for g in gen_flat(["ut", "uf"], base2, 2, "all"):
        for p in PLACES:
            yield {"g": g, **p}
    # constants that are tensors
    for g in gen_flat(["ut", "ubfg"], [["x0"], ["c", 0], ["c"]], 2, "sinks"):
        refs = [r for n in g["nodes"] for r in [*n["a"], *n.get("kw", {}).values()]]
        if any(r[0] == "c" for r in refs):
            for p in PLACES[2:7]:
                for c in ("cpu", "gpu"):
                    yield {"g": {**g, "const": c}, **p}
    for g in gen_flat(["utof", "ubf", "ubf"], [["x0"]], 1, "all" if tier == "thorough" else "sinks"):
        for p in (PLACES if tier == "thorough" else PLACES[2:4]):
            yield {"g": g, **p}
    # a module used twice
    for g in gen_flat(["u", "ub", "u"], [["x0"]], 1, "all"):
        for same in (0, 1):
            if g["nodes"][same]["k"] == "u":
                g2 = {**g, "nodes": [g["nodes"][0], g["nodes"][1], {**g["nodes"][2], "same": same}]}
                for p in PLACES[:7]:
                    yield {"g": g2, **p}


def gen_optimise(tier):
    for g in gen_dags(2, ["utfo", "ut"]):
        for r in pairs(g):
            for p in PLACES if tier == "thorough" else (PLACES[0], PLACES[3], PLACES[6]):
                yield {"g": g, "r": r, **p}
    for g in gen_dags(3, ["ut", "uf", "u"]):
        for r in pairs(g):
            for p in PLACES[2:8] if tier == "thorough" else PLACES[6:7]:
                yield {"g": g, "r": r, **p}
    if tier == "thorough":
        for g in gen_dags(4, ["u", "u", "u", "u"]):
            for r in pairs(g):
                yield {"g": g, "r": r, **PLACES[6]}


FAMILIES = [
    Family("programs", gen_programs, run_program, "graphs of 2-3 nodes of all kinds x initial devices of weights and inputs"),
    Family("optimise", gen_optimise, run_program, "graphs of 2-4 nodes x modules, spans, groups and pairs of them as regions x initial devices"),
]
