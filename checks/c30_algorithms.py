"""C30: layer-wise optimisation runs the requested algorithm on the declared targets with the declared data."""

from __future__ import annotations

import contextlib
import functools
import itertools

import torch

import fastforward as ff

from fastforward import mpath, orchestration
from fastforward._orchestration import data_flow, registry, scheduler

from checks.c22_graphs import gen_dags, node_edges
from mc import graphs
from mc.graphs import Net, build
from mc.harness import Bad, Family, Stats, check

PROP = "C30"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of registration, override and request histories, target specifications and graphs; every step is compared with a reference registry and a direct evaluation of the specification"
ASSUMPTIONS = [
    "overrides are left in the order they are entered (context managers)",
    "an algorithm is not registered again within an override of it",
    "the order of the regions of a target specification is unspecified",
]


# ------------------------------------------------------------------- a model


class Special(torch.nn.Linear):
    pass


class Model(torch.nn.Module):
    """Nested containers; one module is used twice."""

    def __init__(self) -> None:
        super().__init__()
        self.a = torch.nn.Linear(2, 2)
        self.block = torch.nn.Sequential(Special(2, 2), torch.nn.ReLU(), torch.nn.Linear(2, 2))
        self.again = self.block[2]
        self.out = torch.nn.Sequential(torch.nn.Sequential(torch.nn.Linear(2, 2)))

    def forward(self, x):
        return self.out(self.again(self.block(self.a(x))))


class Plain(Model):
    """The same without the reuse."""

    def __init__(self) -> None:
        super().__init__()
        self.again = torch.nn.Linear(2, 2)


def at(model, path):
    return model.get_submodule(path)


ATOMS = {
    "type:Linear": lambda m: torch.nn.Linear,
    "type:Special": lambda m: Special,
    "type:ReLU": lambda m: torch.nn.ReLU,
    "type:Conv1d": lambda m: torch.nn.Conv1d,
    "inst:a": lambda m: at(m, "a"),
    "inst:block.0": lambda m: at(m, "block.0"),
    "inst:block.2": lambda m: at(m, "block.2"),
    "inst:block": lambda m: at(m, "block"),
    "query:**/[cls:torch.nn.Linear]": None,
    "query:block/*": None,
    "query:**/[re:.*0]": None,
    "query:again": None,
    "query:missing/*": None,
}


def atom(model, name):
    kind, text = name.split(":", 1)
    if kind == "query":
        return mpath.query(text, context={"torch": torch})
    return ATOMS[name](model)


def meant(model, name):
    """The modules an atom describes."""
    kind, text = name.split(":", 1)
    if kind == "type":
        cls = ATOMS[name](model)
        return {id(m) for m in model.modules() if isinstance(m, cls)}
    if kind == "inst":
        return {id(at(model, text))}
    named = [(n, m) for n, m in model.named_modules(remove_duplicate=False) if n]
    if text == "**/[cls:torch.nn.Linear]":
        return {id(m) for n, m in named if isinstance(m, torch.nn.Linear)}
    if text == "block/*":
        return {id(m) for n, m in named if n.startswith("block.") and n.count(".") == 1}
    if text == "**/[re:.*0]":
        return {id(m) for n, m in named if n.endswith("0")}
    if text == "again":
        return {id(model.again)}
    return set()


def names_of(model, regions):
    where = {id(m): n for n, m in model.named_modules()}
    return sorted(where.get(id(r), repr(type(r))) for r in regions)


# ------------------------------------------------------------------- targets

WRAPS = ["bare", "list", "tuple", "set", "generator", "selector"]


def spec(model, parts, wrap):
    items = [spec(model, p[1:], p[0]) if isinstance(p, list) else atom(model, p) for p in parts]
    if wrap == "bare":
        return items[0]
    if wrap == "selector":
        return registry.normalize(items[0] if len(items) == 1 else items)
    if wrap == "instances":
        return registry.ModuleInstanceSelector(frozenset(items))
    if wrap == "generator":
        return (i for i in items)
    return {"list": list, "tuple": tuple, "set": set}[wrap](items)


def flat(parts):
    for p in parts:
        if isinstance(p, list):
            yield from flat(p[1:])
        else:
            yield p


def gen_targets(tier):
    names = list(ATOMS)
    for model in ("Model", "Plain"):
        for n in names:
            for wrap in WRAPS:
                yield {"m": model, "p": [n], "w": wrap}
        for k in (2, 3) if tier == "thorough" else (2,):
            for parts in itertools.product(names, repeat=k):
                for wrap in WRAPS[1:]:
                    if k == 3 and wrap in ("tuple", "set"):
                        continue
                    yield {"m": model, "p": list(parts), "w": wrap}
        instances = [n for n in names if n.startswith("inst:")]
        for k in range(1, len(instances) + 1):
            for parts in itertools.combinations(instances, k):
                yield {"m": model, "p": list(parts), "w": "instances"}
        for a, b, c in itertools.product(names, repeat=3):
            if tier == "thorough" or (a, c) in (("type:Linear", "inst:a"), ("inst:block.2", "query:again"), ("query:block/*", "type:ReLU")):
                for inner in ("list", "tuple", "selector"):
                    yield {"m": model, "p": [a, [inner, b, c]], "w": "list"}


def run_targets(case):
    model = {"Model": Model, "Plain": Plain}[case["m"]]()
    other = Plain()
    want = set().union(*[meant(model, n) for n in flat(case["p"])])

    def algorithm(module, *_):
        pass

    where = f"{case['p']} ({case['w']})"
    flows = [data_flow.InputActivations("original")]
    registry.register(algorithm, spec(model, case["p"], case["w"]), flows)
    try:
        for how in ("registered", "spec", "again"):
            kw = {"specs": [orchestration.AlgorithmSpec(algorithm, registry.normalize(spec(model, case["p"], case["w"])), flows)]} if how == "spec" else {"algorithm": algorithm}
            try:
                found = registry.resolve(model, **kw)
            except registry.NoTargetsFound:
                check(not want, "a target specification finds no modules", where)
                continue
            check(want, "a target specification that describes no module is accepted", where)
            regions = [f.region for f in found]
            check({id(r) for r in regions} == want, "a target specification finds other modules than it describes", lambda: f"{where}: {names_of(model, regions)}")
            check(len(regions) == len(want), "a module is targeted more than once", lambda: f"{where}: {names_of(model, regions)}")
            for f in found:
                check(f.fn is algorithm and f.flows == flows, "a region has another algorithm or other data requirements than registered", where)
        instances = [n for n in flat(case["p"]) if n.startswith("inst:")]
        try:
            found = registry.resolve(other, algorithm=algorithm)
        except (ValueError, registry.NoTargetsFound):
            pass
        else:
            check(not instances, "a module that is not part of the model is targeted", where)
            check({id(f.region) for f in found} <= {id(m) for m in other.modules()}, "regions of another model are targeted", where)
        for first in instances:
            # A model that contains some of the instances only
            part = torch.nn.ModuleList([at(model, first.split(":", 1)[1])])
            inside = {id(m) for m in part.modules()}
            foreign = any(not meant(model, n) <= inside for n in instances)
            try:
                found = registry.resolve(part, algorithm=algorithm)
            except (ValueError, registry.NoTargetsFound):
                check(foreign or len(instances) < len(list(flat(case["p"]))), "the modules of a model are refused", where)
            else:
                check(not foreign, "a module that is not part of the model is targeted", f"{where} {first}")
                check({id(f.region) for f in found} <= inside, "regions of another model are targeted", where)
    finally:
        registry._registry._specs.pop(algorithm, None)
    return Stats(3, 4, 1, f"{len(want)}")


INVALID = {
    "empty-list": lambda m: [],
    "empty-tuple": lambda m: (),
    "string": lambda m: "**/a",
    "number": lambda m: 3,
    "none": lambda m: None,
    "class": lambda m: int,
    "list-string": lambda m: [torch.nn.Linear, "a"],
    "list-class": lambda m: [torch.nn.Linear, int],
    "list-number": lambda m: [m.a, 0],
    "nested-empty": lambda m: [m.a, []],
    "nested-string": lambda m: [[torch.nn.Linear], ["a"]],
    "list-none": lambda m: [None],
}


def gen_invalid(tier):
    for before in (False, True):
        for name in INVALID:
            for how in ("register", "override"):
                yield {"i": name, "before": before, "how": how}


def run_invalid(case):
    model = Model()

    def algorithm(module, *_):
        pass

    flows = [data_flow.InputActivations("any")]
    try:
        if case["before"]:
            registry.register(algorithm, torch.nn.Linear, flows)
        try:
            if case["how"] == "register":
                registry.register(algorithm, INVALID[case["i"]](model), flows)
            elif case["before"] and case["i"] != "none":  # None keeps the registered targets
                with registry.override(algorithm, INVALID[case["i"]](model)):
                    raise Bad("an override with an invalid target is accepted", case["i"])
            else:
                raise TypeError
        except TypeError:
            pass
        else:
            raise Bad("an invalid target is accepted", case["i"])
        try:
            found = len(registry.resolve(model, algorithm=algorithm))
        except registry.NoTargetsFound:
            found = 0
        check(found == (4 if case["before"] else 0), "an invalid registration changes the registry", f"{case}: {found}")
    finally:
        registry._registry._specs.pop(algorithm, None)
    return Stats(2, 2, 1, case["i"])


# ------------------------------------------------------------------- histories

TARGETS = {
    "L": (lambda m: torch.nn.Linear, "type:Linear"),
    "R": (lambda m: [m.a, m.block], None),
    "N": (lambda m: torch.nn.Conv1d, "type:Conv1d"),
    "-": (lambda m: None, None),
}
VARIANTS = ["f", "fp", "fpp", "fq", "g"]


def gen_histories(tier):
    """Histories of registrations, (nested) overrides and requests."""
    regs = [["reg", a, t] for a in ("f", "fp", "g") for t in ("L", "R")]
    overs = [["in", a, t] for a in ("f", "fpp", "g") for t in ("R", "N", "-")]
    exits = [["out"], ["raise"]]
    depth = 4 if tier == "quick" else 5

    def rec(hist, stack):
        if hist:
            yield {"h": hist}
        if len(hist) == depth:
            return
        for op in regs:
            if not any(a[0] == op[1][0] for a in stack):
                yield from rec([*hist, op], stack)
        for op in overs:
            yield from rec([*hist, op], [*stack, op[1]])
        for op in exits:
            if stack:
                yield from rec([*hist, op], stack[:-1])

    # only maximal histories: every prefix is observed on the way
    for case in rec([], []):
        if len(case["h"]) == depth:
            yield case


class Stop(Exception):
    pass


def run_histories(case):
    model = Model()
    log = []

    def f(module, *_, x=0, y=0):
        log.append(("f", id(module), x, y))

    def g(module, *_, x=0, y=0):
        log.append(("g", id(module), x, y))

    fp = functools.partial(f, x=1)
    algs = {"f": f, "fp": fp, "fpp": functools.partial(fp, y=2), "fq": functools.partial(f, y=3), "g": g}
    calls = {"f": ("f", 0, 0), "fp": ("f", 1, 0), "fpp": ("f", 1, 2), "fq": ("f", 0, 3), "g": ("g", 0, 0)}
    wanted = {"L": meant(model, "type:Linear"), "R": {id(model.a), id(model.block)}, "N": set()}
    ref = {}  # base -> (variant, target, flows)
    stack = []
    flowno = 0

    def requested(v):
        """The variant which runs when v is requested."""
        return v if v not in ("f", "g") else ref[v[0]][0]

    def observe(where):
        for v in VARIANTS:
            try:
                found = registry.resolve(model, algorithm=algs[v])
            except registry.NoTargetsFound:
                check(v[0] not in ref or not wanted[ref[v[0]][1]], "a registered algorithm has no targets", f"{where}: {v}")
                continue
            check(v[0] in ref, "an algorithm that is not registered has targets", f"{where}: {v}")
            _, target, flow = ref[v[0]]
            check(sorted(id(s.region) for s in found) == sorted(wanted[target]), "an algorithm has other targets than declared", lambda: f"{where}: {v} {names_of(model, [s.region for s in found])}")
            for s in found:
                check(s.flows is flow, "an algorithm has other data requirements than declared", f"{where}: {v}")
                log.clear()
                s.delegate.fn(s.region)
                check(log == [(calls[requested(v)][0], id(s.region), *calls[requested(v)][1:])], "another algorithm runs than requested, or with other arguments", lambda: f"{where}: {v} ran {log[0][0]}(x={log[0][2]}, y={log[0][3]})")

    try:
        for i, op in enumerate(case["h"]):
            where = " ".join("/".join(o) for o in case["h"][: i + 1])
            if op[0] == "reg":
                flowno += 1
                flow = (data_flow.InputActivations("any"),) * flowno
                registry.register(algs[op[1]], TARGETS[op[2]][0](model), flow)
                ref[op[1][0]] = (op[1], op[2], flow)
            elif op[0] == "in":
                base = op[1][0]
                before = ref.get(base)
                cm = registry.override(algs[op[1]], TARGETS[op[2]][0](model))
                try:
                    cm.__enter__()
                except ValueError:
                    check(before is None and op[2] != "-", "an override of a registered algorithm is refused", where)
                    stack.append(None)
                else:
                    check(before is not None or op[2] == "-", "an override of an algorithm that is not registered is accepted", where)
                    if op[2] != "-":
                        ref[base] = (requested(op[1]), op[2], before[2])
                    stack.append((cm, base, before))
            else:
                top = stack.pop()
                if top is not None:
                    cm, base, before = top
                    exc = Stop() if op[0] == "raise" else None
                    try:
                        swallowed = cm.__exit__(type(exc) if exc else None, exc, None)
                    except Stop:
                        swallowed = False
                    check(not swallowed, "an override hides an exception", where)
                    if before is not None:
                        ref[base] = before
            observe(where)
    finally:
        for a in ("f", "g"):
            registry._registry._specs.pop(algs[a], None)
    return Stats(len(case["h"]) + 1, len(case["h"]) * (1 + len(VARIANTS)), 1, str(sorted((k, v[:2]) for k, v in ref.items())))


# ------------------------------------------------------------------- end to end


def gen_optimize(tier):
    for reg in ("f", "fp"):
        for alg in VARIANTS[:4]:
            for t in ("L", "R", "N", "-", "block", "S"):
                for fail in (False, True):
                    yield {"reg": reg, "alg": alg, "t": t, "fail": fail}
    for alg in ("spec", "specs", "two"):
        for t in ("-", "L"):
            yield {"reg": "f", "alg": alg, "t": t, "fail": False}


def run_optimize(case):
    model = Plain().eval()
    log = []

    def f(module, *bundles, x=0, y=0):
        if case["fail"]:
            raise Stop
        log.append((id(module), x, y, [len(list(b)) for b in bundles]))

    fp = functools.partial(f, x=1)
    algs = {"f": f, "fp": fp, "fpp": functools.partial(fp, y=2), "fq": functools.partial(f, y=3)}
    args = {"f": (0, 0), "fp": (1, 0), "fpp": (1, 2), "fq": (0, 3)}
    flows = [data_flow.InputActivations("original")]
    registry.register(algs[case["reg"]], Special, flows)
    targets = {
        "L": (torch.nn.Linear, [m for m in model.modules() if isinstance(m, torch.nn.Linear)]),
        "R": ([model.a, model.block], [model.a, model.block]),
        "N": (torch.nn.Conv1d, []),
        "-": (None, [model.block[0]]),
        "block": ([model.block, model.block[0]], None),
        "S": (mpath.query("block/2"), [model.block[2]]),
    }
    data = [torch.ones(1, 2), torch.zeros(3, 2)]
    given, want = targets[case["t"]]
    alg = case["alg"]
    expect = args[alg if alg != "f" else case["reg"]] if alg in args else None
    if alg in ("spec", "specs", "two"):
        one = orchestration.AlgorithmSpec(algs["fq"], registry.normalize(torch.nn.ReLU), flows)
        two = orchestration.AlgorithmSpec(algs["fq"], registry.normalize(model.a), flows)
        algorithm = {"spec": one, "specs": [one], "two": [one, two]}[alg]
        want = [model.block[1], *([model.a] if alg == "two" else [])]
        expect = args["fq"]
    else:
        algorithm = algs[alg]
    try:
        problem = None
        try:
            orchestration.layerwise_optimize(model, data, algorithm, targets=given)
        except (Stop, ValueError, TypeError, registry.NoTargetsFound) as e:
            problem = type(e)
        where = str(case)
        if expect == args["fq"] and alg != "fq" and given is not None:
            check(problem is TypeError and not log, "targets are accepted in addition to specifications", where)
        elif want is None:
            check(problem is ValueError and not log, "overlapping targets are accepted", f"{where} {problem}")
        elif not want:
            check(problem is registry.NoTargetsFound and not log, "an optimisation without targets is accepted", where)
        elif case["fail"]:
            check(problem is Stop, "an error of an algorithm is hidden", f"{where} {problem}")
        else:
            check(problem is None, "an optimisation fails", f"{where} {problem}")
            check(sorted(e[0] for e in log) == sorted(map(id, want)), "the algorithm does not run exactly once on every target", lambda: f"{where}: {len(log)} of {len(want)}")
            for e in log:
                check(e[1:3] == expect, "another algorithm runs than requested, or with other arguments", lambda: f"{where}: x={e[1]}, y={e[2]}")
                check(e[3] == [2], "the algorithm does not receive every batch", lambda: f"{where}: {e[3]}")
        kept = registry.resolve(model, algorithm=f)
        log.clear()
        case = {**case, "fail": False}
        check([id(s.region) for s in kept] == [id(model.block[0])] and kept[0].flows == flows, "an optimisation changes the registered targets", where)
        kept[0].fn(model.a)
        check(log[0][1:3] == args[case["reg"]], "an optimisation changes the registered algorithm", where)
    finally:
        registry._registry._specs.pop(f, None)
    return Stats(2, 3, 1, str(problem))


# ------------------------------------------------------------------- data flows


def gen_flows(tier):
    for g in gen_dags(2, ["utbf", "utf"], (["x0"], ["x1"])):
        yield {"g": g}
    for g in gen_dags(3, ["ut", "ut", "u"]):
        yield {"g": g}
        yield {"g": kwargs(g)}
    for g in gen_dags(4, ["u", "u", "u", "u"]) if tier == "quick" else gen_dags(4, ["ut", "ut", "uf", "u"]):
        yield {"g": g}
    if tier == "thorough":
        for g in gen_dags(5, ["u"] * 5):
            yield {"g": g}


def kwargs(g):
    """The last argument of nodes with two arguments is passed by keyword."""
    nodes = [{**n, "a": n["a"][:1], "kw": {"k": n["a"][1]}} if len(n["a"]) > 1 else n for n in g["nodes"]]
    return {**g, "nodes": nodes}


def run_flows(case):
    desc = case["g"]
    net = Net(desc)
    graph, _ = build(desc, net)
    refs = {ref.name: ref for ref in graph.topo_order}
    reads, _ = node_edges(desc)
    closure = {}
    for n in sorted(reads, key=lambda s: int(s[1:])):
        closure[n] = set(reads[n]).union(*[closure[r] for r in reads[n]])
    I, O = data_flow.InputActivations, data_flow.OutputActivations
    flows = [I("original"), O("quantized", cache=False), I("any", cache=False), O("original")]
    steps = 0
    for name, ref in refs.items():
        for chosen in ([], flows, flows[::-1], flows[:1]):
            plans = scheduler.bind_flows(graph, ref, chosen)
            check(len(plans) == len(chosen), "not every data flow has a plan", name)
            for flow, plan in zip(chosen, plans):
                steps += 1
                out = isinstance(flow, O)
                want = closure[name] | ({name} if out else set())
                have = [r.name for r in plan.nodes]
                check(sorted(have) == sorted(want), "a data flow executes other nodes than its data depends on", lambda: f"{name} {flow}: {have} {want}")
                for i, n in enumerate(have):
                    check(set(reads[n]) <= set(have[:i]), "a data flow executes a node before its inputs", lambda: f"{name}: {have}")
                node = graph.node(ref)
                if out:
                    check(tuple(plan.reads) == (ref,) and not plan.read_kwargs, "a flow of outputs does not read the region", name)
                else:
                    check(list(plan.reads) == list(node.args) and dict(plan.read_kwargs) == dict(node.kwargs), "a flow of inputs does not read the arguments of the region", name)
                check(plan.flow is flow and plan.generator is flow.generator and plan.cache == flow.cache, "a plan has other settings than its flow", name)
    return Stats(len(refs), steps, len(refs), len(refs))


def gen_generators(tier):
    ops = [["new", "k1"], ["new", "k2"], ["use", "k1"], ["use", "k2"], ["use", "original"], ["use", "k3"], ["direct"]]
    for n in range(1, 5 if tier == "thorough" else 4):
        for h in itertools.product(range(len(ops)), repeat=n):
            yield {"h": [ops[i] for i in h]}


def run_generators(case):
    made = {"original": data_flow.ORIGINAL}
    before = dict(data_flow._generators)
    try:
        for i, op in enumerate(case["h"]):
            if op[0] == "new":
                gen = data_flow.FlowGenerator(op[1], lambda m: contextlib.nullcontext(), order=i)
                check(data_flow.register_generator(gen) is gen, "registering a generator returns another one", "")
                made[op[1]] = gen
            elif op[0] == "direct":
                gen = data_flow.FlowGenerator("k1", lambda m: contextlib.nullcontext(), order=9)
                check(data_flow.InputActivations(gen).generator is gen, "a flow has another generator than declared", str(case))
            else:
                for cls in (data_flow.InputActivations, data_flow.OutputActivations):
                    try:
                        have = cls(op[1]).generator
                    except KeyError:
                        check(op[1] not in made, "a registered generator is not found", str(case))
                    else:
                        check(made.get(op[1]) is have, "a flow has another generator than declared", str(case))
    finally:
        data_flow._generators.clear()
        data_flow._generators.update(before)
    return Stats(len(case["h"]), len(case["h"]), 1, len(made))


def gen_contexts(tier):
    for outer in ("on", "off"):
        for which in itertools.product(("original", "quantized", "any"), repeat=2):
            for fail in (False, True):
                yield {"o": outer, "w": list(which), "fail": fail}


def run_contexts(case):
    """The model state in which the data of a flow is produced."""
    model = ff.nn.QuantizedLinear(2, 2, bias=False)
    with torch.no_grad():
        model.weight.copy_(torch.tensor([[0.3, 0.6], [0.1, 0.9]]))
        model.weight_quantizer = ff.nn.LinearQuantizer(2)
        model.weight_quantizer.quantization_range = (torch.tensor(-1.0), torch.tensor(1.0))
    x = torch.eye(2)

    def run():
        with torch.no_grad(), ff.strict_quantization(False):
            return model(x).clone()

    quantized = run()
    with ff.disable_quantization(model):
        original = run()
    check(not torch.equal(quantized, original), "the model is not quantized", "")
    with ff.disable_quantization(model) if case["o"] == "off" else contextlib.nullcontext():
        base = run()
        want = [base]
        stack = contextlib.ExitStack()
        try:
            with stack:
                for w in case["w"]:
                    stack.enter_context(data_flow.InputActivations(w).generator.context(model))
                    want.append(original if w == "original" else want[-1])
                    check(torch.equal(run(), want[-1]), "a flow runs the model in another state than declared", str(case))
                if case["fail"]:
                    raise Stop
        except Stop:
            pass
        check(torch.equal(run(), base), "a flow changes the state of the model", str(case))
    check(torch.equal(run(), quantized), "a flow changes the state of the model", str(case))
    return Stats(4, 5, 1, str(case["w"]))


FAMILIES = [
    Family("histories", gen_histories, run_histories, "all histories of registrations and nested overrides (2 algorithms, partial variants, 3 targets) of 4 (quick) or 5 operations; 5 requests after every operation"),
    Family("targets", gen_targets, run_targets, "target specifications: 13 atoms, alone, in sequences of up to 2 (quick) or 3 of every kind, nested; models with and without a shared module"),
    Family("invalid", gen_invalid, run_invalid, "invalid target specifications x registered before x register/override"),
    Family("optimize", gen_optimize, run_optimize, "layerwise_optimize: registered variants x requested variants x targets x failing algorithm"),
    Family("flows", gen_flows, run_flows, "data flows of every node of all graphs of up to 4 (quick) or 5 nodes"),
    Family("generators", gen_generators, run_generators, "histories of generator registrations and uses"),
    Family("contexts", gen_contexts, run_contexts, "nested generator contexts on a quantized model"),
]
