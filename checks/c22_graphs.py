"""C22: executing a graph of modules equals direct evaluation, for every way of cutting it up."""

from __future__ import annotations

import contextlib
import itertools

from collections import Counter

import torch
import torch.utils._pytree as pytree

import fastforward as ff  # noqa: F401

from fastforward._orchestration import graph_module as gm
from fastforward._orchestration import instruction_engine as ie
from fastforward._orchestration import scheduler
from fastforward._orchestration.trace import trace

from checks import _trace_models
from mc import graphs
from mc.graphs import ARITY, PATHS, Ctx, Ctx2, Net, T, build, deps, evaluate, freeze, terms
from mc.harness import Family, Stats, check

PROP = "C22"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small computation graphs, insertion orders, ways of feeding them and regions; every one is built, scheduled, reduced and executed on the real engine over a free term algebra and compared with direct evaluation"
ASSUMPTIONS = [
    "values are opaque terms and tuples, lists, dicts, named tuples and data classes of them",
    "structured values are not given as the only positional argument of a graph (there they are batches)",
    "a module used by two nodes is only a region through its first use",
]


def fresh(i, b=""):
    return T(f"x{i}{b}")


def inputs(desc, b):
    """The values of one batch; the second input is a pair."""
    return [(fresh(1, f".0{b}"), fresh(1, f".1{b}")) if i == 1 else fresh(i, b) for i in range(desc["inputs"])]


def feed(desc, mode):
    """How a graph is called: args, kwargs and the batches this means."""
    n = desc["inputs"]
    a, b = inputs(desc, "a"), inputs(desc, "b")
    if mode == "one":
        return tuple(a), {}, [a]
    if mode == "kw":
        return (), {f"x{i}": a[i] for i in reversed(range(n))}, [a]
    if mode == "lists":
        return tuple([p, q] for p, q in zip(a, b)), {}, [a, b]
    if mode == "mixed":
        return (a[0],), {f"x{i}": [a[i], b[i]] for i in range(1, n)}, [a, [a[0], *b[1:]]] if n > 1 else [a]
    if mode == "rows":
        return ([tuple(a), tuple(b)],), {}, [a, b]
    if mode == "dicts":
        return ([{f"x{i}": v for i, v in enumerate(r)} for r in (a, b)],), {}, [a, b]
    raise ValueError(mode)


def batched(desc, mode):
    """The inputs which have a value for every batch."""
    return {"one": set(), "kw": set(), "mixed": set(range(1, desc["inputs"]))}.get(mode, set(range(desc["inputs"])))


MODES = ["one", "kw", "lists", "mixed", "rows", "dicts"]


def depends(desc, ref_or_node, batched):
    """Whether a reference (or node) depends on an input with several batches."""

    def node(i):
        n = desc["nodes"][i]
        return any(ref(r) for r in [*n["a"], *n.get("kw", {}).values()])

    def ref(r):
        return (r[0][0] == "x" and int(r[0][1:]) in batched) or (r[0][0] == "n" and node(int(r[0][1:])))

    return ref(ref_or_node) if isinstance(ref_or_node, list) else node(ref_or_node)


def compare_outputs(desc, got, expected, mode, where):
    """`expected`: the outputs of every batch."""
    want = [freeze(e[0] if len(desc["outs"]) == 1 else e) for e in expected]
    constant = not any(depends(desc, r, batched(desc, mode)) for r in desc["outs"])
    if isinstance(got, dict) and any(isinstance(k, type(gm.DEFAULT_CONTEXT)) for k in got):
        rows = next(v for k, v in got.items() if k is gm.DEFAULT_CONTEXT)
        have = [freeze(v) for v in rows]
    else:
        have = [freeze(got)]
    if constant and len(have) == 1:
        want = want[:1]
    check(have == want, f"{where} computes other outputs", lambda: f"got {have}, expected {want}")


def live_nodes(desc, refs=None):
    stack = [int(r[0][1:]) for r in (refs if refs is not None else desc["outs"]) if r[0][0] == "n"]
    live = set()
    while stack:
        i = stack.pop()
        if i not in live:
            live.add(i)
            stack += deps(desc, i)
    return live


def check_counts(desc, world, expected_infos, mode, where, context="d", units=False):
    """Every live leaf runs exactly once for every batch (once if it depends on no input)."""
    calls = Counter((leaf, args) for leaf, ctx, args in world.log if ctx == context)
    want: Counter = Counter()
    for i in live_nodes(desc):
        n = desc["nodes"][i]
        if n["k"] == "G":
            continue
        infos = expected_infos if depends(desc, i, batched(desc, mode)) else expected_infos[:1]
        leaf = f"n{n['same']}" if "same" in n else f"n{i}"
        for info in infos:
            args, kwargs, _ = info[f"n{i}"]
            want[leaf, ",".join([freeze(a) for a in args] + [f"{k}={freeze(v)}" for k, v in sorted(kwargs.items())])] += 1
    live_leaves = {leaf for leaf, _ in want}
    have = Counter({k: v for k, v in calls.items() if k[0] in live_leaves})
    if units:  # a node that depends on no batch may run along with the others of its region
        once = {k for k in have if want[k] == 1 and have[k] == len(expected_infos)}
        have, want = (Counter({k: v for k, v in c.items() if k not in once}) for c in (have, want))
    check(have == want, f"{where}: a node does not run exactly once for every batch", lambda: f"calls {dict(have)}, expected {dict(want)}")
    for k, v in calls.items():
        check(k[0] in live_leaves or v <= max(1, want.get(k, 1)), f"{where}: a node runs more than once for a batch", lambda: str(k))


class Lifetimes:
    """Values are dead once every node that reads them has run."""

    def __init__(self, desc, world, where):
        self.consumers = {f"n{i}": {f"n{j}" for j in range(len(desc["nodes"])) if i in deps(desc, j)} for i in range(len(desc["nodes"]))}
        self.keep = {f"n{int(r[0][1:])}" for r in desc["outs"] if r[0][0] == "n"}
        self.live = {f"n{i}" for i in live_nodes(desc)}
        self.world, self.where = world, where
        self.ran: list[str] = []

    def __call__(self, leaf):
        ran = {x for x in self.ran if x != leaf}
        for ref, maker in self.world.made:
            if maker in self.keep or maker == leaf or maker not in ran:
                continue
            readers = self.consumers[maker] & self.live
            if maker in self.live and readers <= ran and ref() is not None:
                check(False, f"{self.where}: a value is kept although no node needs it any more", f"{ref()} when {leaf} runs")
        self.ran.append(leaf)


def check_flows(desc, graph, made):
    """What has to run before the inputs or the outputs of a node are available."""
    number = {ref.id: i for i, ref in made.items()}
    for i, ref in made.items():
        before = set()
        stack = deps(desc, i)
        while stack:
            j = stack.pop()
            if j not in before:
                before.add(j)
                stack += deps(desc, j)
        plans = scheduler.bind_flows(graph, ref, [scheduler.InputActivations("original"), scheduler.OutputActivations("original")])
        for plan, want in zip(plans, (before, before | {i})):
            order = [number[r.unwrap_ref().id] for r in plan.nodes]
            check(sorted(order) == sorted(want), "a flow does not run the nodes its values depend on", lambda: f"node {i}: {order}, expected {sorted(want)}")
            check(all(set(deps(desc, j)) <= set(order[:k]) for k, j in enumerate(order)), "a flow runs a node before the nodes it depends on", lambda: f"node {i}: {order}")
        node = graph.node(ref)
        check(tuple(plans[0].reads) == tuple(node.args) and dict(plans[0].read_kwargs) == dict(node.kwargs), "a flow reads other values than the arguments of the node", f"node {i}")
        check(list(plans[1].reads) == [ref] and not plans[1].read_kwargs, "a flow reads other values than the outputs of the node", f"node {i}")


# ---------------------------------------------------------------- plain graphs


def run_plain(case):
    desc, mode, order = case["g"], case["mode"], case.get("order")
    graphs.fix_ids(case.get("ids", 0))
    net = Net(desc)
    graph, made = build(desc, net, order)
    args, kwargs, batches = feed(desc, mode)
    results = [evaluate(desc, b, "d", lambda leaf: 0) for b in batches]
    expected, infos = [r[0] for r in results], [r[1] for r in results]
    flat = not any(n["k"] == "G" or "same" in n for n in desc["nodes"])
    n = 0
    # the model as written computes the same (the oracle and the model agree)
    for b, e in zip(batches, expected):
        graphs.reset()
        check(freeze(net(*b)) == freeze(e[0] if len(e) == 1 else e), "reference model differs", "")
    for lifetime in (False, True):
        w = graphs.reset()
        if lifetime:
            program = ie.InstructionScheduler().schedule(graph)
            program = ie.InstructionPasses.apply(program, [ie.lifetime_management_pass])
            if flat:
                w.on_call = Lifetimes(desc, w, "with released values")
            # rows of batches are only known to graphs
            a2, k2 = feed(desc, "lists")[:2] if mode in ("rows", "dicts") else (args, kwargs)
            outs = ie.InstructionEngine().run(program, *a2, **k2)
            got = outs
            where = "running with released values"
        else:
            got = graph(*args, **kwargs)
            where = "running a graph"
        compare_outputs(desc, got, expected, mode, where)
        if flat:
            check_counts(desc, w, infos, mode, where)
        n += len(w.log)
        del got
    if flat:
        check_flows(desc, graph, made)
    # a second run computes the same
    w = graphs.reset()
    compare_outputs(desc, graph(*args, **kwargs), expected, mode, "running a graph again")
    return Stats(len(desc["nodes"]), n, 3, [freeze(e) for e in expected])


# ---------------------------------------------------------------- generators

REF_BASE = [["x0"], ["c"]]


def pool(nodes, base):
    out = list(base)
    for i, n in enumerate(nodes):
        if n["k"] == "G":
            k = len(n["sub"]["outs"])
            out += [[f"n{i}"]] if k == 1 else [[f"n{i}", j] for j in range(k)]
            continue
        if n["k"] in PATHS:
            out += [[f"n{i}", *p] for p in PATHS[n["k"]]]
            if n["k"] in ("t", "o", "d"):
                out.append([f"n{i}"])
        else:
            out.append([f"n{i}"])
    return out


def node_choices(kind, refs):
    if ARITY[kind] == 0:
        yield {"k": kind, "a": []}
    elif kind == "w":
        for r in refs:
            yield {"k": kind, "a": [], "kw": {"k": r}}
        for r, q in itertools.product(refs, repeat=2):
            yield {"k": kind, "a": [r], "kw": {"k": q}}
    else:
        for rs in itertools.product(refs, repeat=ARITY[kind]):
            if ARITY[kind] == 2 and rs[0] == rs[1] and rs[0][0] == "c":
                continue
            yield {"k": kind, "a": [list(r) for r in rs]}


def out_choices(nodes, mode):
    """Outputs: the last node, everything, reversed with items."""
    used = {int(r[0][1:]) for n in nodes for r in [*n["a"], *n.get("kw", {}).values()] if r[0][0] == "n"}
    sinks = [i for i in range(len(nodes)) if i not in used]
    refs = pool(nodes, [])
    yield [[f"n{i}"] for i in sinks]
    if mode == "sinks":
        return
    everything = [r for r in reversed(refs)]
    if everything != [[f"n{i}"] for i in sinks]:
        yield everything
    if len(refs) > 1:
        yield [refs[-1], refs[0]]


def gen_flat(kinds_per_node, base, ninputs, outs):
    def rec(nodes):
        i = len(nodes)
        if i == len(kinds_per_node):
            for o in out_choices(nodes, outs):
                yield {"inputs": ninputs, "nodes": nodes, "outs": o}
            return
        for kind in kinds_per_node[i]:
            for n in node_choices(kind, pool(nodes, base)):
                yield from rec([*nodes, n])

    yield from rec([])


def gen_plain(tier):
    full = "ubtwsfpldogS"
    base2 = [["x0"], ["x1", 1], ["x1"], ["c", 0]]
    for g in gen_flat([full, full if tier == "thorough" else "ubwd"], base2, 2, "all"):
        for mode in MODES if tier == "thorough" else ["lists", "mixed"]:
            yield {"g": g, "mode": mode}
    for g in gen_flat(["utS", "uw"], base2, 2, "all"):
        for mode in MODES:
            yield {"g": g, "mode": mode}
    three = ["utsd", "ub", "ub"] if tier == "quick" else ["utsdow", "utbw", "ubf"]
    for g in gen_flat(three, [["x0"], ["c", 1]], 1, "all" if tier == "thorough" else "sinks"):
        for mode in ["lists"] if tier == "quick" else ["one", "lists"]:
            yield {"g": g, "mode": mode}
    # insertion orders
    for g in gen_flat(["ut", "ub", "ub"], [["x0"]], 1, "sinks"):
        for order in itertools.permutations(range(3)):
            yield {"g": g, "mode": "lists", "order": list(order)}
    # nodes with the names of the inputs, other node identities
    for g in gen_flat(["utw", "ub"], base2, 2, "all"):
        yield {"g": {**g, "names": "x"}, "mode": "lists", "ids": 1}
    for g in gen_flat(["ut", "ub", "ub"], [["x0"]], 1, "all"):
        for ids in range(1, 4 if tier == "quick" else 12):
            yield {"g": g, "mode": "lists", "ids": ids}
    # a module used twice
    for g in gen_flat(["u", "ub", "u"], [["x0"]], 1, "all"):
        g = {**g, "nodes": [g["nodes"][0], g["nodes"][1], {**g["nodes"][2], "same": 0}]}
        yield {"g": g, "mode": "lists"}


def gen_dags(n, kinds, base=(["x0"],)):
    """All wirings of n nodes with one or two distinct inputs from earlier nodes or inputs."""

    def rec(nodes):
        if len(nodes) == n:
            used = {int(r[0][1:]) for m in nodes for r in m["a"] if r[0][0] == "n"}
            sinks = [i for i in range(n) if i not in used]
            yield {"inputs": len({r[0] for r in base if r[0][0] == "x"}) or 1, "nodes": nodes, "outs": [[f"n{i}"] for i in sinks]}
            return
        refs = [r for r in pool(nodes, base)]
        for k in kinds[len(nodes)]:
            for r in refs:
                yield from rec([*nodes, {"k": k, "a": [r]}])
        for p, q in itertools.combinations(refs, 2):
            yield from rec([*nodes, {"k": "b", "a": [q, p]}])

    yield from rec([])


# ---------------------------------------------------------------- regions


def all_leaves(desc, prefix=""):
    for i, n in enumerate(desc["nodes"]):
        if n["k"] == "G":
            yield from all_leaves(n["sub"], f"{prefix}n{i}.")
        else:
            yield f"{prefix}n{i}", n


def find(net, name):
    obj = net
    for part in name.split("."):
        obj = obj.leaves[int(part[1:])]
    return obj


def node_edges(desc):
    """Leaf-level data flow: leaf -> leaves that read it, resolving nested graphs."""
    reads: dict[str, set] = {}

    def flat(d, prefix, ins):
        made = {}

        def res(ref):
            if ref[0] == "c":
                return set()
            if ref[0][0] == "x":
                return ins[int(ref[0][1:])]
            v = made[int(ref[0][1:])]
            if isinstance(v, list):
                return v[ref[1]] if len(v) > 1 else v[0]
            return v

        for i in graphs.order_of(d):
            n = d["nodes"][i]
            args = [res(r) for r in n["a"]]
            if n["k"] == "G":
                args += [None] * len(n.get("kw", {}))
                for k, r in n.get("kw", {}).items():
                    args[int(k[1:])] = res(r)
                made[i] = flat(n["sub"], f"{prefix}n{i}.", args)
            else:
                reads[f"{prefix}n{i}"] = set().union(*args, *[res(r) for r in n.get("kw", {}).values()])
                made[i] = {f"{prefix}n{i}"}
        return [res(r) for r in d["outs"]]

    outs = set().union(*flat(desc, "", [set() for _ in range(desc["inputs"])]))
    return reads, outs


def region_leaves(desc, region):
    """The leaves of a region, or None if the region is not well formed."""
    reads, _ = node_edges(desc)
    kind, names = region[0], region[1:]
    if kind == "m":
        return {x for x in reads if x == names[0] or x.startswith(names[0] + ".")}
    if kind == "g":
        return set(names)
    start, end = names
    down = {start}
    while True:
        more = {x for x, r in reads.items() if r & down} - down
        if not more:
            break
        down |= more
    up = {end}
    while True:
        more = set().union(*[reads[x] for x in up]) - up
        if not more:
            break
        up |= more
    return down & up


def regions(desc):
    """All regions: modules and folds, spans between leaves, groups of siblings."""
    reads, outs = node_edges(desc)
    leaves = {n: d for n, d in all_leaves(desc)}
    mods = [x for x, d in leaves.items() if d["k"] not in graphs.FUNCTIONS]
    for x in mods:
        yield ["m", x]

    def folds(d, prefix=""):
        for i, n in enumerate(d["nodes"]):
            if n["k"] == "G":
                if n["how"] == "fold":
                    yield f"{prefix}n{i}"
                yield from folds(n["sub"], f"{prefix}n{i}.")

    for f in folds(desc):
        yield ["m", f]
    for a, b in itertools.permutations(mods, 2):
        if region_leaves(desc, ["s", a, b]):
            yield ["s", a, b]
    yield from (["s", a, a] for a in mods[:1])
    # siblings read the same nodes and are read by the same nodes
    readers = {x: {y for y, r in reads.items() if x in r} for x in reads}
    for k in (1, 2, 3):
        for group in itertools.combinations(mods, k):
            if k == 1 and group[0] != mods[0]:
                continue
            if len({frozenset(reads[x]) for x in group}) == 1 and len({frozenset(readers[x]) for x in group}) == 1:
                yield ["g", *reversed(group)]


def cyclic(desc, sets):
    """Whether contracting the leaf sets makes the data flow cyclic."""
    reads, _ = node_edges(desc)
    rep = {x: x for x in reads}
    for k, s in enumerate(sets):
        for x in s:
            rep[x] = f"region{k}"
    edges: dict[str, set] = {}
    for x, r in reads.items():
        edges.setdefault(rep[x], set()).update(rep[y] for y in r if rep[y] != rep[x])
    done: set = set()
    while len(done) < len(edges):
        ready = [n for n in edges if n not in done and edges[n] <= done]
        if not ready:
            return True
        done.update(ready)
    return False


def external_refs(desc, leaves_):
    """Top-level references read by a set of top-level leaves from outside."""
    seen = []
    for i, n in enumerate(desc["nodes"]):
        if f"n{i}" in leaves_:
            for r in [*n["a"], *n.get("kw", {}).values()]:
                if r[0] != "c" and r[0] not in leaves_ and r not in seen:
                    seen.append(r)
    return seen


def run_regions(case):
    desc, regs, mode = case["g"], case["r"], case.get("mode", "lists")
    ctxs = case.get("ctx", [])
    graphs.fix_ids(case.get("ids", 0))
    net = Net(desc)
    graph, _ = build(desc, net, case.get("order"))
    sets = [region_leaves(desc, r) for r in regs]
    args, kwargs, batches = feed(desc, mode)
    seen: list = []
    contexts = [[Ctx(c) if c != "e" else Ctx2(c) for c in cs] for cs in ctxs] if ctxs else [[] for _ in regs]

    def optimise(number):
        def fn(module, *bundles):
            w = graphs.W
            rows = [[(tuple(a), dict(k)) for a, k in b] for b in bundles]
            w.in_delegate = True
            try:
                called = []
                for j, row in enumerate(rows):
                    for a, k in row:
                        structured = [v for v in [*a, *k.values()] if not isinstance(v, T)]
                        if isinstance(module, gm.GraphModule) and structured and len(a) + len(k) == 1:
                            called.append(None)
                        else:
                            with contexts[number][j] if contexts[number] else contextlib.nullcontext():
                                called.append(terms(module(*a, **k)))
            finally:
                w.in_delegate = False
            seen.append((number, module, [[([freeze(v) for v in a], {n: freeze(v) for n, v in k.items()}) for a, k in row] for row in rows], called))
            for m in module.modules():
                if isinstance(m, graphs.Leaf):
                    m.version += 1

        return fn

    def subject(r):
        if r[0] == "m":
            return find(net, r[1])
        if r[0] == "s":
            return gm.Span(find(net, r[1]), find(net, r[2]))
        return gm.Group(tuple(find(net, x) for x in r[1:]))

    def specs():
        return [
            gm.SubgraphSpec(subject(r), optimise(i), [], contexts=contexts[i] or None)
            for i, r in enumerate(regs)
        ]

    overlap = any(a & b for a, b in itertools.combinations(sets, 2))
    if overlap or cyclic(desc, sets):
        try:
            gm.reduce_resolution(graph, specs())
        except ValueError:
            return Stats(1, 1, 1, "refused")
        check(False, "regions that cannot be executed as units are accepted", "overlapping" if overlap else "cyclic")

    functions = {x for x, d in all_leaves(desc) if d["k"] in graphs.FUNCTIONS}  # these have no state
    bumped = set().union(set(), *sets) - functions

    def version(leaf):
        return 1 if leaf in bumped else 0

    results = [evaluate(desc, b, "d", version) for b in batches]
    expected, infos = [r[0] for r in results], [r[1] for r in results]
    n = 0

    def check_delegates(where):
        check(sorted(s[0] for s in seen) == list(range(len(regs))), f"{where}: not every region is optimised exactly once", lambda: str([s[0] for s in seen]))
        for number, module, rows, called in seen:
            r, leaves_ = regs[number], sets[number]
            labels = ctxs[number] if ctxs else ["d"]
            check(len(rows) == len(labels), f"{where}: a delegate does not get one bundle per context", "")
            if r[0] == "m":
                check(module is find(net, r[1]), f"{where}: a delegate gets another module", "")
            done_calls = 0
            for label, row in zip(labels, rows):
                evals = [evaluate(desc, b, label, version) for b in batches]
                # what the region reads, before it is optimised itself
                fixed = [evaluate(desc, b, label, lambda leaf: 0 if leaf in leaves_ else version(leaf)) for b in batches]
                if r[0] == "m":
                    want = [([freeze(a) for a in i[r[1]][0]], {k: freeze(v) for k, v in i[r[1]][1].items()}) for _, i in evals]
                    idx = r[1]
                    value = [terms(i[idx][2]) for _, i in fixed]
                    same = row == want or (row == [] and not any(a or k for a, k in want)) or (len(set(map(repr, want))) == 1 and row == want[:1])
                    check(same, f"{where}: a delegate does not observe the inputs of its module", lambda: f"got {row}, expected {want} in context {label}")
                    calls = called[done_calls : done_calls + len(row)]
                    check(all(c is None or c in value for c in calls), f"{where}: a module called by a delegate computes another value", lambda: f"{calls} {value}")
                elif not any("." in x for x in leaves_):
                    refs = external_refs(desc, leaves_)
                    want_sets = []
                    for (b, (_, i)) in zip(batches, evals):
                        env = {f"x{j}": v for j, v in enumerate(b)}
                        vals = []
                        for ref in refs:
                            v = env[ref[0]] if ref[0] in env else i[ref[0]][2]
                            for key in ref[1:]:
                                v = graphs.take(v, key)
                            vals.append(freeze(v))
                        want_sets.append(sorted(set(vals)))
                    got_sets = [sorted(set([*a, *k.values()])) for a, k in row]
                    check(
                        got_sets == want_sets or (len(set(map(repr, want_sets))) == 1 and got_sets == want_sets[:1]) or not refs,
                        f"{where}: a delegate does not observe the inputs of its region",
                        lambda: f"got {got_sets}, expected {want_sets}",
                    )
                    own = [set().union(*[terms(i[x][2]) for x in leaves_]) for _, i in fixed]
                    calls = called[done_calls : done_calls + len(row)]
                    for j, c in enumerate(calls):
                        check(c is None or set(c) <= (own[j] if len(own) > j else set()), f"{where}: a region called by a delegate computes another value", lambda: f"{c} {own}")
                done_calls += len(row)

    def reset_versions():
        for m in net.modules():
            if isinstance(m, graphs.Leaf):
                m.version = 0
        seen.clear()

    # 1. everything, as one program
    w = graphs.reset()
    reset_versions()
    reduced, _ = gm.reduce_resolution(graph, specs())
    got = reduced(*args, **kwargs)
    compare_outputs(desc, got, expected, mode, "a reduced graph")
    check_delegates("a reduced graph")
    flat = not any(n_["k"] == "G" for n_ in desc["nodes"])
    if flat:
        check_counts(desc, w, infos, mode, "a reduced graph", units=True)
    else:
        for k, v in Counter(w.log).items():
            check(v == 1 or v == len(batches) and "x" not in k[2], "a reduced graph: a node runs more than once for a batch", lambda: str(k))
    n += len(w.log)

    # 2. optimisation only, with values released
    w = graphs.reset()
    reset_versions()
    reduced, _ = gm.reduce_resolution(graph, specs())
    program = ie.InstructionScheduler().schedule(reduced)
    program = ie.InstructionPasses.apply(program, [ie.optimization_only_pass, ie.lifetime_management_pass])
    if regs:
        out = ie.InstructionEngine().run(program, *args, **kwargs)
        check(out is None, "an optimisation returns values", repr(out))
        check_delegates("an optimisation")
        for k, v in Counter(w.log).items():
            check(v == 1 or v == len(batches) and "x" not in k[2], "an optimisation: a node runs more than once for a batch", lambda: str(k))
        if flat:
            reads, _ = node_edges(desc)
            need = set().union(*sets)
            while True:
                more = set().union(*[reads[x] for x in need]) - need
                if not more:
                    break
                need |= more
            extra = {leaf for leaf, _, _ in w.log} - need
            check(not extra, "an optimisation: nodes that no region needs are executed", lambda: str(extra))
    n += len(w.log)
    return Stats(len(desc["nodes"]), n, 2, [freeze(e) for e in expected])


def pairs(desc, limit=None):
    rs = list(regions(desc))
    for r in rs:
        yield [r]
    for a, b in itertools.combinations(rs, 2):
        yield [a, b]
        if a[0] != b[0]:
            yield [b, a]


def gen_regions(tier):
    for g in gen_dags(2, ["utf", "ut"]):
        yield {"g": g, "r": []}
        for r in pairs(g):
            for ctx in ([], [["d1"], ["d2"]][: len(r)], [["d1", "e"], ["e"]][: len(r)], [["d1", "d2"], ["d2"]][: len(r)]):
                for mode in ("one", "lists"):
                    yield {"g": g, "r": r, "ctx": ctx, "mode": mode}
    three = ["ut", "u", "u"] if tier == "quick" else ["utdf", "utf", "ut"]
    for g in gen_dags(3, three):
        for r in pairs(g):
            yield {"g": g, "r": r}
    # nodes with the names of the inputs, other node identities
    for g in gen_dags(3, ["ut", "u", "u"]):
        for r in pairs(g):
            for ids in range(1, 3 if tier == "quick" else 8):
                yield {"g": {**g, "names": "x"} if ids == 1 else g, "r": r, "ids": ids}
    # outputs in the middle, in any order, and items of outputs
    for g in gen_dags(3, ["u", "t", "u"]):
        refs = pool(g["nodes"], [])
        for outs in ([refs[0], refs[-1]], [refs[-1], refs[0]], list(reversed(refs)), [["n1", 1], ["n2"], ["n1", 0]] if g["nodes"][1]["k"] == "t" else [["n1"]]):
            for r in pairs(g):
                if len(r) == 1 or tier == "thorough":
                    yield {"g": {**g, "outs": outs}, "r": r}
    # constants, structured inputs, keyword arguments, no inputs
    for g in gen_flat(["uswo", "uwb" if tier == "thorough" else "uw"], [["x0"], ["c", 1], ["x1", 0]], 2, "sinks"):
        for r in pairs(g):
            if len(r) == 1 or tier == "thorough":
                yield {"g": g, "r": r}
    for g in gen_dags(4, ["u", "u", "u", "u"]):
        for r in pairs(g):
            if tier == "thorough" or (len(r) == 2 and r[0][0] != "m" and r[1][0] != "m") or len(r) == 1 and r[0][0] != "m":
                yield {"g": g, "r": r}
    if tier == "thorough":
        for g in gen_dags(4, ["t", "u", "u", "u"]):
            for r in regions(g):
                yield {"g": g, "r": [r]}
        for g in gen_dags(3, ["u", "u", "u"]):
            rs = list(regions(g))
            for r in itertools.combinations(rs, 3):
                yield {"g": g, "r": list(r)}
            for r in pairs(g):
                for order in itertools.permutations(range(3)):
                    yield {"g": g, "r": r, "order": list(order)}


# ---------------------------------------------------------------- nested graphs

SUBS = [
    # (inputs, nodes, outs)
    {"inputs": 1, "nodes": [{"k": "u", "a": [["x0"]]}], "outs": [["n0"]]},
    {"inputs": 1, "nodes": [{"k": "u", "a": [["x0"]]}, {"k": "u", "a": [["n0"]]}], "outs": [["n1"]]},
    {"inputs": 1, "nodes": [{"k": "u", "a": [["x0"]]}, {"k": "u", "a": [["x0"]]}], "outs": [["n0"], ["n1"]]},
    {"inputs": 1, "nodes": [{"k": "u", "a": [["x0"]]}, {"k": "u", "a": [["n0"]]}], "outs": [["n1"], ["n0"]]},
    {"inputs": 1, "nodes": [{"k": "t", "a": [["x0"]]}, {"k": "u", "a": [["n0", 1]]}], "outs": [["n1"]]},
    {"inputs": 1, "nodes": [{"k": "t", "a": [["x0"]]}, {"k": "u", "a": [["n0", 1]]}], "outs": [["n1"], ["n0", 0]]},
    {"inputs": 1, "nodes": [{"k": "t", "a": [["x0"]]}], "outs": [["n0", 1]]},
    {"inputs": 1, "nodes": [{"k": "t", "a": [["x0"]]}], "outs": [["n0", 1], ["n0", 0]]},
    {"inputs": 1, "nodes": [{"k": "t", "a": [["x0"]]}], "outs": [["n0"]]},
    {"inputs": 2, "nodes": [{"k": "b", "a": [["x1"], ["x0"]]}], "outs": [["n0"]]},
    {"inputs": 2, "nodes": [{"k": "u", "a": [["x0"]]}, {"k": "b", "a": [["n0"], ["x1"]]}], "outs": [["n1"]]},
    {"inputs": 2, "nodes": [{"k": "u", "a": [["x0"]]}, {"k": "u", "a": [["x1"]]}], "outs": [["n1"], ["n0"]]},
    {"inputs": 1, "nodes": [{"k": "b", "a": [["x0"], ["c", 0]]}, {"k": "f", "a": [["n0"]]}], "outs": [["n1"]]},
    {"inputs": 1, "nodes": [{"k": "s", "a": []}, {"k": "b", "a": [["n0"], ["x0"]]}], "outs": [["n1"]]},
    {"inputs": 1, "nodes": [{"k": "o", "a": [["x0"]]}, {"k": "u", "a": [["n0", "b", 0]]}], "outs": [["n1"], ["n0", "a"]]},
]


def nested_sub(how):
    """Folds within folds."""
    inner = SUBS[1]
    yield {"inputs": 1, "nodes": [{"k": "G", "how": how, "sub": inner, "a": [["x0"]]}, {"k": "u", "a": [["n0"]]}], "outs": [["n1"]]}
    yield {"inputs": 1, "nodes": [{"k": "u", "a": [["x0"]]}, {"k": "G", "how": how, "sub": SUBS[3], "a": [["n0"]]}], "outs": [["n1", 1], ["n1", 0]]}
    yield {"inputs": 2, "nodes": [{"k": "G", "how": how, "sub": SUBS[11], "a": [["x0"], ["x1"]]}, {"k": "b", "a": [["n0", 0], ["n0", 1]]}], "outs": [["n1"], ["n0", 0]]}


def gen_nested_graphs(tier, hows=("fold", "inline", "call")):
    for how in hows:
        subs = SUBS + [s for s in nested_sub(how if how != "inline" else "fold")]
        for sub in subs:
            k = sub["inputs"]
            g0 = {"k": "G", "how": how, "sub": sub}
            nouts = len(sub["outs"])
            o = [["n0"]] if nouts == 1 else [["n0", j] for j in range(nouts)]
            # the nested graph comes first
            for args in itertools.product([["x0"], ["x1"], ["x1", 0]] if tier == "thorough" else [["x0"], ["x1", 0]], repeat=k):
                n0 = {**g0, "a": list(args)}
                yield {"inputs": 2, "nodes": [n0], "outs": o}
                for r in o:
                    yield {"inputs": 2, "nodes": [n0, {"k": "u", "a": [r]}], "outs": [["n1"]]}
                    yield {"inputs": 2, "nodes": [n0, {"k": "u", "a": [r]}], "outs": [["n1"], *o]}
                if nouts == 2:
                    yield {"inputs": 2, "nodes": [n0, {"k": "b", "a": [o[1], o[0]]}], "outs": [["n1"]]}
                    yield {"inputs": 2, "nodes": [n0, {"k": "u", "a": [o[1]]}, {"k": "b", "a": [["n1"], o[0]]}], "outs": [["n2"]]}
            # between other nodes
            o1 = [["n1"]] if nouts == 1 else [["n1", j] for j in range(nouts)]
            firsts = [{"k": "u", "a": [["x0"]]}, {"k": "t", "a": [["x0"]]}]
            for first in firsts:
                refs = pool([first], [["x0"]])
                for args in itertools.product(refs, repeat=k):
                    n1 = {**g0, "a": list(args)}
                    yield {"inputs": 1, "nodes": [first, n1, {"k": "b", "a": [o1[-1], refs[1]]}], "outs": [["n2"]]}
                    if nouts == 2:
                        yield {"inputs": 1, "nodes": [first, n1, {"k": "u", "a": [o1[0]]}], "outs": [["n2"], o1[1]]}
            # twice in a row, and keyword arguments
            if nouts == 1 and k == 1:
                yield {"inputs": 1, "nodes": [{**g0, "a": [["x0"]]}, {**g0, "a": [["n0"]]}], "outs": [["n1"]]}
            if k == 2:
                yield {"inputs": 1, "nodes": [{"k": "u", "a": [["x0"]]}, {**g0, "a": [["n0"]], "kw": {"x1": ["x0"]}}, {"k": "u", "a": [o1[0]]}], "outs": [["n2"]]}


def gen_nested(tier):
    for g in gen_nested_graphs(tier):
        for mode in (["lists"] if tier == "quick" else ["one", "lists", "mixed"]):
            yield {"g": g, "mode": mode}


def gen_nested_regions(tier):
    for g in gen_nested_graphs(tier, ("fold", "inline") if tier == "thorough" else ("fold",)):
        yield {"g": g, "r": []}
        for r in pairs(g):
            if len(r) == 1 or tier == "thorough":
                yield {"g": g, "r": r}
    if tier == "quick":
        for sub in (SUBS[3], SUBS[5]):
            g = {
                "inputs": 1,
                "nodes": [{"k": "u", "a": [["x0"]]}, {"k": "G", "how": "fold", "sub": sub, "a": [["n0"]]}, {"k": "b", "a": [["n1", 1], ["n1", 0]]}],
                "outs": [["n2"]],
            }
            for r in pairs(g):
                yield {"g": g, "r": r}


# ---------------------------------------------------------------- malformed graphs


def gen_malformed(tier):
    n = 3 if tier == "quick" else 4
    refs = [["x0"], *[[f"n{i}"] for i in range(n)]]
    for rs in itertools.product(refs, repeat=n):
        yield {"kind": "cycle", "a": [list(r) for r in rs]}
    for what in ("foreign-node", "foreign-input", "foreign-item", "unknown"):
        for pos in range(2):
            for second in (False, True):
                yield {"kind": what, "pos": pos, "second": second}
    for seq in itertools.product(["node", "out", "in", "run"], repeat=4):
        yield {"kind": "grow", "seq": list(seq)}


def run_malformed(case):
    import uuid

    graphs.fix_ids()
    w = graphs.reset()
    g = gm.GraphModule()
    x = g.add_input("x0")
    if case["kind"] == "cycle":
        n = len(case["a"])
        ids = [uuid.uuid4() for _ in range(n)]
        refs = {"x0": x, **{f"n{i}": gm.NodeRef(ids[i], f"n{i}") for i in range(n)}}
        for i, r in enumerate(case["a"]):
            g.add_node(f"n{i}", graphs.Leaf(f"n{i}", "u"), [refs[r[0]]], node_id=ids[i])
        g.add_output(refs[f"n{n - 1}"])
        cyc = False
        for i in range(n):
            cur, steps = f"n{i}", 0
            while cur != "x0" and steps <= n:
                cur, steps = case["a"][int(cur[1:])][0], steps + 1
            cyc |= cur != "x0"
        try:
            out = g(T("x0"))
        except (ValueError, KeyError) as e:
            check(cyc, "an acyclic graph is rejected", str(e))
            check(not w.log, "a cyclic graph is executed in part before it is rejected", str(w.log))
            return Stats(n, n, 1, "rejected")
        check(not cyc, "a cyclic graph is executed", repr(out))
        return Stats(n, n, 1, freeze(out))
    if case["kind"] == "grow":
        # a graph that is extended after it was executed
        descr = {"inputs": 1, "nodes": [], "outs": []}
        last = x
        made = []
        extra = []
        for step in ["node", "out", *case["seq"], "run"]:
            if step == "node":
                k = len(made)
                last = g.add_node(f"n{k}", graphs.Leaf(f"n{k}", "u"), [last])
                descr["nodes"].append({"k": "u", "a": [[f"n{k - 1}"]] if k else [["x0"]]})
                made.append(last)
            elif step == "out":
                g.add_output(last)
                descr["outs"].append([f"n{len(made) - 1}"])
            elif step == "in":
                extra.append(g.add_input(f"x{len(extra) + 1}"))
            else:
                values = [T(f"x{i}") for i in range(1 + len(extra))]
                try:
                    out = g(*values)
                except TypeError as e:
                    check(False, "a graph extended after an execution is executed as before", str(e))
                want, _ = evaluate(descr, values, "d", lambda leaf: 0)
                check(freeze(out) == freeze(want[0] if len(want) == 1 else want), "a graph extended after an execution is executed as before", lambda: f"{out} {want}")
        return Stats(len(made), len(case["seq"]), 1, freeze(out))
    other = gm.GraphModule()
    ox = other.add_input("x0")
    on = other.add_node("n0", graphs.Leaf("foreign", "t"), [ox])
    bad = {"foreign-node": on, "foreign-input": ox, "foreign-item": on[0], "unknown": gm.NodeRef(uuid.uuid4(), "n0")}[case["kind"]]
    a = g.add_node("n0", graphs.Leaf("n0", "b"), [bad if case["pos"] == 0 and i == int(case["second"]) else x for i in range(2)]) if True else None
    b = g.add_node("n1", graphs.Leaf("n1", "b"), [bad if case["pos"] == 1 and i == int(case["second"]) else a for i in range(2)])
    g.add_output(b)
    try:
        out = g(T("x0"))
    except Exception:  # noqa: BLE001
        return Stats(2, 1, 1, "rejected")
    check(False, "a graph with a foreign reference is executed", repr(out))


# ---------------------------------------------------------------- paths of a graph


def reach(edges, roots):
    """All nodes on paths from `roots`."""
    seen, stack = set(), list(roots)
    while stack:
        if (n := stack.pop()) not in seen:
            seen.add(n)
            stack += edges[n]
    return seen


def gen_paths(tier):
    for n in (1, 2, 3):
        yield from ({"what": "cycle", "n": n, "bits": bits} for bits in range(2 ** (n * n)))
    yield from ({"what": "cycle4", "n": 4, "bits": bits} for bits in range(2**12))
    for n in (1, 2, 3, 4):
        pairs = n * (n - 1) // 2
        for bits in range(2**pairs):
            for order in itertools.permutations(range(n)) if n < 4 or tier != "quick" else [tuple(range(n)), tuple(reversed(range(n))), (1, 3, 0, 2)]:
                yield {"what": "dag", "n": n, "bits": bits, "order": list(order)}


def run_paths(case):
    import uuid

    n, bits = case["n"], case["bits"]
    if case["what"] != "dag":
        refs = [gm.NodeRef(uuid.UUID(int=i + 1), f"n{i}") for i in range(n)]
        slots = [(i, j) for i in range(n) for j in range(n) if case["what"] == "cycle" or i != j]
        edges = {i: [j for k, (a, j) in enumerate(slots) if a == i and bits >> k & 1] for i in range(n)}
        cycle = gm.find_cycle({refs[i]: {refs[j] for j in edges[i]} for i in range(n)})
        cyclic = any(i in reach(edges, edges[i]) for i in range(n))
        check((cycle is not None) == cyclic, "find_cycle decides if there is a cycle", lambda: f"{edges}: {cycle}")
        if cycle is not None:
            path = [refs.index(r) for r in cycle]
            check(len(path) > 1 and path[0] == path[-1], "a cycle is closed", lambda: f"{edges}: {path}")
            check(all(b in edges[a] for a, b in zip(path, path[1:])), "a cycle follows the edges", lambda: f"{edges}: {path}")
            check(len(set(path)) == len(path) - 1, "a cycle visits its nodes once", lambda: f"{edges}: {path}")
        return Stats(n, sum(map(len, edges.values())), 1, cyclic)

    slots = [(i, j) for i in range(n) for j in range(i)]
    inputs = {i: [j for k, (a, j) in enumerate(slots) if a == i and bits >> k & 1] for i in range(n)}
    outputs = {i: [j for j in range(n) if i in inputs[j]] for i in range(n)}
    graphs.fix_ids()
    g = gm.GraphModule()
    x = g.add_input("x0")
    ids = [uuid.uuid4() for _ in range(n)]
    refs = [gm.NodeRef(ids[i], f"n{i}") for i in range(n)]
    for i in case["order"]:
        # every input is used twice, once as a keyword
        args = [refs[j] for j in inputs[i]] or [x]
        g.add_node(f"n{i}", graphs.Leaf(f"n{i}", "u"), args, {f"k{k}": a for k, a in enumerate(args)}, node_id=ids[i])
    for i in range(n):
        check([r.id for r in g.node_inputs(refs[i])] == [ids[j] for j in inputs[i]], "node inputs", case)
        got = [r.id for r in g.node_outputs(refs[i])]
        check(sorted(got) == sorted(ids[j] for j in outputs[i]), "node outputs", case)
    order = [ids.index(r.id) for r in gm.topological_sort(g)]
    check(sorted(order) == list(range(n)) and all(order.index(j) < order.index(i) for i in range(n) for j in inputs[i]), "topological order", lambda: f"{inputs}: {order}")
    for i in range(n):
        closure = reach(inputs, [i])
        got = [ids.index(r.id) for r in gm.topological_sort(g, {refs[k] for k in closure})]
        check(sorted(got) == sorted(closure) and all(got.index(b) < got.index(a) for a in closure for b in inputs[a]), "topological order of ancestors", lambda: f"{inputs} {i}: {got}")
    for i, stop in itertools.product(range(n), [None, *range(n)]):
        args = dict(stop=None if stop is None else refs[stop])
        bounded = {k: [] if k == stop else v for k, v in inputs.items()}
        closure = reach(bounded, [i])
        got, reached = gm.ancestors(g, refs[i], **args)
        check({r.id for r in got} == {ids[k] for k in closure}, "ancestors", lambda: f"{inputs} {i} {stop}: {got}")
        check(reached == (stop is None or stop in closure), "ancestors reach", lambda: f"{inputs} {i} {stop}: {got}")
        if stop is None:
            continue
        on_path = closure & reach(outputs, [stop]) if stop in closure else set()
        got, reached = gm.ancestors(g, refs[i], strict=True, **args)
        check({r.id for r in got} == {ids[k] for k in on_path}, "nodes on paths", lambda: f"{inputs} {i} {stop}: {got}")
        check(reached == (stop in closure), "paths reach", lambda: f"{inputs} {i} {stop}: {got}")
    return Stats(n, n * (n + 1), 1, len(reach(inputs, [n - 1])))


# ---------------------------------------------------------------- tracing models


def same(a, b):
    fa, sa = pytree.tree_flatten(a)
    fb, sb = pytree.tree_flatten(b)

    def eq(u, v):
        if isinstance(u, torch.Tensor):
            return isinstance(v, torch.Tensor) and u.shape == v.shape and torch.allclose(u, v, rtol=1e-4, atol=1e-5)
        return u is v or (not isinstance(v, torch.Tensor) and u == v)

    return sa == sb and len(fa) == len(fb) and all(map(eq, fa, fb))


def tensors(seed):
    g = torch.Generator().manual_seed(seed)
    return torch.randn(2, 3, generator=g), torch.randn(2, 3, generator=g)


def quiet():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.WARNING)


def gen_trace(tier):
    seen = set()
    for p in _trace_models.programs(tier):
        for quantize in (False, True) if tier == "thorough" else (p["returns"] in ("one", "dict"),):
            key = (*sorted(p.items()), quantize)
            if key not in seen:
                seen.add(key)
                yield {**p, "quantize": quantize}


def run_trace(case):
    quiet()
    case = dict(case)
    quantized = case.pop("quantize")
    m = _trace_models.Model(**case).eval()
    if quantized:
        for sub in [s for s in m.modules() if type(s) is torch.nn.Linear]:
            sub.__class__ = ff.nn.QuantizedLinear
            sub.__init_quantization__()
            sub.output_quantizer = ff.nn.LinearQuantizer(num_bits=4)
        for q in [s for s in m.modules() if isinstance(s, ff.nn.LinearQuantizer)]:
            q.quantization_range = (-3.0, 3.0)
    before = {n: (p, p.clone()) for n, p in [*m.named_parameters(), *m.named_buffers()]}
    hooks = {n: (len(s._forward_hooks), len(s._forward_pre_hooks), s.training) for n, s in m.named_modules()}
    with ff.strict_quantization(False):
        graph = trace(m, *tensors(1))
        after = dict([*m.named_parameters(), *m.named_buffers()])
        check(after.keys() == before.keys() and all(after[n] is p and torch.equal(p, v) for n, (p, v) in before.items()), "tracing changes the model")
        check(hooks == {n: (len(s._forward_hooks), len(s._forward_pre_hooks), s.training) for n, s in m.named_modules()}, "tracing changes the model")
        batches = [tensors(2), tensors(3)]
        wants = [m(*b) for b in batches]
        check(same(graph(*batches[0]), wants[0]), "a traced graph computes other outputs than the model", lambda: f"{graph(*batches[0])} {wants[0]}")
        outs = graph([b[0] for b in batches], [b[1] for b in batches])
        rows = next(iter(outs.values())) if isinstance(outs, dict) and not isinstance(wants[0], dict) else outs
        if not isinstance(wants[0], dict):
            check(len(rows) == 2 and all(same(r, w) for r, w in zip(rows, wants)), "a traced graph computes other outputs than the model for several batches")
        whole, _ = gm.reduce_resolution(graph, [])
        check(same(whole(*batches[0]), wants[0]), "a traced graph with folded modules computes other outputs than the model", lambda: f"{whole(*batches[0])} {wants[0]}")
        regions = 0
        for name, sub in m.named_modules():
            if not name:
                continue
            calls, seen = [], []
            handle = sub.register_forward_hook(lambda _m, _a, _k, o, calls=calls: calls.append(o), with_kwargs=True)
            for b in batches:
                m(*b)
            handle.remove()

            def delegate(module, bundle, seen=seen):
                seen.append((module, [module(*a, **k) for a, k in bundle]))

            try:
                reduced, _ = gm.reduce_resolution(graph, [gm.SubgraphSpec(sub, delegate, [])])
            except ValueError:
                continue  # no node of the graph executes exactly this module
            check(same(reduced(*batches[0]), wants[0]), "a traced graph cut at a module computes other outputs than the model", name)
            seen.clear()
            reduced(*([b[i] for b in batches] for i in range(2)))
            check(len(seen) == 1 and seen[0][0] is sub, "the delegate of a traced module does not get this module", name)
            per_batch = len(calls) // len(batches)
            check(same(seen[0][1], calls[::per_batch]), "the delegate of a traced module does not observe the inputs of the module", lambda: f"{name} {seen[0][1]} {calls}")
            regions += 1
    return Stats(len(list(m.modules())), regions + 3, 1, f"{regions}")


def variants(m):
    """Ways of tracing and calling the same model."""
    x, y = tensors(1)
    return {
        "x": ((x,), {}),
        "xy": ((x, y), {}),
        "kw": ((x,), {"y": y}),
        "rows": ((x[:1],), {}),
        "half": ((x.double(),), {}),
        "scale": ((x,), {"scale": 0.5}),
        "scale2": ((x,), {"scale": 2.0}),
        "int": ((x,), {"scale": 2}),
        "neg": ((x,), {"mode": "neg"}),
    }


def gen_retrace(tier):
    names = ["x", "xy", "kw", "rows", "half", "scale", "scale2", "int", "neg"]
    for seq in itertools.product(names, repeat=2 if tier == "quick" else 3):
        yield {"seq": list(seq), "change": "none"}
    for change in ("train", "replace", "reclass"):
        for a, b in itertools.product(["x", "scale"], repeat=2):
            yield {"seq": [a, b], "change": change}


def run_retrace(case):
    """A model that is traced several times, for other inputs or after it was changed."""
    quiet()
    m = _trace_models.Block("tuple", 1, "chain").eval()
    m.l2 = torch.nn.Sequential(m.l2, torch.nn.Dropout(0.5))
    m.eval()
    table = variants(m)
    with ff.strict_quantization(False):
        for i, name in enumerate(case["seq"]):
            args, kwargs = table[name]
            if i and case["change"] == "train":
                m.train()
            if i and case["change"] == "replace":
                m.l1 = torch.nn.Linear(3, 3)
            if i and case["change"] == "reclass":
                m.l1 = torch.nn.Sequential(m.l1, torch.nn.Tanh())
            m.double() if name == "half" else m.float()
            graph = trace(m, *args, **kwargs)
            torch.manual_seed(0)
            want = m(*args, **kwargs)
            torch.manual_seed(0)
            got = graph(*args, **kwargs)
            check(same(got, want), "a model that is traced again executes a graph of the previous trace", lambda: f"{case} {got} {want}")
    return Stats(len(case["seq"]), len(case["seq"]), 1, str(case))


FAMILIES = [
    Family("plain", gen_plain, run_plain, "flat graphs (2-3 nodes, all node kinds) x ways of feeding x insertion orders, with and without released values"),
    Family("regions", gen_regions, run_regions, "wirings of 2-4 nodes x all modules, spans, groups and pairs of them x contexts"),
    Family("nested", gen_nested, run_plain, "graphs with nested graphs (folded, inlined, called) x 15+3 inner graphs"),
    Family("nested-regions", gen_nested_regions, run_regions, "graphs with folds x regions inside, outside and across"),
    Family("trace", gen_trace, run_trace, "models around an inner module: 9 return structures x 8 call styles x uses x 7 root outputs, called once, twice or by two names, as a leaf or not; all modules as regions"),
    Family("retrace", gen_retrace, run_retrace, "sequences of traces of a model with other inputs, constants, modes and modules"),
    Family("paths", gen_paths, run_paths, "all digraphs of up to 3 nodes (4 without loops): cycles; all DAGs of up to 4 nodes and insertion orders: inputs, outputs, ancestors and paths of all pairs"),
    Family("malformed", gen_malformed, run_malformed, "cycles, foreign references, graphs extended between executions"),
]
