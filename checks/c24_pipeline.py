"""C24: export pipelines run every stage once, after and with the results of its dependencies."""

from __future__ import annotations

import itertools
import pathlib
import shutil
import tempfile

import torch

import fastforward as ff  # noqa: F401

from fastforward.export.pipeline import (
    ExportOrchestrator,
    ExportRequest,
    Pipeline,
    PipelineRegistry,
    StageReference,
    export_with_pipeline,
)

from mc.harness import Family, Stats, check, digest

PROP = "C24"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all edit histories of export pipelines; every reached pipeline is executed and compared with a reference model"
ASSUMPTIONS = [
    "up to six stages, edit histories up to depth 2 (3 in the thorough tier) from six initial pipelines",
    "which of two applicable errors a doubly invalid edit raises is not compared",
]


class Rejected(Exception):
    def __init__(self, *kinds):
        self.kinds = kinds


class Model:
    """What the pipeline means: stages in order with their ordered dependencies."""

    def __init__(self):
        self.stages = []  # ids
        self.name, self.deps, self.cap, self.ev = {}, {}, [], []
        self.fresh = 0

    def copy(self):
        m = Model()
        m.stages, m.name, m.cap, m.ev, m.fresh = list(self.stages), dict(self.name), list(self.cap), list(self.ev), self.fresh
        m.deps = {k: list(v) for k, v in self.deps.items()}
        return m

    def find(self, name):
        for s in self.stages:
            if self.name[s] == name:
                return s
        raise Rejected(KeyError)

    def unused(self, name):
        if name in [self.name[s] for s in self.stages]:
            raise Rejected(ValueError)

    def new(self, name, cap, ev=False):
        self.fresh += 1
        s = self.fresh
        self.stages.append(s)
        self.name[s], self.deps[s] = name, []
        if cap:
            self.cap.append(s)
        if ev:
            self.ev.append(s)
        return s

    def reaches(self, a, b):
        seen, stack = set(), [a]
        while stack:
            s = stack.pop()
            if s == b:
                return True
            if s not in seen:
                seen.add(s)
                stack += self.deps.get(s, [])
        return False

    def apply(self, op):
        kind = op[0]
        if kind == "reg":
            self.unused(op[1])
            return self.new(op[1], op[2], op[3])
        if kind == "dep":
            a, b = self.find(op[1]), self.find(op[2])
            if b not in self.deps[a]:
                self.deps[a].append(b)
            return None
        if kind == "foreign":
            self.deps[self.find(op[1])].append(-1)
            return None
        if kind == "before":
            t = self.find(op[1])
            explicit = None if op[3] is None else [self.find(d) for d in op[3]]
            self.unused(op[2])
            s = self.new(op[2], op[4])
            if explicit is None:
                self.deps[s], self.deps[t] = self.deps[t], [s]
            else:
                self.deps[s] = list(dict.fromkeys(explicit))
            return s
        if kind == "after":
            t = self.find(op[1])
            self.unused(op[2])
            s = self.new(op[2], op[3])
            for d in self.stages:
                self.deps[d] = [s if x == t else x for x in self.deps[d]]
            self.deps[s] = [t]
            return s
        if kind == "replace":
            t = self.find(op[1])
            if op[2] is not None and op[2] != op[1]:
                self.unused(op[2])
            self.fresh += 1
            s = self.fresh
            self.stages = [s if x == t else x for x in self.stages]
            self.ev = [s if x == t else x for x in self.ev]
            captured = t in self.cap if op[3] is None else op[3]
            if t in self.cap:
                self.cap = [s if x == t else x for x in self.cap if captured or x != t]
            elif captured:
                self.cap.append(s)
            self.name[s] = op[2] if op[2] is not None else op[1]
            self.deps[s] = self.deps.pop(t)
            self.name.pop(t)
            for d in self.stages:
                self.deps[d] = [s if x == t else x for x in self.deps[d]]
            return s
        if kind == "add":
            a, b = self.find(op[1]), self.find(op[2])
            if self.reaches(b, a):
                raise Rejected(ValueError)
            if b not in self.deps[a]:
                self.deps[a].append(b)
            return None
        if kind == "rm":
            a, b = self.find(op[1]), self.find(op[2])
            if b not in self.deps[a]:
                raise Rejected(KeyError)
            self.deps[a].remove(b)
            return None
        raise ValueError(op)

    def runnable(self):
        return all(d in self.deps for s in self.stages for d in self.deps[s]) and not any(
            self.reaches(d, s) for s in self.stages for d in self.deps[s]
        )

    def canon(self):
        order = {s: i for i, s in enumerate(self.stages)}
        return digest(
            [[self.name[s], [order.get(d, -1) for d in self.deps[s]], s in self.cap, s in self.ev] for s in self.stages]
        )


class Real:
    """The same history on the code; a stage returns a list with its number."""

    def __init__(self, kwargs=None):
        self.pipeline = Pipeline(kwargs)
        self.log, self.fail, self.outputs = [], None, {}

    def fn(self, s):
        def stage(inputs, *, sample_inputs, context):
            self.log.append((s, inputs, sample_inputs, dict(context)))
            context[f"seen{s}"] = s
            if self.fail == s:
                raise ArithmeticError(s)
            self.outputs[s] = [torch.tensor([float(s), 1.0])]
            return self.outputs[s]

        return stage

    def apply(self, op, s):
        p, kind = self.pipeline, op[0]
        if kind == "reg":
            (p.register_eval_stage if op[3] else p.register_stage)(self.fn(s), op[1], capture_stage_output=op[2])
        elif kind == "dep":
            p.get_stage(op[1]).depends_on(p.get_stage(op[2]))
        elif kind == "foreign":
            p.get_stage(op[1]).depends_on(StageReference(self.fn(-1), "F"))
        elif kind == "before":
            p.insert_stage_before(op[1], self.fn(s), op[2], depends_on=op[3], capture_stage_output=op[4])
        elif kind == "after":
            p.insert_stage_after(op[1], self.fn(s), op[2], capture_stage_output=op[3])
        elif kind == "replace":
            p.replace_stage(op[1], self.fn(s), op[2], capture_stage_output=op[3])
        elif kind == "add":
            p.add_dependency(op[1], op[2])
        elif kind == "rm":
            p.remove_dependency(op[1], op[2])


MODULE, SAMPLES = torch.nn.Identity(), [((1,), {})]


def metric(a, b):
    return a[0] * 100 + b[0]


def observe(real, model, where, failing=False):
    """Execute the pipeline and compare with the model."""
    p = real.pipeline
    for s in model.stages:
        got = [d.name for d in p.get_stage(model.name[s]).dependencies]
        want = [model.name.get(d, "F") for d in model.deps[s]]
        check(got == want, "a stage depends on other stages than requested", lambda: f"{where}: {model.name[s]} on {got}, expected {want}")
    real.log.clear()
    real.outputs.clear()
    if not model.runnable():
        try:
            p(MODULE, SAMPLES, eval_metric=metric)
        except ValueError:
            check(not real.log, "stages run although the pipeline is invalid", lambda: f"{where}: {[e[0] for e in real.log]}")
            return "invalid"
        check(False, "a cyclic pipeline or unknown dependency is not rejected", where)
    for real.fail in [None, *model.stages] if failing else [None]:
        real.log.clear()
        real.outputs.clear()
        try:
            results, evals = p(MODULE, SAMPLES, eval_metric=metric)
        except ArithmeticError as e:
            check(real.fail is not None and e.args[0] == real.fail, "a stage fails without reason", where)
            results = None
        check((results is None) == (real.fail is not None), "the failure of a stage is swallowed", where)
        ran = [e[0] for e in real.log]
        check(len(set(ran)) == len(ran), "a stage runs more than once", lambda: f"{where}: {ran}")
        for i, (s, inputs, samples, context) in enumerate(real.log):
            check(set(model.deps[s]) <= set(ran[:i]), "a stage runs before a stage it depends on", lambda: f"{where}: {ran}")
            want = [real.outputs[d] for d in model.deps[s]] or [MODULE]
            check(
                isinstance(inputs, tuple) and len(inputs) == len(want) and all(a is b for a, b in zip(inputs, want)),
                "a stage does not get the results of its dependencies in order",
                lambda: f"{where}: {model.name[s]}",
            )
            check(samples is SAMPLES, "a stage gets other sample inputs", where)
            foreign = {k for k in context if k not in KWARGS and k not in {f"seen{x}" for x in ran[:i]}}
            check(all(context[k] == v for k, v in KWARGS.items()) and not foreign, "a stage gets another context", lambda: f"{where}: {context}")
        if results is None:
            check(ran[-1] == real.fail, "stages run after a failure", where)
            continue
        check(sorted(ran) == sorted(model.stages), "not every stage runs exactly once", lambda: f"{where}: {ran}")
        want = {model.name[s]: real.outputs[s] for s in model.cap}
        check(
            results.keys() == want.keys() and all(results[k] is want[k] for k in want),
            "other results are returned than requested",
            lambda: f"{where}: {sorted(results)}, expected {sorted(want)}",
        )
        got = {(a.name, b.name): float(v) for (a, b), v in evals.items()}
        expect = {(model.name[a], model.name[b]): 100.0 * a + b for a, b in itertools.combinations(model.ev, 2)}
        check(got == expect, "other evaluations are returned", lambda: f"{where}: {got}, expected {expect}")
    real.fail = None
    return digest([[model.name[s] for s in ran]])


KWARGS = {"opt": 1}

STARTS = {
    "empty": [],
    "chain": [["reg", "A", True, False], ["reg", "B", False, False], ["dep", "B", "A"], ["reg", "C", True, False], ["dep", "C", "B"]],
    "join": [["reg", "A", False, True], ["reg", "B", True, True], ["reg", "C", True, True], ["dep", "C", "B"], ["dep", "C", "A"]],
    "diamond": [
        ["reg", "D", True, False], ["reg", "C", False, False], ["reg", "B", True, False], ["reg", "A", False, False],
        ["dep", "D", "B"], ["dep", "D", "C"], ["dep", "C", "A"], ["dep", "B", "A"],
    ],
    "skip": [
        ["reg", "A", False, False], ["reg", "B", False, True], ["reg", "C", True, True],
        ["dep", "B", "A"], ["dep", "C", "A"], ["dep", "C", "B"],
    ],
    "cycle": [["reg", "A", False, False], ["reg", "B", True, False], ["dep", "A", "B"], ["dep", "B", "A"]],
}  # fmt: skip


def edits(model, small):
    """Every edit of this pipeline."""
    names = [model.name[s] for s in model.stages]
    fresh = f"N{len(names)}"
    known = [*names, "?"]
    for n in [fresh, *names[:1]]:
        yield ["reg", n, True, False]
        if not small:
            yield ["reg", n, False, True]
    for a, b in itertools.product(known, known):
        yield ["add", a, b]
        yield ["rm", a, b]
        if not small and a != "?" and b != "?":
            yield ["dep", a, b]
    for t in known:
        for n in [fresh, *names[:1]]:
            yield ["after", t, n, False]
            yield ["before", t, n, None, False]
            if not small:
                yield ["after", t, n, True]
                yield ["before", t, n, None, True]
        explicit = [[], *([d] for d in known), *([list(d) for d in itertools.permutations(known, 2)])]
        for d in explicit[: 2 + len(known)] if small else explicit:
            yield ["before", t, fresh, d, False]
        own = [s for s in model.stages if model.name[s] == t]
        for n in [None, fresh, *names]:
            if own and own[0] in model.deps[own[0]]:  # its dependency on itself has no replacement
                break
            for cap in (None, True, False):
                if not small or cap is None or n is None:
                    yield ["replace", t, n, cap]
    if not small:
        for t in names:
            yield ["foreign", t]


def replay(history):
    real, model = Real(dict(KWARGS)), Model()
    for op in history:
        real.apply(op, model.apply(op))
    return real, model


def attempt(history, op):
    """Apply one more edit; both the code and the model accept or reject it."""
    real, model = replay(history)
    before = model.copy()
    where = str([*history, op])
    try:
        s = model.apply(op)
        kinds = None
    except Rejected as r:
        model, s, kinds = before, -9, r.kinds
    try:
        real.apply(op, s)
        check(kinds is None, "an invalid edit is accepted", where)
    except (KeyError, ValueError) as e:
        check(kinds is not None, "a valid edit is rejected", lambda: f"{where}: {e!r}")
        two = op[0] in ("before", "after", "replace", "add", "rm")
        check(isinstance(e, kinds) or two, "an invalid edit raises another error", lambda: f"{where}: {e!r}")
    return real, model, kinds is None


def run_edits(case):
    start, first, depth = case["start"], case["op"], case["depth"]
    seen, frontier, states, transitions, outcomes = set(), [(STARTS[start], first, 1)], 0, 0, set()
    while frontier:
        history, op, d = frontier.pop()
        real, model, ok = attempt(history, op)
        transitions += 1
        outcomes.add(observe(real, model, str([*history, op]), failing=d == 1))
        if not ok:
            continue
        key = model.canon()
        if key in seen:
            continue
        seen.add(key)
        states += 1
        if d < depth and len(model.stages) <= 5:
            frontier += [([*history, op], nxt, d + 1) for nxt in edits(model, small=True)]
    return Stats(max(states, 1), transitions, transitions, digest(sorted(outcomes)))


def gen_edits(tier):
    for start, ops in STARTS.items():
        model = Model()
        for op in ops:
            model.apply(op)
        for op in edits(model, small=False):
            yield {"start": start, "op": op, "depth": 2}
        if tier == "thorough":
            for op in edits(model, small=True):
                yield {"start": start, "op": op, "depth": 3}


def run_shapes(case):
    """Every dependency relation over the stages, in declaration order."""
    names = "ABCD"[: case["n"]]
    history = [["reg", n, i % 2 == 0, True] for i, n in enumerate(names)]
    history += [["dep", names[a], names[b]] for a, b in case["edges"]]
    real, model = replay(history)
    out = observe(real, model, str(history), failing=len(case["edges"]) < 4)
    observe(real, model, f"{history} (again)")
    return Stats(1, len(history) + 2, 1, out)


def gen_shapes(tier):
    for n in (1, 2, 3):
        pairs = list(itertools.product(range(n), range(n)))
        for k in range(len(pairs) + 1):
            for edges in itertools.combinations(pairs, k):
                yield {"n": n, "edges": list(edges)}
                if n < 3 or k <= 4:
                    yield {"n": n, "edges": list(reversed(edges))}
    pairs = [p for p in itertools.product(range(4), range(4)) if p[0] != p[1]]
    for k in range(len(pairs) + 1 if tier == "thorough" else 6):
        for edges in itertools.combinations(pairs, k):
            yield {"n": 4, "edges": list(edges)}


# --- registry and orchestrator ---------------------------------------------------------

KEYS = [("qnn", "onnx"), ("QNN ", " Onnx"), ("qnn", "onnx2"), ("other", "onnx")]


def norm(key):
    return tuple(k.strip().lower() for k in key)


def run_registry(case):
    registry, model = PipelineRegistry(), {}
    made = []

    def factory(i):
        def f(context):
            made.append((i, context))
            p = Pipeline(context)
            p.register_stage(lambda inputs, *, sample_inputs, context: (i, inputs, dict(context)), "stage", capture_stage_output=True)
            return p

        return f

    factories = [factory(i) for i in range(len(case["ops"]))]
    for i, (k, replace) in enumerate(case["ops"]):
        key = KEYS[k]
        try:
            registry.register(*key, factories[i], replace=replace)
            check(replace or norm(key) not in model, "a duplicate registration is accepted", str(case["ops"]))
            model[norm(key)] = i
        except ValueError:
            check(not replace and norm(key) in model, "a registration is rejected", str(case["ops"]))
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="c24-"))
    try:
        for j, key in enumerate(KEYS):
            want = model.get(norm(key))
            check(registry.has(*key) == (want is not None), "has() is wrong", str(key))
            for own in (False, True):
                own_factory = factory(99)
                options = {"x": j, "y": [j]}
                directory = scratch / f"{j}{own}" / "sub"
                request = ExportRequest(
                    model=MODULE, sample_inputs=SAMPLES, output_dir=str(directory) if own else directory, model_name=f"m{j}",
                    target=key[0], format=key[1], options=options, pipeline_factory=own_factory if own else None,
                )  # fmt: skip
                made.clear()
                try:
                    got = export_with_pipeline(request, ExportOrchestrator(registry))
                except KeyError:
                    check(want is None and not own, "a registered pipeline is not found", str(key))
                    check(not made, "a pipeline is built for an unknown target", str(key))
                    continue
                check(own or want is not None, "an unknown target is exported", str(key))
                i, inputs, context = got.stage_outputs["stage"]
                check(i == (99 if own else want), "another pipeline runs", lambda: f"{key}: {i}")
                check(inputs == (MODULE,), "the pipeline gets another model", str(key))
                check(len(made) == 1 and directory.is_dir(), "the output directory is not made", str(key))
                check(context == {"output_dir": directory, "model_name": f"m{j}", "x": j, "y": [j]}, "the pipeline gets other options", str(context))
                check(options == {"x": j, "y": [j]}, "the options of the request are changed", str(options))
    finally:
        shutil.rmtree(scratch)
    return Stats(len(model) + 1, len(case["ops"]) + 8, 1, str(sorted(model.items())))


def gen_registry(tier):
    ops = list(itertools.product(range(len(KEYS)), (False, True)))
    for depth in range(4 if tier == "thorough" else 3):
        for seq in itertools.product(ops, repeat=depth):
            yield {"ops": [list(o) for o in seq]}


FAMILIES = [
    Family("edits", gen_edits, run_edits, "all edit histories from six pipelines, every reached pipeline is executed"),
    Family("shapes", gen_shapes, run_shapes, "all dependency relations over 1-4 stages, also with every stage failing"),
    Family("registry", gen_registry, run_registry, "all registration histories x all requests"),
]
