"""C18: quantizer initialisation follows the configured rules and their precedence."""

from __future__ import annotations

import copy
import functools
import itertools

import torch

import fastforward as ff

from fastforward import mpath
from fastforward.exceptions import QuantizationError

from mc.harness import Bad, Family, Stats, check

PROP = "C18"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of rule lists, precedence scores, overwrite policies and collection histories on real models, against a slot-by-slot model of who is initialised by what"
ASSUMPTIONS = [
    "one model with ten quantizer slots in nested modules; no quantizer object occupies two slots",
    "whether slots are initialised before an error is raised is unspecified; slots that no rule selects must never change",
]

LQ = ff.nn.LinearQuantizer


class Custom(ff.nn.Quantizer):
    def __init__(self, level=0):
        super().__init__()
        self.level = level


def build():
    net = torch.nn.ModuleDict({"l1": torch.nn.Linear(2, 3), "l2": torch.nn.ModuleDict({"lin": torch.nn.Linear(3, 2, bias=False), "act": torch.nn.ReLU()})})
    return ff.quantize_model(net)


PROTO = None


def fresh():
    global PROTO
    if PROTO is None:
        PROTO = build()
    return copy.deepcopy(PROTO)


@functools.lru_cache(None)
def slots():
    return tuple(n for n, m in build().named_modules() if isinstance(m, ff.nn.Quantizer))


def tags_of(slot):
    leaf = slot.rsplit(".", 1)[-1]
    kind = leaf.split("_")[0]
    group = "parameter" if kind in ("weight", "bias") else "activation"
    return {group, f"{group}/{kind}"}


# query -> which slots it means, stated independently of the search
QUERIES = {
    "**": lambda s, pre: True,
    "l1/*": lambda s, pre: s.startswith("l1."),
    "**/weight_quantizer": lambda s, pre: s.endswith(".weight_quantizer"),
    "**/[qtag:activation]": lambda s, pre: "activation" in tags_of(s),
    "**/[qtag:parameter/weight]": lambda s, pre: "parameter/weight" in tags_of(s),
    "l2/**/[quantizer:activation/output]": lambda s, pre: s.startswith("l2.") and "activation/output" in tags_of(s),
    "nothing/**": lambda s, pre: False,
    "**/[cls:LQ]": lambda s, pre: s in pre,
    "**/~[qtag:parameter]": lambda s, pre: "parameter" not in tags_of(s),
    "{l1,l2/lin}/[re:(in|out)put_.*]": lambda s, pre: s.startswith(("l1.", "l2.lin.")) and "activation" in tags_of(s),
}
QNAMES = list(QUERIES)
PRESETS = {"none": (), "some": ("l1.weight_quantizer", "l2.lin.output_quantizer"), "act": ("l2.act.input_quantizer", "l1.bias_quantizer", "l1.output_quantizer")}


def prepare(preset):
    model = fresh()
    for name in PRESETS[preset]:
        parent, _, leaf = name.rpartition(".")
        setattr(model.get_submodule(parent), leaf, LQ(7))
    return model


def make_factory(kind, index, log):
    """Returns (factory, kwargs, verify(new quantizer))."""
    if kind == "class":
        return LQ, {"num_bits": 2 + index, "symmetric": False}, lambda q: type(q) is LQ and q.num_bits == 2 + index and q.symmetric is False
    if kind == "custom":
        return Custom, {"level": index}, lambda q: type(q) is Custom and q.level == index
    if kind == "factory":
        return LQ.factory(num_bits=2 + index), {}, lambda q: type(q) is LQ and q.num_bits == 2 + index

    def fn(name, current):
        log.append((index, name, current))
        q = Custom(level=100 + index)
        q.name = name
        return q

    if kind == "partial":
        return functools.partial(fn), {"unused": 1}, lambda q: type(q) is Custom and q.level == 100 + index
    return fn, {"unused": 1}, lambda q: type(q) is Custom and q.level == 100 + index


FACTORIES = ["class", "call", "custom", "factory", "partial"]


class Scored(ff.QuantizationConfig):
    """Rules by an index, weights prefer early rules, inputs are equal."""

    def precedence_score(self, rule, result):
        index = self.index[id(rule)]
        return score("scored", index, result.full_name)

    def add_rule(self, *args, **kwargs):
        super().add_rule(*args, **kwargs)
        self.index = {id(r): i for i, r in enumerate(self._rules)}
        return self


def score(kind, index, name):
    if kind == "plain":
        return 1
    if "weight" in name:
        return -index
    if "input" in name:
        return 0
    return (index * 2) % 3


def rules_for(names):
    return names


def gen_config(tier):
    base = [(q, f) for q in QNAMES for f in ("class", "call")]
    policies = ["error", "skip", "overwrite"]
    for preset in PRESETS:
        for policy in policies:
            for scoring in ("plain", "scored"):
                yield {"rules": [], "preset": preset, "policy": policy, "scoring": scoring}
                for q in QNAMES:
                    for f in FACTORIES:
                        yield {"rules": [[q, f]], "preset": preset, "policy": policy, "scoring": scoring}
                for a, b in itertools.product(base, base):
                    if tier != "quick" or scoring == "plain" or a[1] != b[1]:
                        yield {"rules": [list(a), list(b)], "preset": preset, "policy": policy, "scoring": scoring}
                if tier != "quick" or preset != "act":
                    for i, qs in enumerate(itertools.product(QNAMES, repeat=3)):
                        fs = (("call", "class", "call"), ("class", "call", "custom"), ("factory", "partial", "class"))[i % 3]
                        yield {"rules": [[q, f] for q, f in zip(qs, fs)], "preset": preset, "policy": policy, "scoring": scoring}
                if tier != "quick" and preset == "some":
                    for qs in itertools.product(QNAMES[:7], repeat=4):
                        yield {"rules": [[q, "call"] for q in qs], "preset": preset, "policy": policy, "scoring": scoring}


def snapshot(model):
    return {n: m for n, m in model.named_modules(remove_duplicate=False)}


def meta(q):
    m = q.quant_metadata
    return None if m is None else (tuple(t in m for t in ("parameter", "parameter/weight", "parameter/bias", "activation", "activation/input", "activation/output")), m.shape)


def run_config(case):
    model = prepare(case["preset"])
    pre = PRESETS[case["preset"]]
    before = snapshot(model)
    metas = {s: meta(before[s]) for s in slots()}
    params = {n: p for n, p in model.named_parameters()}
    log = []
    config = Scored() if case["scoring"] == "scored" else ff.QuantizationConfig()
    verify = []
    for i, (q, f) in enumerate(case["rules"]):
        factory, kwargs, ok = make_factory(f, i, log)
        query = q if i % 2 == 0 else mpath.query(q)
        check(config.add_rule(query, factory, **kwargs) is config, "chaining", "")
        verify.append(ok)
    check(isinstance(repr(config), str), "repr", "")
    # who wins every slot
    winner = {}
    for s in slots():
        best = None
        for i, (q, _) in enumerate(case["rules"]):
            if QUERIES[q](s, pre):
                value = score(case["scoring"], i, s)
                if best is None or value >= best[0]:
                    best = (value, i)
        if best is not None:
            winner[s] = best[1]
    conflict = [s for s in winner if s in pre]
    policy = case["policy"]
    raised = False
    try:
        if policy == "error":
            config.initialize(model)
        else:
            config.initialize(model, overwrite_policy=policy)
    except QuantizationError:
        raised = True
    check(raised == (policy == "error" and bool(conflict)), "overwrite-error", lambda: f"{case}: raised {raised}, initialised before: {conflict}")
    after = snapshot(model)
    check(set(n for n in after if n in before) == set(before), "structure", case)
    done = []
    for n, m in before.items():
        now = after[n]
        if n not in slots():
            check(now is m, "module-touched", lambda: f"{case}: {n}")
            continue
        i = winner.get(n)
        if i is None or (policy == "skip" and n in pre):
            check(now is m, "quantizer-touched", lambda: f"{case}: {n} became {now}")
        elif raised and now is m:
            pass
        else:
            check(now is not m and verify[i](now), "wrong-quantizer", lambda: f"{case}: {n} is {now}, should be made by rule {i}")
            done.append(n)
        check(meta(now) == metas[n], "metadata", lambda: f"{case}: {n} {metas[n]} -> {meta(now)}")
    called = [(i, n) for i, n, _ in log]
    expect = [(winner[n], n) for n in done if case["rules"][winner[n]][1] in ("call", "partial")]
    check(sorted(called) == sorted(expect), "factory-calls", lambda: f"{case}: {called} expected {expect}")
    for i, n, current in log:
        check(current is before[n], "factory-argument", lambda: f"{case}: {n}")
    check(all(dict(model.named_parameters()).get(n) is p for n, p in params.items() if "quantizer" not in n), "parameters", case)
    if not raised and policy != "overwrite":
        # a second application with "skip" changes nothing that is initialised now
        config.initialize(model, overwrite_policy="skip")
        again = snapshot(model)
        for s in slots():
            if not isinstance(after[s], ff.nn.QuantizerStub):
                check(again[s] is after[s], "skip-idempotent", lambda: f"{case}: {s}")
    return Stats(states=len(slots()), transitions=len(done), outcome=[sorted(winner.items()), raised, policy])


# ------------------------------------------------------------------ histories of collections

HQ = ["l1/*", "**/[qtag:parameter/weight]", "**/[cls:LQ]"]
H_OPS = [["find", i] for i in range(3)] + [["init", p, safe, f] for p in ("error", "skip", "overwrite") for safe in (True, False) for f in ("class", "call")]
H_OPS += [["set", "l1.weight_quantizer"], ["set", "l2.lin.weight_quantizer"], ["stub", "l1.weight_quantizer"]]


def gen_histories(tier):
    for first in range(3):
        for ops in itertools.product(range(len(H_OPS)), repeat=3 if tier == "quick" else 4):
            yield {"ops": [["find", first]] + [H_OPS[i] for i in ops]}


def slot_set(model, slot, q):
    parent, _, leaf = slot.rpartition(".")
    setattr(model.get_submodule(parent), leaf, q)


def run_history(case):
    model = fresh()
    current = {s: model.get_submodule(s) for s in slots()}
    coll, members = None, {}
    counter = itertools.count()
    states = 0
    for op in case["ops"]:
        where = lambda: f"{case} at {op}"
        if op[0] == "find":
            q = HQ[op[1]]
            pre = [s for s, m in current.items() if isinstance(m, LQ)]
            coll = ff.find_quantizers(model, q)
            members = {s: current[s] for s in slots() if QUERIES[q](s, pre)}
            check({r.full_name: r.module for r in coll} == members and len(coll) == len(members), "find", where)
        elif op[0] in ("set", "stub"):
            new = LQ(5) if op[0] == "set" else ff.nn.QuantizerStub()
            slot_set(model, op[1], new)
            current[op[1]] = new
        else:
            _, policy, safe, kind = op
            order = [r.full_name for r in coll]
            log = []
            index = next(counter)
            factory, kwargs, ok = make_factory(kind, index, log)
            error = None
            try:
                coll.initialize(factory, overwrite_policy=policy, safe=safe, **kwargs)
            except (QuantizationError, ValueError) as e:
                error = e
            # replay on the model, in the order of the collection
            stopped = False
            new_members = dict(members)
            for s in order:
                m = members[s]
                if not isinstance(m, ff.nn.QuantizerStub):
                    if policy == "error":
                        check(isinstance(error, QuantizationError), "overwrite-error", where)
                        stopped = True
                        break
                    if policy == "skip":
                        continue
                if safe and current[s] is not m:
                    check(isinstance(error, ValueError), "unsafe-update", where)
                    stopped = True
                    break
                now = model.get_submodule(s)
                check(now is not m and now is not current[s] and ok(now), "wrong-quantizer", lambda: f"{where()}: {s} is {now}")
                current[s] = new_members[s] = now
            check(stopped == (error is not None), "unexpected-error", lambda: f"{where()}: {error!r}")
            if stopped:
                # what the collection refers to after an error is unspecified
                coll, members = ff.find_quantizers(model, "nothing/**"), {}
            else:
                members = new_members
                check({r.full_name: r.module for r in coll} == members, "collection-updated", where)
        for s in slots():
            check(model.get_submodule(s) is current[s], "slot", lambda: f"{where()}: {s}")
            m = current[s].quant_metadata
            check(m is not None and all(t in m for t in tags_of(s)), "tags", lambda: f"{where()}: {s}: {m}")
        states += 1
    return Stats(states=states, transitions=states, outcome=sorted(s for s in current if not isinstance(current[s], ff.nn.QuantizerStub)))


# ------------------------------------------------------------------ membership of collections


def gen_members(tier):
    for q in QNAMES + ["*", "l2/lin", "**/[cls:torch.nn.Module]"]:
        for preset in PRESETS:
            yield {"query": q, "preset": preset}


def run_members(case):
    model = prepare(case["preset"])
    everything = mpath.search("**", model)
    wanted = mpath.search(case["query"], model)
    coll = ff.QuantizerCollection(model, wanted) if hasattr(ff, "QuantizerCollection") else type(ff.find_quantizers(model, "**"))(model, wanted)
    names = [r.full_name for r in coll]
    check(names == [r.full_name for r in wanted if r.full_name in slots()], "filter", lambda: f"{case}: {names}")
    n = 0
    for item in everything:
        c = type(coll)(model)
        try:
            c.append(item)
        except ValueError:
            check(item.full_name not in slots(), "append-refused", lambda: f"{item.full_name} is a quantizer")
            check(len(c) == 0, "append-kept", item)
        else:
            check(item.full_name in slots(), "append-accepted", lambda: f"{item.full_name} is not a quantizer")
            check([r.full_name for r in c] == [item.full_name], "append", item)
            if isinstance(item.module, ff.nn.QuantizerStub) and case["query"] == "**":
                c.initialize(LQ, num_bits=3)
                check(model.get_submodule(item.full_name).num_bits == 3, "append-initialise", item)
        n += 1
    return Stats(states=n, transitions=n, outcome=names)


FAMILIES = [
    Family("configs", gen_config, run_config, "all lists of up to three rules over the query and factory alphabets x presets x policies x scorings"),
    Family("histories", gen_histories, run_history, "all sequences of find / initialise / replace up to the depth"),
    Family("members", gen_members, run_members, "all queries x all modules of the model"),
]
