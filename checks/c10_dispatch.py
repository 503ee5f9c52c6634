"""C10: dispatch picks the newest matching kernel of the best priority."""

from __future__ import annotations

import itertools

import torch

import fastforward as ff

from fastforward import dispatcher
from fastforward.dispatcher import DispatcherPriority, Predicate, dispatch, register
from fastforward.quantization.affine import static as affine_static

from mc.harness import Family, Stats, check

PROP = "C10"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of register/leave/lookup histories on the real dispatcher against a reference registry, and of all predicate expressions up to a size"
ASSUMPTIONS = ["histories up to the stated depth; two operators, three priorities, four predicates, two kernels"]

CALLS = [((0,), {}), ((1,), {}), ((), {"x": 0}), ((1,), {"flag": True})]
PRIOS = [DispatcherPriority.DEFAULT, DispatcherPriority.FALLBACK, DispatcherPriority.NOT_IMPLEMENTED_FALLBACK]


def p_true(x, flag=False):
    return True


def p_zero(x, flag=False):
    return x == 0


def p_flag(x, flag=False):
    return flag


PREDS = {"T": Predicate(p_true), "zero": Predicate(p_zero), "flag": Predicate(p_flag), "none": None, "nzero": ~Predicate(p_zero)}
PFN = {"T": p_true, "zero": p_zero, "flag": p_flag, "none": p_true, "nzero": lambda x, flag=False: x != 0}


def k1(x, flag=False):
    return "k1"


def k2(x, flag=False):
    return "k2"


KERNELS = {"k1": k1, "k2": k2}
counter = itertools.count()


def ops(prefix, small):
    n = sum(1 for p in prefix if p[0] == "reg")
    preds = ["T", "zero"] if small else ["T", "zero", "flag", "none", "nzero"]
    kernels = ["k1", "k2"]
    for op in ("A",) if small else ("A", "B"):
        for pr in preds:
            for k in kernels:
                for prio in (0, 1) if small else (0, 1, 2):
                    if op == "B" and (pr != "T" or prio != 0):
                        continue
                    yield ("reg", op, pr, k, prio)
    if not small:
        yield ("deco", "A", "zero", "k2", 1)
        yield ("deco", "A", "T", "k1", 0)
        yield ("plain", "A", "none", "k2", 0)
    for i in range(n):
        yield ("leave", i)


def histories(prefix, extra, small):
    if extra == 0:
        yield prefix
        return
    for op in ops(prefix, small):
        yield from histories(prefix + [op], extra - 1, small)


def gen(tier):
    for p in histories([], 2, False):
        yield {"prefix": p, "extra": 2, "small": False}
    for p in histories([], 2, True):
        yield {"prefix": p, "extra": 3 if tier == "quick" else 5, "small": True}


def lookup(entries, op, args, kwargs):
    best = None
    for seq, (o, pr, k, prio, live) in enumerate(entries):
        if o == op and live and PFN[pr](*args, **kwargs):
            if best is None or (prio, -seq) < best[0]:
                best = ((prio, -seq), KERNELS[k])
    return best[1] if best else None


def observe(names, entries, where):
    for op in ("A", "B"):
        for args, kwargs in CALLS:
            got = dispatch(names[op], *args, **kwargs)
            want = lookup(entries, op, args, kwargs)
            check(got is want, "lookup", lambda: f"{where}: {op}{args}{kwargs} -> {getattr(got, '__name__', got)}, expected {getattr(want, '__name__', want)}")


def run(case):
    n = t = 0
    seen = set()
    for h in histories([tuple(p) for p in case["prefix"]], case["extra"], case["small"]):
        i = next(counter)
        names = {"A": f"verif-a-{i}", "B": f"verif-b-{i}"}
        hooks, entries, index = [], [], []
        for j, op in enumerate(h):
            if op[0] == "reg":
                hook = register(names[op[1]], PREDS[op[2]], KERNELS[op[3]], PRIOS[op[4]])
                check(hook.__enter__() is None or True, "", "")
                index.append(len(entries))
                hooks.append(hook)
                entries.append([op[1], op[2], op[3], op[4], True])
            elif op[0] == "deco":
                kern = register(names[op[1]], PREDS[op[2]], priority=PRIOS[op[4]])(KERNELS[op[3]])
                check(kern is KERNELS[op[3]], "decorator-result", "")
                entries.append([op[1], op[2], op[3], op[4], True])
            elif op[0] == "plain":
                kern = register(names[op[1]])(KERNELS[op[3]])
                check(kern is KERNELS[op[3]], "decorator-result", "")
                entries.append([op[1], op[2], op[3], op[4], True])
            else:
                exc = (ValueError, ValueError("x"), None) if j % 2 else (None, None, None)
                check(not hooks[op[1]].__exit__(*exc), "exception-swallowed", "")
                entries[index[op[1]]][4] = False
            t += 1
            key = tuple(h[: j + 1])
            if key not in seen:
                seen.add(key)
                observe(names, entries, h[: j + 1])
        for hook, at in zip(hooks, index):
            hook.__exit__(None, None, None)
            entries[at][4] = False
        observe(names, entries, (h, "all left"))
        n += 1
        for nm in names.values():
            check(dispatch(nm + "-unknown", 0) is None, "unknown-operator", "")
    return Stats(states=n, transitions=t, traces=n, outcome=[case["prefix"], n])


# ------------------------------------------------------------------ predicate algebra


def exprs(depth):
    if depth == 0:
        return ["a", "b", "c"]
    sub = exprs(depth - 1)
    base = exprs(0)
    out = list(sub)
    out += [["~", s] for s in sub]
    out += [[o, l, r] for o in "&|" for l in sub for r in (base if depth > 1 else sub)]
    out += [[o, l, r] for o in "&|" for l in base for r in sub] if depth > 1 else []
    return out


def gen_pred(tier):
    es = exprs(2 if tier == "quick" else 3)
    chunk = 50 if tier == "quick" else 500
    for i in range(0, len(es), chunk):
        yield {"exprs": es[i : i + chunk]}


def run_pred(case):
    atoms = {k: Predicate(lambda a, b, c, k=k: {"a": a, "b": b, "c": c}[k]) for k in "abc"}

    def build(e):
        if isinstance(e, str):
            return atoms[e]
        if e[0] == "~":
            return ~build(e[1])
        return build(e[1]) & build(e[2]) if e[0] == "&" else build(e[1]) | build(e[2])

    def val(e, env):
        if isinstance(e, str):
            return env[e]
        if e[0] == "~":
            return not val(e[1], env)
        return (val(e[1], env) and val(e[2], env)) if e[0] == "&" else (val(e[1], env) or val(e[2], env))

    n = 0
    for e in case["exprs"]:
        p = build(e)
        for vals in itertools.product((True, False), repeat=3):
            env = dict(zip("abc", vals))
            check(bool(p(*vals)) == bool(val(e, env)), "predicate", lambda: f"{e} {env}")
            check(bool(p(**env)) == bool(val(e, env)), "predicate-keywords", lambda: f"{e} {env}")
            n += 1
    return Stats(states=n, transitions=2 * n, traces=n, outcome=[str(case["exprs"][0]), n])


# ------------------------------------------------------------------ effect on operators


def gen_effect(tier):
    for op in ("relu", "add", "linear", "softmax"):
        for order in itertools.permutations(range(3)):
            yield {"op": op, "order": order}


def run_effect(case):
    """Scoped kernels take over operators exactly while registered, for every exit order."""
    x = affine_static.quantize_per_tensor(torch.tensor([[-1.0, 0.5], [1.0, 2.0]]), torch.tensor([0.5]), None, 4)
    args = {"relu": (x,), "add": (x, x), "linear": (x, x), "softmax": (x, 0)}[case["op"]]
    op = getattr(ff.nn.functional, case["op"])
    with ff.strict_quantization(False):
        want = op(*args)
    marks = [torch.tensor(float(i)) for i in range(3)]
    hooks = {}
    live = []
    n = 0

    def now():
        with ff.strict_quantization(False):
            got = op(*args)
        if live:
            check(got is marks[live[-1]], "kernel-not-used", lambda: f"{case} live={live}: {got}")
        else:
            check(torch.equal(got, want), "operator-changed", lambda: f"{case}: {got} {want}")

    for i in range(3):
        hooks[i] = register(case["op"], Predicate(lambda *a, **k: True), lambda *a, i=i, **k: marks[i])
        live.append(i)
        now()
        n += 1
    for i in case["order"]:
        with hooks[i]:
            pass
        live.remove(i)
        now()
        n += 1
    return Stats(states=n, transitions=n, traces=1, outcome=[case["op"], want.tolist()])


FAMILIES = [
    Family("histories", gen, run, "all register (scope/decorator) / leave histories in any order with lookups after every step", timeout=300),
    Family("predicates", gen_pred, run_pred, "all predicate expressions up to a depth x all truth assignments"),
    Family("operators", gen_effect, run_effect, "operators x all exit orders of three scoped kernels"),
]
