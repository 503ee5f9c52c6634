"""C08: quantizer overrides stack, compose and come off in any order."""

from __future__ import annotations

import copy
import gc
import itertools

import torch

import fastforward as ff

from mc.harness import Family, Stats, check

PROP = "C08"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of register/call/remove/copy/delete histories on real quantizers against a reference stack"
ASSUMPTIONS = [
    "histories up to the stated depth over two quantizers (plus copies); overrides are drawn from a fixed list of behaviours",
    "an override registered or removed while a call is in progress takes effect from the next call on",
]


class Boom(Exception):
    pass


# An override behaviour is written once, against `env`; it is run by the real stack and by the reference.


def make(kind, uid, env):
    def override(context, fn, args, kwargs):
        env.events.append((uid, kind, env.name(context), args[0]))
        (x,) = args
        if kind == "through":
            return fn(x) + 1
        if kind == "kwargs":
            return fn(*args, **kwargs) * 2
        if kind == "twice":
            return fn(x) + 10 * fn(x + 3)
        if kind == "thrice":
            a = fn(x)
            env.events.append((uid, "between"))
            return a + 100 * fn(x + 1) + 1000 * fn(x + 2)
        if kind == "block":
            return x + 7
        if kind == "retry":
            try:
                return fn(x)
            except Boom:
                return fn(x + 5) - 1
        if kind == "raise":
            if x < 3:
                raise Boom(uid)
            return fn(x)
        if kind == "remove-self":
            env.remove(uid)
            return fn(x) + 20
        if kind == "remove-below":
            env.remove(uid - 1)
            return fn(x) + 30
        if kind == "add":
            if env.added < 2:
                env.added += 1
                env.register(env.name(context), "through")
            return fn(x) + 40
        if kind == "other":
            other = 1 - env.name(context) if env.name(context) in (0, 1) else 0
            return fn(x) + env.call(other, 2) * 3 if env.depth < 3 else fn(x)
        raise AssertionError(kind)

    return override


KINDS = ["through", "twice", "block", "raise", "retry", "remove-self", "remove-below", "add", "other", "kwargs", "thrice"]


class Base(ff.nn.Quantizer):
    def __init__(self, env, name):
        super().__init__()
        object.__setattr__(self, "env", env)
        object.__setattr__(self, "label", name)

    def quantize(self, data):
        self.env.events.append(("base", self.label, data))
        return data * 5


class Env:
    def __deepcopy__(self, memo):
        return self

    def __init__(self):
        self.events = []
        self.added = 0
        self.depth = 0
        self.uid = 0


class Real(Env):
    def __init__(self):
        super().__init__()
        self.quantizers = {i: Base(self, i) for i in (0, 1)}
        self.handles = {}

    def name(self, q):
        return q.label

    def register(self, name, kind):
        uid = self.uid
        self.uid += 1
        fn = make(kind, uid, self)
        self.handles[uid] = (self.quantizers[name].register_override(fn), fn)

    def remove(self, uid):
        if uid in self.handles:
            h, fn = self.handles[uid]
            got = h.remove()
            self.events.append(("removed", uid, got is not None))
            check(got is None or got is fn, "remove-result", lambda: f"{uid}: {got}")

    def leave(self, uid, error):
        h, _ = self.handles[uid]
        try:
            with h as entered:
                check(entered is h, "handle-enter", "")
                if error:
                    raise Boom()
        except Boom:
            pass

    def call(self, name, x):
        self.depth += 1
        try:
            return self.quantizers[name](x)
        finally:
            self.depth -= 1

    def active(self, name):
        q = self.quantizers[name]
        fns = list(q.overrides)
        order = {id(fn): uid for uid, (_, fn) in self.handles.items()}
        return sorted(order[id(f)] for f in fns)

    def copy(self, src, dst):
        q = copy.deepcopy(self.quantizers[src])
        object.__setattr__(q, "env", self)
        object.__setattr__(q, "label", dst)
        self.quantizers[dst] = q

    def forget(self, name):
        del self.quantizers[name]
        gc.collect()


class Model(Env):
    def __init__(self):
        super().__init__()
        self.stacks = {0: [], 1: []}
        self.home = {}

    def name(self, context):
        return context

    def register(self, name, kind):
        uid = self.uid
        self.uid += 1
        self.stacks[name].append((uid, make(kind, uid, self)))
        self.home[uid] = name

    def remove(self, uid):
        if uid in self.home:
            stack = self.stacks.get(self.home[uid], [])
            hit = [e for e in stack if e[0] == uid]
            for e in hit:
                stack.remove(e)
            self.events.append(("removed", uid, bool(hit)))

    def leave(self, uid, error):
        n = len(self.events)
        self.remove(uid)
        del self.events[n:]

    def call(self, name, x):
        self.depth += 1
        try:

            def base(v):
                self.events.append(("base", name, v))
                return v * 5

            fn = base
            for _, override in list(self.stacks[name]):
                fn = (lambda o, f: lambda *a, **k: o(name, f, a, k))(override, fn)
            return fn(x)
        finally:
            self.depth -= 1

    def active(self, name):
        return [u for u, _ in self.stacks[name]]

    def copy(self, src, dst):
        self.stacks[dst] = list(self.stacks[src])

    def forget(self, name):
        del self.stacks[name]


def outcome(env, f):
    try:
        return f()
    except Boom as e:
        return ("boom", e.args)


def ops(prefix, kinds):
    regs = [p for p in prefix if p[0] == "reg"]
    dead = {p[1] for p in prefix if p[0] == "forget"}
    alive = [n for n in (0, 1) if n not in dead]
    for n in alive:
        for k in kinds:
            if k == "other" and dead:
                continue
            yield ("reg", n, k)
    for uid in range(len(regs)):
        yield ("remove", uid)
        yield ("leave", uid, uid % 2 == 1)
    if regs:
        yield ("calls",)
        if 0 not in dead:
            if not any(p[0] == "copy" for p in prefix):
                yield ("copy", 0)
            if not any(r[2] == "other" for r in regs):
                yield ("forget", 0)


def histories(prefix, depth, kinds):
    yield prefix
    if depth == 0:
        return
    for op in ops(prefix, kinds):
        yield from histories(prefix + [op], depth - 1, kinds)


def gen_hist(tier):
    for a in ops([], KINDS):
        for b in [None] + list(ops([a], KINDS)):
            yield {"prefix": [a] + ([b] if b else []), "extra": (2 if tier == "quick" else 3) if b else 0, "kinds": KINDS}
    few = ["through", "twice", "remove-below"]
    for h in histories([], 2, few):
        if len(h) == 2:
            yield {"prefix": h, "extra": 3 if tier == "quick" else 4, "kinds": few}


def run_one(h):
    real, model = Real(), Model()
    for op in h:
        for env in (real, model):
            if op[0] == "reg":
                env.register(op[1], op[2])
            elif op[0] == "remove":
                env.remove(op[1])
            elif op[0] == "leave":
                env.leave(op[1], op[2])
            elif op[0] == "copy":
                env.copy(op[1], "copy")
            elif op[0] == "forget":
                env.forget(op[1])
            elif op[0] == "calls":
                for name in list(model.stacks):
                    env.events.append(("result", name, outcome(env, lambda: env.call(name, 1))))
        check(real.events == model.events, "call-trace", lambda: f"{h}\n got      {real.events}\n expected {model.events}")
        for name in model.stacks:
            if name != "copy":
                check(real.active(name) == model.active(name), "active-overrides", lambda: f"{h}: {name}: {real.active(name)} expected {model.active(name)}")
    for x in (1, 4):
        for name in list(model.stacks):
            got = outcome(real, lambda: real.call(name, x))
            want = outcome(model, lambda: model.call(name, x))
            check(got == want, "result", lambda: f"{h}: {name}({x}) -> {got}, expected {want}")
            check(real.events == model.events, "call-trace", lambda: f"{h}\n got      {real.events}\n expected {model.events}")
            check(real.depth == 0, "depth", "")
    # all overrides off: the original behaviour is back (also for handles used before)
    for uid in range(real.uid):
        real.remove(uid)
        model.remove(uid)
    for name in list(model.stacks):
        if name != "copy":
            check(real.active(name) == [], "left-over", lambda: f"{h}: {real.active(name)}")
            check(real.call(name, 6) == 30, "original-behaviour", h)
    del real.events[:]
    return len(h)


def run_hist(case):
    gc.freeze()
    n = t = 0
    for h in histories([tuple(p) for p in case["prefix"]], case["extra"], case["kinds"]):
        t += run_one(h)
        n += 1
    return Stats(states=n, transitions=t, traces=n, outcome=[case["prefix"], n])


# ------------------------------------------------------------ real quantizers, modules and ids


def gen_real(tier):
    for cls in ("linear", "stub", "dynamic"):
        for order in itertools.permutations(range(3)):
            for route in ("handle", "id", "scope"):
                yield {"cls": cls, "order": order, "route": route}


def run_real(case):
    """Overrides on shipped quantizers inside a module, removed in every order by every route."""
    q = {"linear": lambda: ff.nn.LinearQuantizer(4, symmetric=False), "stub": lambda: ff.nn.QuantizerStub(), "dynamic": lambda: ff.nn.DynamicLinearQuantizer(4)}[case["cls"]]()
    if case["cls"] == "linear":
        q.quantization_range = (-2.0, 2.0)
    holder = torch.nn.ModuleDict({"a": q, "b": torch.nn.ModuleDict({"c": q})})
    x = torch.tensor([-1.3, 0.2, 1.7])

    def val(t):
        return t.dequantize() if hasattr(t, "int_repr") else t

    base = val(q(x)).clone()
    pre = {k: v.clone() for k, v in q.state_dict().items()}
    fns = [lambda c, f, a, k: val(f(a[0] * 2)), lambda c, f, a, k: val(f(*a, **k)) + 1, lambda c, f, a, k: val(f(a[0])) * f(a[0]).shape[0]]

    def expect(ids):
        def run(v, rest):
            if not rest:
                return val(type(q).quantize(q, v))
            *below, top = rest
            if top == 0:
                return run(v * 2, below)
            if top == 1:
                return run(v, below) + 1
            return run(v, below) * 3

        return run(x, ids)

    handles = [q.register_override(f) for f in fns]
    check(len({h.handle_id for h in handles}) == 3, "handle-ids", "")
    live = [0, 1, 2]
    n = 0
    for i in case["order"]:
        check(torch.equal(val(holder["b"]["c"](x)), expect(live)), "result", lambda: f"{case} {live}")
        if case["route"] == "handle":
            got = handles[i].remove()
        elif case["route"] == "id":
            got = q.remove_override(handles[i].handle_id)
        else:
            got = fns[i]
            try:
                with handles[i]:
                    raise Boom()
            except Boom:
                pass
        check(got is fns[i], "remove-result", "")
        live.remove(i)
        check(list(q.overrides) == [fns[j] for j in live], "active-overrides", "")
        check(handles[i].remove() is None and q.remove_override(handles[i].handle_id) is None, "double-remove", "")
        n += 1
    check(torch.equal(val(q(x)), base), "original-behaviour", "")
    check(all(torch.equal(v, pre[k]) for k, v in q.state_dict().items()) and set(pre) == set(q.state_dict()), "parameters-changed", "")
    # a handle does not keep the quantizer alive and is harmless once it is gone
    h = q.register_override(fns[0])
    import weakref

    ref = weakref.ref(q)
    del q, holder
    gc.collect()
    check(ref() is None, "kept-alive", "")
    check(h.remove() is None, "remove-dead", "")
    return Stats(states=n, transitions=n * 3, traces=1, outcome=[case["cls"], base.tolist()])


FAMILIES = [
    Family("histories", gen_hist, run_hist, "all register/remove/leave/call/copy/forget histories over eleven override behaviours, with calls on both quantizers and their copies", timeout=300),
    Family("shipped", gen_real, run_real, "shipped quantizers x removal orders x removal routes"),
]
