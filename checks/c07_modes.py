"""C07: global modes are restored after every nesting, reuse or exception."""

from __future__ import annotations

import itertools

import torch

import fastforward as ff

from fastforward import flags
from fastforward.nn import functional as FF

from mc.harness import Family, Stats, check

PROP = "C07"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all well-nested histories of mode operations (with exceptions at any point) on the real code against a stack machine"
ASSUMPTIONS = [
    "histories up to the stated depth; single thread (the modes are process-wide by design)",
    "creating a mode context sets the mode immediately; its first `with` restores the value of before its creation, later ones the value at entry",
]

FLAGS = {
    "strict": (flags.get_strict_quantization, flags.set_strict_quantization, flags.strict_quantization),
    "export": (flags.get_export_mode, flags.set_export_mode, flags.export_mode),
    "compiled": (flags.get_compiled_quant_funcs, flags.set_compiled_quant_funcs, flags.compiled_quant_funcs),
    "fallback": (flags.get_sdpa_torch_fallback_allowed, flags.set_sdpa_torch_fallback_allowed, flags.sdpa_torch_fallback_allowed),
}


class Stop(Exception):
    pass


class BaseStop(BaseException):
    pass


ERRORS = {"exc": Stop, "base": BaseStop, "gen": GeneratorExit}


class Machine:
    """Reference: the values of all modes plus the contexts that exist."""

    def __init__(self):
        self.values = {f: g() for f, (g, _, _) in FLAGS.items()}
        self.objs = {}

    def observe(self, where):
        for f, (g, _, _) in FLAGS.items():
            check(g() == self.values[f], "mode", lambda: f"{where}: {f} is {g()}, expected {self.values[f]}")


def tokens(fs, full):
    for f in fs:
        for v in (True, False):
            yield ("set", f, v)
            yield ("with", f, v)
            if full:
                yield ("make", f, v)
                yield ("dec", f, v)
                yield ("setctx", f, v)
        if full:
            yield ("obj", f)
    yield ("exit",)
    yield ("exit", "exc")
    if full:
        yield ("exit", "base")
        yield ("exit", "gen")


def legal(prefix, t, alphabet_full):
    depth = sum(1 for x in prefix if x[0] in ("with", "dec", "obj", "setctx")) - sum(1 for x in prefix if x[0] == "exit")
    if t[0] == "exit" and depth == 0:
        return False
    if t[0] == "obj":
        return any(x[0] == "make" and x[1] == t[1] for x in prefix)
    return True


def histories(alphabet, prefix, depth):
    """All maximal histories; every proper prefix is observed while running them."""
    if depth == 0:
        yield prefix
        return
    for t in alphabet:
        if legal(prefix, t, None):
            yield from histories(alphabet, prefix + [t], depth - 1)


def run_history(hist):
    m = Machine()
    pos = [0]
    log = []

    def body():
        """Run tokens up to the matching exit; raise if it is exceptional."""
        while pos[0] < len(hist):
            t = hist[pos[0]]
            pos[0] += 1
            if t[0] == "exit":
                if len(t) > 1:
                    raise ERRORS[t[1]]()
                return
            step(t)
            m.observe(hist[: pos[0]])
            log.append(tuple(m.values.values()))

    def step(t):
        kind, f = t[0], t[1]
        g, s, c = FLAGS[f]
        if kind == "set":
            s(t[2])
            m.values[f] = t[2]
        elif kind == "make":
            saved = m.values[f]
            m.objs[f] = [c(t[2]), t[2], saved, True]
            m.values[f] = t[2]
        else:
            if kind == "obj":
                rec = m.objs[f]
                obj, value = rec[0], rec[1]
                saved = rec[2] if rec[3] else m.values[f]
                rec[3] = False
            else:
                value, saved = t[2], m.values[f]
            try:
                if kind == "dec":

                    @flags.context(c, value)
                    def fn(a, *, b):
                        check((a, b) == (1, 2), "decorator-arguments", "")
                        m.values[f] = value
                        m.observe(hist[: pos[0]])
                        body()
                        return 42

                    # decorating alone changes nothing
                    m.observe(hist[: pos[0]])
                    check(fn(1, b=2) == 42, "decorator-result", "")
                else:
                    ctx = obj if kind == "obj" else (s(value) if kind == "setctx" else c(value))
                    with ctx:
                        m.values[f] = value
                        m.observe(hist[: pos[0]])
                        body()
            except (Stop, BaseStop, GeneratorExit) as e:
                check(pos[0] >= 1 and hist[pos[0] - 1][0] == "exit" and type(e) is ERRORS[hist[pos[0] - 1][1]], "exception-changed", repr(e))
            m.values[f] = saved

    body()
    m.observe(hist)
    return log


def gen_hist(tier):
    for f in FLAGS:
        d = (5 if f == "strict" else 4) if tier == "quick" else (6 if f == "strict" else 5)
        alphabet = list(tokens([f], True))
        for p in histories(alphabet, [], 2):
            yield {"flags": [f], "full": True, "prefix": p, "depth": d - 2}
    pairs = list(itertools.combinations(FLAGS, 2))
    for pair in pairs:
        alphabet = list(tokens(pair, False))
        for p in histories(alphabet, [], 2):
            yield {"flags": list(pair), "full": False, "prefix": p, "depth": 3 if tier == "quick" else 4}


def run_hist(case):
    alphabet = list(tokens(case["flags"], case["full"]))
    n = t = 0
    out = set()
    for h in histories(alphabet, [tuple(x) for x in case["prefix"]], case["depth"]):
        for _, s, _ in FLAGS.values():
            s(False)
        flags.set_strict_quantization(True)
        log = run_history(h)
        out.add(tuple(log))
        n += 1
        t += len(h)
    return Stats(states=sum(len(o) for o in out), transitions=t, traces=n, outcome=[case["prefix"], len(out)])


# ------------------------------------------------------------------ attention upcast

DTYPES = [torch.float64, torch.float32, None, True, False]


def up_tokens():
    yield from (("with", i) for i in range(len(DTYPES)))
    yield from (("make", i) for i in range(3))
    yield ("obj",)
    yield ("exit",)
    yield ("exit", "exc")


def up_hist(prefix, depth):
    if depth == 0:
        yield prefix
        return
    level = sum(1 for x in prefix if x[0] in ("with", "obj")) - sum(1 for x in prefix if x[0] == "exit")
    for t in up_tokens():
        if t[0] == "exit" and level == 0:
            continue
        if t[0] == "obj" and not any(x[0] == "make" for x in prefix):
            continue
        yield from up_hist(prefix + [t], depth - 1)


def gen_up(tier):
    for p in up_hist([], 2):
        yield {"prefix": p, "depth": 3 if tier == "quick" else 4}


def run_up(case):
    n = 0
    for h in up_hist([tuple(x) for x in case["prefix"]], case["depth"]):
        cur = [torch.float32]
        obj = [None, None]
        pos = [0]

        def seen():
            # the dtype is observable through the attention kernel's arithmetic
            return ff.sdpa_upcast.dtype

        def val(i):
            d = DTYPES[i]
            return d if isinstance(d, torch.dtype) else (torch.float32 if d else None)

        def body():
            while pos[0] < len(h):
                t = h[pos[0]]
                pos[0] += 1
                if t[0] == "exit":
                    if len(t) > 1:
                        raise Stop()
                    return
                if t[0] == "make":
                    obj[:] = [ff.sdpa_upcast(DTYPES[t[1]]), val(t[1])]
                else:
                    ctx, v = (ff.sdpa_upcast(DTYPES[t[1]]), val(t[1])) if t[0] == "with" else tuple(obj)
                    saved = cur[0]
                    try:
                        with ctx:
                            cur[0] = v
                            check(seen() == v, "upcast-mode", lambda: f"{h[:pos[0]]}: {seen()} expected {v}")
                            body()
                    except Stop:
                        pass
                    cur[0] = saved
                check(seen() == cur[0], "upcast-mode", lambda: f"{h[:pos[0]]}: {seen()} expected {cur[0]}")

        try:
            body()
            check(seen() == torch.float32, "upcast-mode", lambda: f"{h}: {seen()} at the end")
        finally:
            ff.sdpa_upcast(torch.float32).__enter__()
        n += 1
    return Stats(states=n, transitions=n * len(h), traces=n, outcome=[case["prefix"], n])


def gen_up_effect(tier):
    for d in range(len(DTYPES)):
        for dt in ("float16", "bfloat16", "float32", "float64"):
            yield {"upcast": d, "dtype": dt}


def run_up_effect(case):
    """The selected type is the one the attention arithmetic is carried out in, only for half types."""
    dt = getattr(torch, case["dtype"])
    d = DTYPES[case["upcast"]]
    target = d if isinstance(d, torch.dtype) else (torch.float32 if d else None)
    q, k, v = ((torch.arange(6.0).reshape(1, 1, 2, 3) * s - 1.1).to(dt) for s in (0.7, 0.9, 1.3))
    seen = []

    class Probe(ff.nn.Quantizer):
        def quantize(self, data):
            seen.append(data.dtype)
            return data

    with flags.strict_quantization(False), ff.sdpa_upcast(d):
        got = FF.scaled_dot_product_attention(q, k, v, attn_scores_quantizer=Probe())
    want = target if target is not None and dt in (torch.float16, torch.bfloat16) else dt
    check(seen == [want], "upcast-dtype", lambda: f"{case}: computed in {seen}")
    check(got.dtype == dt, "output-dtype", lambda: f"{case}: {got.dtype}")
    return Stats(outcome=[str(s) for s in seen])


# ------------------------------------------------------------------ per-module strictness

NAMES = ["root", "a", "b", "c"]


class Node(torch.nn.Module):
    def __init__(self, name, log):
        super().__init__()
        self.label = name
        self.log = log
        self.plan = {}
        self.kids = []

    def forward(self, x, depth=0):
        self.log.append((self.label, depth, ff.get_strict_quantization()))
        plan = self.plan
        if plan.get("set") == self.label:
            ff.set_strict_quantization(not ff.get_strict_quantization())
        if plan.get("recurse") == self.label and depth == 0:
            self(x, depth=1)
            self.log.append((self.label, "back", ff.get_strict_quantization()))
        for kid in self.kids:
            if plan.get("catch") == self.label:
                try:
                    kid(x)
                except Stop:
                    pass
            else:
                kid(x)
            self.log.append((self.label, "after-kid", ff.get_strict_quantization()))
        if plan.get("raise") == self.label and (plan.get("recurse") != self.label or depth == plan.get("level", 0)):
            raise Stop()
        return x


def build(log):
    n = {k: Node(k, log) for k in NAMES}
    n["root"].kids = [n["a"], n["c"]]
    n["a"].kids = [n["b"]]
    n["c"].kids = [n["b"]]  # b is shared
    return n


def reference(plan, attached, start):
    """attached: list of (module, value) in attachment order; returns (log, mode after)."""
    log = []
    mode = [start]
    kids = {"root": ["a", "c"], "a": ["b"], "c": ["b"], "b": []}

    def call(name, depth=0):
        own = [v for m, v in attached if m == name]
        saved = mode[0]
        try:
            if own:
                mode[0] = own[-1]
            log.append((name, depth, mode[0]))
            if plan.get("set") == name:
                mode[0] = not mode[0]
            if plan.get("recurse") == name and depth == 0:
                call(name, 1)
                log.append((name, "back", mode[0]))
            for kid in kids[name]:
                if plan.get("catch") == name:
                    try:
                        call(kid)
                    except Stop:
                        pass
                else:
                    call(kid)
                log.append((name, "after-kid", mode[0]))
            if plan.get("raise") == name and (plan.get("recurse") != name or depth == plan.get("level", 0)):
                raise Stop()
        finally:
            if own:
                mode[0] = saved

    try:
        call("root")
        outcome = "ok"
    except Stop:
        outcome = "raised"
    return log, mode[0], outcome


PLANS = (
    [{}]
    + [{"raise": m, "catch": c} for m in NAMES for c in (None, "root", "a")]
    + [{"recurse": m} for m in NAMES]
    + [{"recurse": m, "raise": m, "level": lv, "catch": "root"} for m in NAMES for lv in (0, 1)]
    + [{"set": m} for m in NAMES]
    + [{"set": m, "raise": m, "catch": "root"} for m in NAMES]
)

ATTACH = [(v, ms) for v in (True, False) for ms in (("root",), ("a",), ("b",), ("a", "b"), ("root", "c"), ("b", "b"))]


def mod_ops(n_handles):
    for i in range(len(ATTACH)):
        yield ("attach", i)
    for i in range(n_handles):
        yield ("remove", i)
        yield ("extend", i)


def mod_hist(prefix, depth):
    yield prefix
    if depth == 0:
        return
    n = sum(1 for p in prefix if p[0] == "attach")
    for t in mod_ops(n):
        yield from mod_hist(prefix + [t], depth - 1)


def gen_mod(tier):
    # every history up to depth 3 (4), each followed by a run under every plan
    for t in [None] + list(mod_ops(0)):
        for t2 in [None] + list(mod_ops(1)) if t is not None else [None]:
            prefix = [x for x in (t, t2) if x is not None]
            yield {"prefix": prefix, "extra": (1 if tier == "quick" else 2) if len(prefix) == 2 else 0}


def run_mod(case):
    n = 0
    out = set()
    for h in mod_hist([tuple(p) for p in case["prefix"]], case["extra"]):
        log = []
        nodes = build(log)
        handles, attached, live = [], [], {}
        for op in h:
            if op[0] == "attach":
                v, ms = ATTACH[op[1]]
                handles.append((ff.strict_quantization_for_module(v, *[nodes[m] for m in ms]), v))
                attached.extend((m, v, len(handles) - 1) for m in ms)
            elif op[0] == "remove":
                handles[op[1]][0].remove()
                attached = [a for a in attached if a[2] != op[1]]
            else:
                handles[op[1]][0].attach(nodes["c"])
                attached.append(("c", handles[op[1]][1], op[1]))
        for plan in PLANS:
            for start in (True, False):
                for repeat in range(2):
                    ff.set_strict_quantization(start)
                    del log[:]
                    for x in nodes.values():
                        x.plan = plan
                    try:
                        nodes["root"](torch.zeros(1))
                        outcome = "ok"
                    except Stop:
                        outcome = "raised"
                    want, after, woutcome = reference(plan, [a[:2] for a in attached], start)
                    check(outcome == woutcome, "outcome", lambda: f"{h} {plan}: {outcome}")
                    check(log == want, "module-mode", lambda: f"{h} {plan} start={start}:\n{log}\nexpected\n{want}")
                    check(ff.get_strict_quantization() == after, "module-mode-after", lambda: f"{h} {plan} start={start}: left {ff.get_strict_quantization()}, expected {after}")
                    n += 1
        for handle, _ in handles:
            with handle:
                pass
        ff.set_strict_quantization(True)
        del log[:]
        for x in nodes.values():
            x.plan = {}
        nodes["root"](torch.zeros(1))
        check(all(e[2] for e in log), "handle-left", lambda: f"{h}: {log}")
        out.add(len(log))
    return Stats(states=n, transitions=n, traces=n, outcome=[case["prefix"], n])


FAMILIES = [
    Family("histories", gen_hist, run_hist, "all well-nested histories of set / with / reuse / decorator / exit / exceptional exit, per mode and per pair of modes", timeout=300),
    Family("upcast", gen_up, run_up, "all well-nested histories of the attention upcast context"),
    Family("upcast-effect", gen_up_effect, run_up_effect, "all upcast settings x operand types"),
    Family("modules", gen_mod, run_mod, "all attach/extend/remove histories over a module tree with a shared child x call plans (recursion, exception, catch, mode change)", timeout=300),
]
