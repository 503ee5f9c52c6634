"""C14: an interrupted save never leaves a mixed or falsely complete state."""

from __future__ import annotations

import itertools
import json
import os
import shutil

import torch

import fastforward as ff

from checks.c13_save_load import KINDS, Scratch, describe, floats, load, ranged, save, strip
from mc import crash
from mc.harness import Family, Stats, check

PROP = "C14"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive fault injection: the real save runs under ptrace and is killed, torn or failed at every file-system operation; every resulting disk state is loaded and compared"
ASSUMPTIONS = [
    "faults are process stops (before, inside and after an operation) and failing operations; the operating system itself keeps what was written (no reordering by a power loss)",
    "one save at a time; both saved states have the same identifier",
]


def model(kinds, value):
    m = ff.nn.QuantizedModule()
    m.w = torch.nn.Parameter(torch.full((3,), float(value)))
    m.register_buffer("b", torch.tensor(value))
    m.part = ff.nn.QuantizedModule()
    for i, k in enumerate(kinds):
        host = m if i % 2 == 0 else m.part
        if k == "stub":
            q = ff.nn.QuantizerStub()
        elif k == "lin":
            q = ranged(ff.nn.LinearQuantizer(4, symmetric=False), -1.0 * value, 2.0 * value)
        elif k == "lin8":
            q = ranged(ff.nn.LinearQuantizer(8, symmetric=False), -1.0 * value, 2.0 * value)
        elif k == "sym":
            q = ranged(ff.nn.LinearQuantizer(4, symmetric=True, allow_one_sided=False), -1.0 * value, 2.0 * value)
        elif k == "chan":
            q = ranged(ff.nn.LinearQuantizer(4, symmetric=False, granularity=ff.PerChannel(0)), torch.tensor([-1.0 * value, 0.0]), torch.tensor([1.0, 2.0 * value]))
        else:
            q = KINDS[k]()
        setattr(host, f"q{i}", q)
    return m


# pairs of states that follow each other at the same place
STATES = {
    "none": ("stub",) * 4,
    "one": ("lin", "stub", "stub", "stub"),
    "other": ("stub", "lin", "stub", "stub"),
    "two": ("lin", "chan", "stub", "stub"),
    "bits": ("lin8", "chan", "stub", "stub"),
    "sym": ("sym", "chan", "stub", "stub"),
    "all": ("lin", "chan", "dyn", "sym"),
    "lazy": ("lin", "chan", "uninit", "stub"),
    "many": ("lin", "chan") * 16,  # a config file that takes several writes
}


def summary(m):
    return [strip(describe(m)), floats(m)]


def observe(how, folder, size):
    target = model(("stub",) * size, 0)
    try:
        load(target, how, folder, allow_lazy_params=True)
    except Exception as e:  # noqa: BLE001
        return None
    return summary(target)


def expected(kinds, value, how):
    m = model(kinds, value)
    want = summary(m)
    if how == "state":
        want[1] = floats(model(("stub",) * len(kinds), 0))
    return want


def gen_single(tier):
    for how in ("state", "model"):
        for old in [None, *STATES]:
            for new in STATES:
                if tier == "quick" and (old in ("sym", "lazy", "other") or new in ("sym", "other")) and (old, new) != ("one", "other"):
                    continue
                if (old is not None) and len(STATES[old]) != len(STATES[new]):
                    continue
                for stripe in range(4):
                    yield {"how": how, "old": old, "new": new, "stripe": stripe}


def copy_to(src, dst):
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)


def run_single(case):
    how, kinds = case["how"], STATES[case["new"]]
    size = len(kinds)
    n = turn = 0
    seen = set()
    with Scratch() as folder:
        base, work = folder / "base", folder / "work"
        base.mkdir()
        allowed = {"new": expected(kinds, 3, how)}
        if case["old"] is not None:
            save(model(STATES[case["old"]], 2), how, base, allow_lazy_params=True)
            allowed["old"] = expected(STATES[case["old"]], 2, how)
            check(observe(how, base, size) == allowed["old"], "no-fault", str(case))
        new, last = model(kinds, 3), model(kinds, 5)
        final = expected(kinds, 5, how)
        save(model(kinds, 4), how, folder / "warm", allow_lazy_params=True)  # imports, caches

        copy_to(base, work)
        log, end = crash.run(lambda: save(new, how, work, allow_lazy_params=True), work)
        check(end == "done" and observe(how, work, size) == allowed["new"], "no-fault", str(case))
        check(len(log) >= 4, "nothing-observed", str(log))
        for at, op in enumerate(log):
            for mode in crash.modes(op):
                turn += 1
                if turn % 4 != case["stripe"]:
                    continue
                copy_to(base, work)
                where = f"{case} {mode} at operation {at} ({op}) of {log}"
                ops, end = crash.run(lambda: save(new, how, work, allow_lazy_params=True), work, at, mode)
                check([o.split(" ")[0] for o in ops[: at + 1]] == [o.split(" ")[0] for o in log[: at + 1]], "not-deterministic", where)
                got = observe(how, work, size)
                names = [k for k, v in allowed.items() if v == got] if got is not None else ["error"]
                check(names, "mixed-state", lambda: f"{where}: loads {got[0]}")
                if end == "done":
                    check(got == allowed["new"], "lost-save", lambda: f"{where}: save reported success, load gives {names}")
                if at == 0 and mode == "before" and case["old"] is not None:
                    check(names == ["old"] or allowed["old"] == allowed["new"], "old-state-lost", where)
                save(last, how, work, allow_lazy_params=True)
                check(observe(how, work, size) == final, "later-save", where)
                seen.add((at, mode, names[0], end))
                n += 1
    return Stats(states=n, transitions=n * len(log), traces=n, outcome=sorted(seen))


def gen_double(tier):
    pairs = [("two", "bits", "sym")] if tier == "quick" else [
        p for p in itertools.product(["none", "one", "two", "bits", "all"], repeat=3) if len(set(p)) > 1]
    for how in ("state", "model"):
        for kinds in pairs:
            for first in ("before", "after", "torn:1/2", "errors"):
                for at in range(24 if how == "model" else 12):
                    yield {"how": how, "states": kinds, "mode": first, "at": at}


def run_double(case):
    """A second save that is interrupted as well, on top of what the first one left."""
    how = case["how"]
    kinds = [STATES[k] for k in case["states"]]
    n = 0
    seen = set()
    with Scratch() as folder:
        base, mid, work = folder / "base", folder / "mid", folder / "work"
        base.mkdir()
        save(model(kinds[0], 2), how, base, allow_lazy_params=True)
        allowed = [expected(k, v, how) for k, v in zip(kinds, (2, 3, 5))]
        second, third = model(kinds[1], 3), model(kinds[2], 5)
        copy_to(base, mid)
        log, end = crash.run(lambda: save(second, how, mid, allow_lazy_params=True), mid, case["at"], case["mode"])
        if len(log) <= case["at"]:
            return Stats(states=0, transitions=0, traces=0, outcome="beyond")
        copy_to(mid, work)
        log, _ = crash.run(lambda: save(third, how, work, allow_lazy_params=True), work)
        for at, op in enumerate(log):
            for mode in ("before", "after", "torn:1/2") if op.startswith("write") else ("before", "after"):
                copy_to(mid, work)
                crash.run(lambda: save(third, how, work, allow_lazy_params=True), work, at, mode)
                got = observe(how, work, 4)
                names = [i for i, v in enumerate(allowed) if v == got] if got is not None else ["error"]
                check(names, "mixed-state", lambda: f"{case} then {mode} at {at} ({op}): {got}")
                seen.add((at, mode, str(names[0])))
                n += 1
    return Stats(states=n, transitions=n, traces=n, outcome=sorted(seen))


class Stop(BaseException):
    pass


class Bomb(ff.nn.LinearQuantizer):
    """A quantizer whose state cannot be written: serialisation fails half-way."""

    fuse = None

    def __getstate__(self):
        if Bomb.fuse is not None:
            raise Bomb.fuse
        return super().__getstate__()


def gen_exceptions(tier):
    for how in ("state", "model"):
        for pos in range(4):
            for error in ("RuntimeError", "KeyboardInterrupt", "override"):
                yield {"how": how, "pos": pos, "error": error}


def run_exceptions(case):
    """A save that fails by itself (a quantizer that cannot be serialised, an interrupt)."""
    how = case["how"]
    with Scratch() as folder:
        save(model(STATES["all"], 2), how, folder)
        old = observe(how, folder, 4)
        bad = model(STATES["all"], 3)
        q = ranged(Bomb(4, symmetric=False), -1.0, 9.0)
        setattr(bad if case["pos"] % 2 == 0 else bad.part, f"q{case['pos']}", q)
        before = summary(bad)
        handle = None
        if case["error"] == "override":
            handle = q.register_override(lambda ctx, fn, args, kwargs: fn(*args, **kwargs))
        else:
            Bomb.fuse = {"RuntimeError": RuntimeError("no"), "KeyboardInterrupt": KeyboardInterrupt()}[case["error"]]
        raised = False
        try:
            save(bad, how, folder)
        except (RuntimeError, KeyboardInterrupt):
            raised = True
        finally:
            Bomb.fuse = None
            if handle is not None:
                handle.remove()
        check(raised, "failure-swallowed", str(case))
        check(summary(bad) == before, "model-changed", str(case))
        got = observe(how, folder, 4)
        check(got is None or got == old, "mixed-state", lambda: f"{case}: {got}")
        save(bad, how, folder)
        check(observe(how, folder, 4) == expected_bomb(bad, how), "later-save", str(case))
    return Stats(states=2, transitions=3, outcome=[case, got is None])


def expected_bomb(m, how):
    want = summary(m)
    if how == "state":
        want[1] = floats(model(("stub",) * 4, 0))
    return want


FAMILIES = [
    Family("one-fault", gen_single, run_single, "old state x new state x saved form x every file-system operation x every fault kind", timeout=900),
    Family("two-faults", gen_double, run_double, "an interrupted save on top of an interrupted save", timeout=900),
    Family("exceptions", gen_exceptions, run_exceptions, "saves that raise by themselves at every quantizer position", timeout=300),
]
