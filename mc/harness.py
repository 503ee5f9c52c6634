"""Exhaustive bounded exploration driver shared by all checks.

A check module defines

    PROP        property id
    LEVEL       evidence level
    FAMILIES    list[Family]
    ASSUMPTIONS list[str]

A *family* is a finite space of cases (op histories, inputs, configurations,
crash points ...), given by a generator that enumerates **all** of it for the
requested tier, and a `run` function that executes one case on the real code in
/repo and compares every observation with a reference model.  Cases are plain
JSON values, so a failing case is its own replay artefact.

Nothing here samples: every generated case is executed.  Exploration is only cut
short after a violation has been found (a run that is cut short always fails).
"""

from __future__ import annotations

import dataclasses
import hashlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

from typing import Any, Callable, Iterable

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("MC_EVIDENCE") or os.path.join(VERIF, "evidence")
SETTLE = float(os.environ.get("MC_SETTLE", "240"))  # seconds after which a worker that has seen a violation stops
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Bad(Exception):
    """The property does not hold on this case."""

    def __init__(self, key: str, detail: str = "") -> None:
        super().__init__(f"{key}: {detail}")
        self.key = key
        self.detail = detail


class _Hang(BaseException):
    pass


@dataclasses.dataclass
class Stats:
    """What one case covered. `outcome` is hashed into the distinct-outcome count."""

    states: int = 1
    transitions: int = 1
    traces: int = 1
    outcome: Any = None


@dataclasses.dataclass
class Family:
    name: str
    gen: Callable[[str], Iterable[Any]]
    run: Callable[[Any], "Stats | None"]
    rule: str = ""
    timeout: int = 120
    serial: bool = False


def digest(value: Any) -> str:
    text = json.dumps(value, sort_keys=True, default=repr)
    return hashlib.sha256(text.encode()).hexdigest()[:12]


def check(cond: Any, key: str, detail: Any = "") -> None:
    """Assert a property; `detail` may be a callable evaluated only on failure."""
    if not cond:
        raise Bad(key, str(detail() if callable(detail) else detail))


def reset_globals() -> None:
    import fastforward as ff

    ff.flags.set_strict_quantization(True)
    ff.flags.set_export_mode(False)
    ff.flags.set_compiled_quant_funcs(False)
    ff.flags.set_sdpa_torch_fallback_allowed(False)


def run_case(family: Family, case: Any) -> tuple[Stats | None, dict[str, Any] | None]:
    running = True

    def on_alarm(signum: int, frame: Any) -> None:
        if running:
            raise _Hang()

    reset_globals()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(family.timeout)
    try:
        stats = family.run(case)
        running = False
        return (stats or Stats()), None
    except Bad as e:
        fail = {"key": e.key, "detail": e.detail[:2000]}
    except _Hang:
        fail = {"key": "hang", "detail": f"no termination within {family.timeout}s"}
    except Exception as e:  # an unexpected exception of the code under test is a failure
        tb = traceback.format_exc()
        fail = {"key": f"exception:{type(e).__name__}", "detail": tb[-2500:]}
    finally:
        running = False
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    fail.update(family=family.name, case=case)
    return None, fail


def _init_worker() -> None:
    import torch

    torch.set_num_threads(1)
    # A case that allocates without bound fails on its own instead of exhausting the machine.
    hard = resource.getrlimit(resource.RLIMIT_DATA)[1]
    resource.setrlimit(resource.RLIMIT_DATA, (3_500_000_000, hard))


def _worker(families: list[Family], tier: str, wid: int, nworkers: int, conn: Any) -> None:
    _init_worker()
    out: dict[str, Any] = {"fam": {}, "fails": []}
    index = 0
    cur: Any = None
    stuck = 0
    begin = time.time()
    try:
        for fam in families:
            rec = {
                "cases": 0,
                "states": 0,
                "transitions": 0,
                "traces": 0,
                "outcomes": set(),
                "samples": [],
                "failed": 0,
                "wall": 0.0,
            }
            t0 = time.time()
            for case in fam.gen(tier):
                if out["fails"] and (stuck >= 2 or time.time() - begin > SETTLE):
                    # Violations were found and the rest would take too long: report what there is.
                    out["cut"] = True
                    break
                mine = index % nworkers == wid
                index += 1
                if not mine:
                    continue
                cur = case
                stats, fail = run_case(fam, case)
                rec["cases"] += 1
                if fail is not None:
                    rec["failed"] += 1
                    stuck += fail["key"] in ("hang", "exception:MemoryError")
                    keys = [f["key"] for f in out["fails"] if f["family"] == fam.name]
                    if keys.count(fail["key"]) < 400:
                        out["fails"].append(fail)
                    continue
                assert stats is not None
                rec["states"] += stats.states
                rec["transitions"] += stats.transitions
                rec["traces"] += stats.traces
                if len(rec["outcomes"]) < 200000:
                    rec["outcomes"].add(digest(stats.outcome))
                if len(rec["samples"]) < 1:
                    rec["samples"].append({"case": case, "outcome": repr(stats.outcome)[:200]})
            rec["wall"] = time.time() - t0
            out["fam"][fam.name] = rec
        conn.send(out)
    except BaseException as e:
        conn.send({"crash": f"{type(e).__name__}: {e}\n{traceback.format_exc()}", "case": cur})
    conn.close()


def load_known(prop: str) -> list[dict[str, Any]]:
    if not os.path.exists(KNOWN):
        return []
    rows = []
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if line and not line.startswith("fixed:"):
                row = json.loads(line)
                if row.get("property") == prop:
                    rows.append(row)
    return rows


def is_known(fail: dict[str, Any], known: list[dict[str, Any]]) -> dict[str, Any] | None:
    for row in known:
        if row["family"] == fail["family"] and row["key"] == fail["key"]:
            if "case" not in row or row["case"] == fail["case"]:
                return row
    return None


def write_replay(prop: str, fail: dict[str, Any]) -> str:
    folder = os.path.join(EVIDENCE, "replay")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-{fail['family']}-{digest(fail['case'])}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, **fail}, f, indent=1, default=repr)
    return path


def execute(mod: Any, tier: str, seed: int, only: str | None = None, jobs: int | None = None) -> int:
    start = time.time()
    families: list[Family] = [f for f in mod.FAMILIES if only is None or f.name == only]
    prop: str = mod.PROP
    nworkers = jobs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    serial = [f for f in families if f.serial]
    par = [f for f in families if not f.serial]
    groups: list[tuple[list[Family], int, int]] = [(par, w, nworkers) for w in range(nworkers)] if par else []
    if serial:
        groups.append((serial, 0, 1))
    procs = []
    for fams, w, n in groups:
        r, s = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(fams, tier, w, n, s))
        p.start()
        s.close()
        procs.append((p, r))
    merged: dict[str, dict[str, Any]] = {}
    fails: list[dict[str, Any]] = []
    cut = False
    for p, r in procs:
        try:
            res = r.recv()
        except EOFError:
            p.join()
            res = {"crash": f"worker died with exit code {p.exitcode}", "case": None}
        p.join()
        if "crash" in res:
            print(res["crash"])
            fails.append(
                {"key": "worker-crash", "family": "harness", "case": res["case"], "detail": res["crash"]}
            )
            continue
        fails.extend(res["fails"])
        cut = cut or "cut" in res
        for name, rec in res["fam"].items():
            tgt = merged.setdefault(
                name,
                {"cases": 0, "states": 0, "transitions": 0, "traces": 0, "outcomes": set(), "samples": [], "failed": 0, "wall": 0.0},
            )
            for k in ("cases", "states", "transitions", "traces", "failed"):
                tgt[k] += rec[k]
            tgt["wall"] = max(tgt["wall"], rec["wall"])
            tgt["outcomes"] |= rec["outcomes"]
            if len(tgt["samples"]) < 2:
                tgt["samples"].extend(rec["samples"][:1])

    known = load_known(prop)
    violations: list[dict[str, Any]] = []
    known_hits: dict[str, str] = {}
    for fail in fails:
        row = is_known(fail, known)
        if row is not None:
            known_hits[f"{row['family']}/{row['key']}/{digest(row.get('case'))}"] = row["what"]
        else:
            violations.append(fail)

    tot = {k: sum(m[k] for m in merged.values()) for k in ("cases", "states", "transitions", "traces")}
    outcomes = sum(len(m["outcomes"]) for m in merged.values())
    for name, m in merged.items():
        print(
            f"  family {name}: cases={m['cases']} states={m['states']} transitions={m['transitions']} "
            f"distinct_outcomes={len(m['outcomes'])} failed={m['failed']} wall={m['wall']:.1f}s"
        )
        if m["cases"] == 0 and not cut:
            violations.append({"key": "vacuous", "family": name, "case": None, "detail": "family enumerated no case"})
    coverage: dict[str, Any] = {
        "states": tot["states"],
        "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["traces"],
        "evaluations": tot["cases"],
        "distinct_nontrivial": outcomes,
        "rule": "; ".join(f"{f.name}: {f.rule}" for f in families if f.rule)
        + " | distinct_nontrivial counts distinct observed outcomes",
        "samples": [
            {"family": name, **s} for name, m in merged.items() for s in m["samples"]
        ][:12],
        "exhaustive": only is None and not cut and not any("crash" in f["key"] for f in fails),
        "families": {
            name: {
                "cases": m["cases"],
                "states": m["states"],
                "transitions": m["transitions"],
                "distinct_outcomes": len(m["outcomes"]),
                "failed": m["failed"],
            }
            for name, m in merged.items()
        },
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": coverage,
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)

    for what in known_hits.values():
        print(f"KNOWN-FINDING: property={prop} {what}")
    seen: set[tuple[str, str]] = set()
    for fail in violations:
        sig = (fail["family"], fail["key"])
        if sig in seen:
            continue
        seen.add(sig)
        if len(seen) > 12:
            break
        path = write_replay(prop, fail)
        print(f"--- {fail['family']} / {fail['key']}\n    case: {json.dumps(fail['case'], default=repr)[:600]}\n    {fail['detail'][-1200:]}")
        print(f"VIOLATION property={prop} replay={path}")
    print(
        f"{prop} tier={tier} states={tot['states']} transitions={tot['transitions']} cases={tot['cases']} "
        f"outcomes={outcomes} violations={len(violations)} known={len(known_hits)} wall={time.time() - start:.1f}s"
    )
    sys.stdout.flush()
    return 1 if violations else 0


def replay(mod: Any, path: str) -> int:
    with open(path) as f:
        fail = json.load(f)
    _init_worker()
    for fam in mod.FAMILIES:
        if fam.name == fail["family"]:
            results = [run_case(fam, fail["case"]) for _ in range(2)]
            for _, again in results:
                if again is not None:
                    print(f"reproduced {again['key']}: {again['detail']}")
                    print(f"VIOLATION property={mod.PROP} replay={path}")
                    return 1
            print("not reproduced: the property holds on this case")
            return 0
    print(f"unknown family {fail['family']}")
    return 1
