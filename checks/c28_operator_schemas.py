"""C28: operator schemas, symbolic types and the operator table."""

from __future__ import annotations

import functools
import importlib
import inspect
import itertools
import json
import os
import pathlib
import subprocess
import sys
import tempfile

import libcst
import torch

import fastforward as ff

from fastforward._quantops import OperatorTable, symtypes
from fastforward._quantops.operator import Operator

from mc.harness import Family, Stats, check, digest

PROP = "C28"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of type expressions, signatures x call shapes and operator-table histories, each compared with a reference model (sets, inspect.signature, a table model)"
ASSUMPTIONS = [
    "type expressions up to nesting depth two; unions of a single member and torch.Size (which has no textual form of its own) are not compared",
    "signatures with up to four parameters; table histories up to depth 3 (4 in the thorough tier)",
]


# ----------------------------------------------------------------------------- types
#
# A type expression is a JSON value: "int" | ["T", ...] | ["L", x] | ["U", ...] | ["O", x]

ATOMS = {
    "int": (symtypes.Int, "int"),
    "float": (symtypes.Float, "float"),
    "None": (symtypes.NoneType, "None"),
    "Quantized": (symtypes.QuantizedTensor, "Quantized"),
    "Tensor": (symtypes.Tensor, "Tensor"),
    "str": (symtypes.String, "str"),
    "bool": (symtypes.Bool, "bool"),
    "...": (symtypes.EllipsisType, "..."),
    "DType": (symtypes.DType, "DType"),
    "Device": (symtypes.Device, "Device"),
    "Layout": (symtypes.Layout, "Layout"),
    "MemoryFormat": (symtypes.MemoryFormat, "MemoryFormat"),
    "object": (symtypes.Object, "object"),
    "Quantizer": (symtypes.Quantizer, "Quantizer"),
}
COMPOSITE_NAMES = {
    "MaybeQuantized": ["U", "Tensor", "Quantized"],
    "Number": ["U", "int", "float"],
}


def build(expr, order=False):
    """The symbolic type of an expression; `order` reverses the parameters of unions."""
    if isinstance(expr, str):
        return ATOMS[expr][0]
    head, args = expr[0], [build(a, order) for a in expr[1:]]
    if head == "T":
        return symtypes.Tuple[tuple(args)]
    if head == "L":
        return symtypes.List[args[0]]
    if head == "O":
        return symtypes.Optional[args[0]]
    if order:
        args = args[::-1]
    return symtypes.Union[tuple(args)]


def build_or(expr):
    """As `build` with | for unions and optionals."""
    if isinstance(expr, str):
        return ATOMS[expr][0]
    args = [build_or(a) for a in expr[1:]]
    if expr[0] == "T":
        return symtypes.Tuple[tuple(args)]
    if expr[0] == "L":
        return symtypes.List[args[0]]
    if expr[0] == "O":
        args.append(symtypes.NoneType)
    return functools.reduce(lambda a, b: a | b, args)


def ref(expr):
    if isinstance(expr, str):
        return expr
    args = [ref(a) for a in expr[1:]]
    if expr[0] in "TL":
        return (expr[0], tuple(args))
    if expr[0] == "O":
        args.append("None")
    return frozenset(v for a in args for v in variants(a))


def variants(r):
    return set(r) if isinstance(r, frozenset) else {r}


def single(r):
    """A union of only one member occurs (these are not compared)."""
    if isinstance(r, frozenset):
        return len(r) == 1 or any(single(v) for v in r)
    return isinstance(r, tuple) and any(single(v) for v in r[1])


def ref_of(t):
    """The reference value of a symbolic type, read through its public interface."""
    for name, (atom, _) in ATOMS.items():
        if t == atom:
            return name
    if t.name == "Union":
        return frozenset(ref_of(v) for v in t.variants())
    return ({"Tuple": "T", "List": "L"}[t.name], tuple(ref_of(p) for p in t.parameters()))


def text(expr, bar):
    if isinstance(expr, str):
        return ATOMS[expr][1]
    args = [text(a, bar) for a in expr[1:]]
    if expr[0] == "U":
        return " | ".join(args) if bar else f"Union[{', '.join(args)}]"
    return {"T": "tuple", "L": "list", "O": "Optional"}[expr[0]] + f"[{', '.join(args)}]"


def ref_replace(r, old, new):
    """Replace `old` everywhere in `r`; a union is replaced if all its members are present."""
    if r == old:
        return new
    if isinstance(r, frozenset):
        gone = variants(old) if variants(old) <= set(r) else set()
        rest = set()
        for v in set(r) - gone:
            rest |= variants(ref_replace(v, old, new))
        if gone:
            rest |= variants(new)
        return next(iter(rest)) if len(rest) == 1 else frozenset(rest)
    if isinstance(r, tuple):
        return (r[0], tuple(ref_replace(v, old, new) for v in r[1]))
    return r


def exprs(tier):
    few = ["int", "float", "None", "Quantized", "Tensor"]
    depth1 = [["L", a] for a in few]
    depth1 += [["T", a] for a in few] + [["T", a, "..."] for a in few[:3]]
    depth1 += [["T", a, b] for a in few[:4] for b in few[:4]]
    depth1 += [["U", *p] for p in itertools.permutations(few, 2)]
    depth1 += [["U", *p] for p in itertools.combinations(few, 3)]
    depth1 += [["O", a] for a in few if a != "None"]
    out = list(ATOMS) + depth1
    inner = [["L", "int"], ["L", "float"], ["T", "int"], ["T", "float"], ["T", "int", "..."], ["U", "int", "float"], ["U", "Tensor", "Quantized"], ["O", "int"], ["L", "Quantized"]]
    for a in inner:
        out += [["L", a], ["O", a], ["T", a], ["T", a, "int"], ["T", "int", a]]
        for b in ["None", "int", "Quantized"]:
            out += [["U", a, b], ["U", b, a]]
        for b in inner:
            if a != b:
                out.append(["U", a, b])
                if tier == "thorough":
                    out += [["T", a, b], ["O", ["U", a, b]], ["L", ["U", a, b]]]
                    out += [["U", a, b, c] for c in ("None", "str", "Tensor")]
                    out += [["U", a, b, c] for c in inner if c not in (a, b)]
    seen, uniq = set(), []
    for e in out:
        if json.dumps(e) not in seen and not single(ref(e)):
            seen.add(json.dumps(e))
            uniq.append(e)
    return uniq


def gen_types(tier):
    for i in range(len(exprs(tier))):
        yield {"tier": tier, "i": i}


@functools.lru_cache(maxsize=None)
def built(tier):
    return [(e, build(e), ref(e)) for e in exprs(tier)]


def run_types(case):
    all_types = built(case["tier"])
    e, s, r = all_types[case["i"]]
    # Construction
    for other in (build(e, order=True), build_or(e)):
        check(other == s and s == other, "construction", (e, s, other))
        check(hash(other) == hash(s), "hash", (e, s, other))
        check(repr(other) == repr(s) and other.pyrepr() == s.pyrepr(), "print", (e, repr(s), repr(other)))
    check(ref_of(s) == r, "members", (e, repr(s)))
    check(len(s) == len(variants(r)) == len(s.variants()), "size", (e, repr(s)))
    # Parsing
    for bar in (False, True):
        parsed = symtypes.type_from_cst_expression(libcst.parse_expression(text(e, bar)))
        check(parsed == s and s == parsed, "parse", (e, text(e, bar), repr(parsed)))
    printed = symtypes.type_to_python_str(s)
    if "object" not in printed:
        again = symtypes.type_from_cst_expression(libcst.parse_expression(printed))
        check(again == s and s == again, "parse-printed", (e, printed, repr(again)))
        check(again.pyrepr() == printed, "print-again", (e, printed, again.pyrepr()))
    # Pairs
    n = 0
    for e2, t, q in all_types:
        n += 1
        same = r == q
        check((s == t) == same, "equality", lambda: (e, e2))
        check((s != t) == (not same), "inequality", lambda: (e, e2))
        if same:
            check(hash(s) == hash(t), "hash", lambda: (e, e2))
            check(repr(s) == repr(t), "repr", lambda: (e, e2, repr(s), repr(t)))
        else:
            check(repr(s) != repr(t), "repr-collision", lambda: (e, e2, repr(s)))
        u = s | t
        want = frozenset(variants(r) | variants(q))
        if len(want) > 1:
            check(ref_of(u) == want, "union", lambda: (e, e2, repr(u)))
            check(len(u) == len(want), "union-size", lambda: (e, e2, repr(u)))
            check(s in u and t in u, "member", lambda: (e, e2, repr(u)))
        if isinstance(q, frozenset):
            inside = variants(r) <= set(q)
        else:
            inside = same
        check((s in t) == inside, "contains", lambda: (e, e2))
    # Optional
    o = symtypes.Optional[s]
    want = variants(r) | {"None"}
    if len(want) > 1:
        check(set(map(ref_of, o.variants())) == want, "optional", (e, repr(o)))
        w = symtypes.unwrap_optional(o)
        rest = want - {"None"}
        check(ref_of(w) == (next(iter(rest)) if len(rest) == 1 else frozenset(rest)), "unwrap", (e, repr(w)))
    if "None" not in variants(r):
        check(symtypes.unwrap_optional(s) == s, "unwrap-plain", (e,))
    # Replacement
    olds = ["int", "Quantized", "None", ["U", "int", "float"], ["U", "Tensor", "Quantized"], ["L", "int"]]
    for old in olds:
        for new in ["Tensor", "str", ["U", "int", "str"], ["T", "int"]]:
            n += 1
            wanted = ref_replace(r, ref(old), ref(new))
            if single(wanted):
                continue
            got = s.replace(build(old), build(new))
            check(ref_of(got) == wanted, "replace", (e, old, new, repr(got)))
    return Stats(states=1, transitions=n, traces=n, outcome=repr(s))


def gen_seeds(tier):
    for seed in range(1, 5 if tier == "quick" else 17):
        yield {"seed": seed, "tier": tier}


def printed_types(tier):
    lines = []
    for e in exprs(tier):
        t = build(e)
        lines.append(f"{e!r} {t!r} {t.pyrepr()}")
    return lines


def run_seeds(case):
    """The printed form does not depend on the hash seed of the process."""
    code = "import json,sys; from checks.c28_operator_schemas import printed_types; json.dump(printed_types(sys.argv[1]), sys.stdout)"
    env = {**os.environ, "PYTHONHASHSEED": str(case["seed"]), "PYTHONPATH": os.pathsep.join([p for p in sys.path if p])}
    out = subprocess.run([sys.executable, "-c", code, case["tier"]], env=env, capture_output=True, text=True, check=True)
    got, want = json.loads(out.stdout), printed_types(case["tier"])
    for a, b in zip(got, want, strict=True):
        check(a == b, "print-hash-order", (a, b))
    return Stats(states=len(got), transitions=len(got), traces=len(got), outcome=digest(got))


# ----------------------------------------------------------------------------- binding

NAMES = ["a", "b", "c", "d"]


def signatures(tier):
    top = 3 if tier == "quick" else 4
    for n in range(top + 1):
        for defaults in itertools.product([0, 1], repeat=n):
            plain = all(x <= y for x, y in zip(defaults, defaults[1:]))
            markers = [""] if n == 0 else ["", "/", "*", "/*"]
            for marker in markers:
                if not plain and "*" not in marker:
                    continue
                for pos in range(1, n + 1) if "/" in marker else [0]:
                    for kw in range(pos, n) if "*" in marker else [n]:
                        if not plain and any(x > y for x, y in zip(defaults[:kw], defaults[1:kw])):
                            continue
                        for quant in (0, 1):
                            for inter in (0, 1):
                                yield {"defaults": list(defaults), "pos": pos, "kw": kw, "quant": quant, "inter": inter}


# declaration of a parameter with a default, and the default
DEFAULTS = {
    "int": ("int = {0}", "{0}"), "empty": ("str = ''", ""), "none": ("Optional[Tensor] = None", "None"),
    "false": ("bool = False", "False"), "string": ("str = '{0}'", "{0}"), "float": ("float = -{0}.5", "-{0}.5"),
}


def spec_of(case):
    parts = []
    for i, d in enumerate(case["defaults"]):
        if case["pos"] == i and i:
            parts.append("/")
        if case["kw"] == i:
            parts.append("*")
        parts.append(f"{NAMES[i]}: {DEFAULTS[case['style']][0].format(i)}" if d else f"{NAMES[i]}: Quantized")
    if case["pos"] and case["pos"] == len(case["defaults"]):
        parts.append("/")
    return f"probe({', '.join(parts)}) -> {'Quantized' if case['quant'] else 'Tensor'}"


def gen_binding(tier):
    for sig in signatures(tier):
        for k, style in enumerate(DEFAULTS):
            if k and (not any(sig["defaults"]) or (tier == "quick" and k != 1 + sum(sig["defaults"]) % 5 and style != "empty")):
                continue
            yield {**sig, "style": style, "tier": tier}


def run_binding(case):
    n = len(case["defaults"])
    op = Operator.from_spec(spec_of(case), fallback="torch.relu", intermediate_quantizers=("inter",) * case["inter"])
    check([p.name for p in op.parameters] == NAMES[:n], "parameter-order", (spec_of(case), op.parameters))
    check([p.default_value for p in op.parameters] == [DEFAULTS[case["style"]][1].format(i) if d else None for i, d in enumerate(case["defaults"])], "defaults", op.parameters)
    check([p.quantized for p in op.parameters] == [not d for d in case["defaults"]], "quantized", op.parameters)
    P = inspect.Parameter
    base = [P(NAMES[i], P.POSITIONAL_OR_KEYWORD, default=i if d else P.empty) for i, d in enumerate(case["defaults"])]
    extra = [P("strict_quantization", P.KEYWORD_ONLY, default=None)]
    if case["quant"]:
        extra.append(P("output_quantizer", P.KEYWORD_ONLY, default=None))
    if case["inter"]:
        extra.append(P("inter", P.KEYWORD_ONLY, default=None))
    plain = inspect.Signature(base, __validate_parameters__=False)
    full = inspect.Signature(base + extra, __validate_parameters__=False)
    pool = NAMES[: n + 1] + ["strict_quantization", "output_quantizer", "inter"]
    count, outcomes = 0, []
    kwmax = 3 if case["tier"] == "quick" else len(pool)
    for nargs in range(n + 3):
        args = tuple(f"arg{i}" for i in range(nargs))
        for k in range(kwmax + 1):
            for names in itertools.combinations(pool, k):
                for order in {names, names[::-1]}:
                    kwargs = {name: f"kw-{name}" for name in order}
                    count += 1
                    try:
                        want = dict(full.bind_partial(*args, **kwargs).arguments)
                    except TypeError:
                        want = None
                    try:
                        got = {p.name: v for p, v in op.bind_partial(*args, **kwargs)}
                    except (TypeError, ValueError):
                        got = None
                    check(got == want, "bind", lambda: (spec_of(case), args, kwargs, got, want))
                    try:
                        plain.bind(*args, **kwargs)
                        ok = True
                    except TypeError:
                        ok = False
                    check(op.validate_arguments(args, kwargs) == ok, "validate", lambda: (spec_of(case), args, kwargs, ok))
                    outcomes.append(got is not None)
    return Stats(states=count, transitions=count, traces=count, outcome=digest(outcomes))


BAD_SPECS = [
    "f(a: int, a: int) -> Tensor",
    "f(a: int, *, a: int) -> Tensor",
    "f(a: int, *args: int) -> Tensor",
    "f(a: int, **kw: int) -> Tensor",
    "f(a) -> Tensor",
    "f(a: nothing) -> Tensor",
    "f(a: int) -> nothing",
    "f(a: List[int, int]) -> Tensor",
    "f(a: Optional[int, int]) -> Tensor",
    "f(a: Sequence[int, int]) -> Tensor",
    "f(a: Dict[int]) -> Tensor",
    "f a -> Tensor",
    "",
]


def gen_bad(tier):
    yield from ({"spec": s} for s in BAD_SPECS)


def run_bad(case):
    try:
        op = Operator.from_spec(case["spec"], fallback="torch.relu")
    except ValueError as e:
        return Stats(outcome=str(e)[:40])
    check(False, "accepted", (case, op))


# ----------------------------------------------------------------------------- table


def _ops():
    import torch.nn.functional as F

    def op(spec, fallback, **kw):
        return Operator.from_spec(spec, fallback=fallback, **kw)

    one, two, nine = object(), object(), object()
    return {
        # name: (operator, aliases, fallback callable)
        "relu1": (op("relu(input: Quantized) -> Quantized", "torch.relu"), [], torch.relu),
        "relu2": (op("relu(input: Quantized, other: int) -> Quantized", "torch.relu"), ["torch.nn.functional.relu"], torch.relu),
        "frelu": (op("relu(input: Tensor) -> Quantized", "torch.nn.functional.relu"), [], F.relu),
        "silu": (op("silu(input: Quantized) -> Quantized", "torch.nn.functional.silu"), ["torch.nowhere.silu"], F.silu),
        "clash": (op("silu(input: Tensor) -> Quantized", "torch.nn.functional.silu"), ["torch.sigmoid", "torch.relu"], F.silu),
        "sig": (op("sigmoid(input: Quantized) -> Quantized", "torch.sigmoid"), [], torch.sigmoid),
        "fsig": (op("sigmoid(input: Tensor) -> Quantized", "torch.nn.functional.sigmoid"), ["torch.sigmoid", "torch.nn.functional.sigmoid"], F.sigmoid),
        "nodispatch": (op("nowhere(input: Quantized) -> Quantized", "torch.sigmoid"), [], torch.sigmoid),
        "own": (op("nowhere(input: Quantized) -> Quantized", "torch.sigmoid", dispatch_op=torch.sin), [], torch.sigmoid),
        "nometa": (Operator("relu", (), None), [], None),
    }


CALLABLES = ["torch.relu", "torch.nn.functional.relu", "torch.nn.functional.silu", "torch.sigmoid", "torch.nn.functional.sigmoid", "torch.cos"]
STRINGS = [*CALLABLES, "torch.nowhere.silu", "x", "y"]
ACTIONS = ["relu1", "relu2", "frelu", "silu", "clash", "sig", "fsig", "nodispatch", "own", "nometa", "x=torch.relu", "y=x", "x=torch.sigmoid", "torch.relu=torch.cos"]


def _import(name):
    mod, _, attr = name.rpartition(".")
    try:
        return getattr(importlib.import_module(mod), attr)
    except (ImportError, AttributeError):
        return None


class TableModel:
    def __init__(self):
        self.groups, self.index, self.strings = [], {}, {}

    def append(self, name, ext):
        op, aliases, py_op = _ops_cached()[name]
        if name in ("nodispatch", "nometa"):
            raise ValueError
        gid = self.index.get(py_op, len(self.groups))
        found = {a: _import(a) for a in aliases}
        for f in found.values():
            if f is not None and self.index.get(f, gid) != gid:
                raise ValueError
        if gid == len(self.groups):
            self.groups.append([])
        self.index[py_op] = gid
        self.groups[gid].append(name)
        if ext:
            self.strings[op.metadata.fallback] = py_op
        for a, f in found.items():
            if f is not None:
                self.index[f] = gid
                self.strings[a] = f

    def alias(self, alias, target, by_name):
        if by_name:
            if target not in self.strings:
                raise KeyError
            self.strings[alias] = self.strings[target]
        else:
            self.strings[alias] = _import(target)

    def get(self, key):
        f = self.strings.get(key) if isinstance(key, str) else key
        return self.groups[self.index[f]][::-1] if f in self.index else None


@functools.lru_cache(maxsize=None)
def _ops_cached():
    return _ops()


def gen_table(tier):
    depth = 3 if tier == "quick" else 4
    for ext in (0, 1):
        for first in itertools.product(range(len(ACTIONS)), repeat=2):
            yield {"ext": ext, "first": list(first), "depth": depth}


def run_table(case):
    from fastforward._quantops.optable import STR_ALIASES_EXTENSIONS

    ops = _ops_cached()
    count = states = 0
    seen = set()
    for rest in itertools.product(range(len(ACTIONS)), repeat=case["depth"] - 2):
        table = OperatorTable(alias_extensions=STR_ALIASES_EXTENSIONS if case["ext"] else ())
        model = TableModel()
        for step, ai in enumerate([*case["first"], *rest]):
            action = ACTIONS[ai]
            before = (json.dumps(model.groups), len(model.index), len(model.strings))
            errors = []
            for side in ("model", "table"):
                try:
                    if "=" in action:
                        alias, target = action.split("=")
                        by_name = "." not in target
                        if side == "model":
                            model.alias(alias, target, by_name)
                        else:
                            table.add_alias(alias, target if by_name else _import(target))
                    elif side == "model":
                        model.append(action, case["ext"])
                    else:
                        table.append_operator(ops[action][0], aliases=ops[action][1])
                    errors.append(None)
                except (ValueError, KeyError) as e:
                    errors.append(type(e).__name__)
            history = [ACTIONS[i] for i in [*case["first"], *rest][: step + 1]]
            check(errors[0] == errors[1], "error", lambda: (history, errors))
            if errors[0]:
                check(before == (json.dumps(model.groups), len(model.index), len(model.strings)), "model")
            count += 1
            for key in [*STRINGS, *map(_import, CALLABLES)]:
                want = model.get(key)
                try:
                    got = [(o.parameters, o.metadata.fallback, o.identifier) for o in table.get(key)]
                except KeyError:
                    got = None
                wanted = None if want is None else [(ops[w][0].parameters, ops[w][0].metadata.fallback, ops[w][0].identifier) for w in want]
                check(got == wanted, "lookup", lambda: (history, key, want, got))
                check((key in table) == (want is not None), "in", lambda: (history, key))
                if want:
                    for w, o in zip(want, table[key], strict=True):
                        expected = torch.sin if w == "own" else getattr(ff.nn.functional, ops[w][0].identifier)
                        check(o.dispatch_op() is expected, "dispatch", lambda: (history, key))
            listed = [o.identifier for o in table.operators()]
            check(listed == [ops[w][0].identifier for g in model.groups for w in g], "operators", lambda: (history, listed))
            check([o.identifier for o in table] == listed, "iter", lambda: history)
            states += 1
            seen.add(json.dumps(model.groups))
    return Stats(states=states, transitions=count, traces=count, outcome=digest(sorted(seen)))


YAML = [
    ("relu(input: Quantized) -> Quantized", "torch.relu", [], True),
    ("silu(input: Quantized) -> Quantized", "torch.nn.functional.silu", ["torch.nn.functional.relu"], True),
    ("relu(input: Quantized -> Quantized", "torch.relu", [], False),
    ("relu(input) -> Quantized", "torch.relu", [], False),
    ("nowhere(input: Quantized) -> Quantized", "torch.relu", [], False),
    ("sigmoid(input: Quantized) -> Quantized", "torch.sigmoid", ["torch.relu"], None),
]


def gen_yaml(tier):
    for n in range(1, 3 if tier == "quick" else 4):
        for rows in itertools.product(range(len(YAML)), repeat=n):
            yield {"rows": list(rows)}


def run_yaml(case):
    lines, wrong, good = [], [], []
    used = set()  # callables that belong to an operator
    owner = {}
    for r in case["rows"]:
        spec, fallback, aliases, ok = YAML[r]
        start = len(lines) + 1
        lines += [f'- op: "{spec}"', f"  fallback: {fallback}"]
        if aliases:
            lines += ["  aliases:"] + [f"    - {a}" for a in aliases]
        if ok is None:
            ok = owner.get("torch.relu", "torch.sigmoid") == "torch.sigmoid"
        fb = owner.get(fallback, fallback)
        if ok and any(owner.get(a, fb) != fb for a in aliases):
            ok = False
        if ok:
            owner[fallback] = fb
            for a in aliases:
                owner[a] = fb
            good.append((fb, start, spec))
        else:
            wrong.append(start)
    with tempfile.TemporaryDirectory() as d:
        path = pathlib.Path(d) / "ops.yaml"
        path.write_text("\n".join(lines) + "\n")
        try:
            table = OperatorTable.from_yaml(path)
        except RuntimeError as e:
            check(wrong, "refused", (lines, str(e)))
            for line in wrong:
                check(f"line: {line}]" in str(e), "line", (lines, line, str(e)))
            check(str(e).count("[line: ") == len(wrong), "lines", (lines, wrong, str(e)))
            return Stats(outcome=("error", wrong))
        check(not wrong, "accepted", lines)
        got = [(o.metadata.line_number, o.identifier) for o in table]
        groups = {}
        for fb, start, spec in good:
            groups.setdefault(fb, []).append((start, spec.split("(")[0]))
        check(got == [x for g in groups.values() for x in g], "table", (lines, got))
        check(all(o.metadata.specification_file == path for o in table), "file", got)
    return Stats(outcome=got)


FAMILIES = [
    Family("types", gen_types, run_types, "each type expression against all others: equality, hash, printing, parsing, unions, containment, optionals, replacement"),
    Family("hash-seed", gen_seeds, run_seeds, "printed form of all type expressions in processes with different hash seeds"),
    Family("binding", gen_binding, run_binding, "all signatures (also with positional-only and keyword-only markers) x all call shapes against inspect.signature"),
    Family("bad-specs", gen_bad, run_bad, "specifications that have no meaning are refused"),
    Family("table", gen_table, run_table, "all histories of additions (also failing ones) and aliases; all lookups after each step"),
    Family("yaml", gen_yaml, run_yaml, "all files of up to 2 (3) entries, valid and not"),
]
