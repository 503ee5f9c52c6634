"""C27: serialised objects reload as equal objects of the same class and are never confused."""

from __future__ import annotations

import collections
import enum
import itertools
import math
import sys
import types

import torch
import yaml

import fastforward as ff

from fastforward.serialization import yamlable

from mc.harness import Family, Stats, check, digest  # noqa: F401

PROP = "C27"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of values, class definitions, construction calls and sharing patterns; every dumped document is loaded with every loader that supports it and compared with the original and with an undecorated twin class"
ASSUMPTIONS = [
    "constructors that class decorators add after a class was created (dataclass subclasses) are only required not to be reloaded wrongly",
    "objects are compared as constructed: later changes that are not part of a __getstate__/__setstate__ pair are not stored (documented)",
    "loading is not a security boundary",
]

torch.set_num_threads(1)
LOADERS = {"Loader": yaml.Loader, "FullLoader": yaml.FullLoader, "UnsafeLoader": yaml.UnsafeLoader}

MOD = "ffser_cases"
module = types.ModuleType(MOD)
sys.modules[MOD] = module


class Color(enum.Enum):
    RED = 1
    BLUE = "blue"


class Level(enum.IntEnum):
    LOW = 1


class Str(str):
    pass


@yamlable
class Box:
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs

    def key(self):
        return (self.args, self.kwargs)


@yamlable
class Pair:
    def __init__(self, first, second=None, *, third=0):
        self.first, self.second, self.third = first, second, third


class SubBox(Box):
    pass


for c in (Color, Level, Str, Box, Pair, SubBox):
    c.__module__ = MOD
    c.__qualname__ = c.__name__
    setattr(module, c.__name__, c)


def same(a, b, seen=None, path=""):
    """Structural equality: same types, same values, same sharing of mutable objects."""
    seen = {} if seen is None else seen
    if type(a) is not type(b):
        return f"{path}: {type(a).__name__} became {type(b).__name__} ({a!r} -> {b!r})"
    if a is None or isinstance(a, (bool, int, str, bytes, complex, enum.Enum, type, torch.dtype, torch.device, slice, types.FunctionType, types.BuiltinFunctionType)) and not isinstance(a, Str):
        return None if a == b or a is b else f"{path}: {a!r} became {b!r}"
    if isinstance(a, float):
        ok = (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
        return None if ok else f"{path}: {a!r} became {b!r}"
    if isinstance(a, Str):
        return None if str(a) == str(b) else f"{path}: {a!r} became {b!r}"
    mutable = not isinstance(a, (tuple, frozenset))
    if mutable:
        if id(a) in seen:
            return None if seen[id(a)][1] is b else f"{path}: sharing lost"
        if any(v[1] is b for v in seen.values()):
            return f"{path}: different objects became one"
        seen[id(a)] = (a, b)
    if isinstance(a, torch.Tensor):
        ok = a.dtype == b.dtype and a.shape == b.shape and torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)) and a.requires_grad == b.requires_grad
        return None if ok else f"{path}: tensor {a} became {b}"
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, seen, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, (set, frozenset)):
        return None if a == b and {type(x) for x in a} == {type(x) for x in b} else f"{path}: {a!r} became {b!r}"
    if isinstance(a, dict):
        # yaml sorts the keys of plain dicts by default
        if len(a) != len(b):
            return f"{path}: keys {list(a)} became {list(b)}"
        keys = {(type(k), k): k for k in b}
        for k, v in a.items():
            if (type(k), k) not in keys:
                return f"{path}: key {k!r} missing in {list(b)}"
            r = same(v, b[k], seen, f"{path}[{k!r}]")
            if r:
                return r
        return None
    fields = lambda o: {k: v for k, v in vars(o).items() if not k.endswith("args_ex__")}  # noqa: E731
    return same(fields(a), fields(b), seen, f"{path}.{type(a).__name__}")


def roundtrip(value, loaders, what, shared=False, **dump_args):
    text = yaml.dump(value, **dump_args)
    for name in loaders:
        again = yaml.load(text, Loader=LOADERS[name])
        # arguments are copied when an object is constructed: what they share with the document is not stored
        r = same(value, again) if shared else same_values(value, again)
        check(r is None, "reload:different", lambda: f"{what} with {name}: {r}\n{text[:300]}")
    return text


# --------------------------------------------------------------------------- family: values

SAFE = {
    "none": None, "true": True, "false": False, "zero": 0, "one": 1, "neg": -7, "big": 10**40, "f0": 0.0, "fneg0": -0.0, "f1": 1.0, "f1e20": 1e20, "f1e-7": 1e-7, "fpi": math.pi,
    "inf": math.inf, "ninf": -math.inf, "nan": math.nan, "fmax": 1.7976931348623157e308, "fmin": 5e-324,
    "s-empty": "", "s-null": "null", "s-tilde": "~", "s-true": "true", "s-yes": "yes", "s-no": "No", "s-1": "1", "s-1.0": "1.0", "s-1e3": "1e3", "s-hex": "0x1F", "s-oct": "010", "s-60": "1:30", "s-inf": ".inf", "s-nan": ".nan",
    "s-date": "2020-01-01", "s-eq": "=", "s-merge": "<<", "s-star": "*a", "s-amp": "&a", "s-bang": "!ff.obj", "s-tag": "!!python/tuple []", "s-list": "[1, 2]", "s-dict": "{a: 1}", "s-colon": "a: b", "s-hash": "a #b",
    "s-nl": "a\nb\n", "s-space": "  a  ", "s-quote": "'\"", "s-percent": "%a", "s-uni": "é漢\u2028\x85", "s-ctrl": "\x00\x07", "s-dash": "- a", "s-q": "? a", "s-long": "x y " * 60, "s-name": "torch.float32",
    "bytes": b"\x00\xff", "bytes0": b"", "complex": 1 + 2j, "list0": [], "tuple0": (), "dict0": {}, "set0": set(), "list": [1, "1", 1.0], "tuple": (1, (2,), []), "dict": {"a": 1, 1: "a", None: 2}, "dict-tuple": {(1, 2): "x"}, "set": {1, 2},
    "merge-key": {"<<": {"a": 1}, "=": 2}, "bool-keys": {True: 1, "true": 2, 2: 3, "2": 4},
    **{str(d): d for d in (torch.float32, torch.float64, torch.float16, torch.bfloat16, torch.int8, torch.uint8, torch.int16, torch.int32, torch.int64, torch.bool, torch.complex64, torch.float8_e4m3fn, torch.float8_e5m2, torch.half, torch.long)},
}
UNSAFE = {
    "frozenset": lambda: frozenset({1, 2}), "device": lambda: torch.device("cpu"), "device1": lambda: torch.device("cuda", 1), "size": lambda: torch.Size([2, 3]), "color": lambda: Color.RED, "blue": lambda: Color.BLUE, "level": lambda: Level.LOW,
    "class": lambda: Box, "function": lambda: ff.quantization.granularity.granularity_from_sizes if hasattr(ff.quantization.granularity, "granularity_from_sizes") else len, "builtin": lambda: len, "odict": lambda: collections.OrderedDict([("b", 1), ("a", 2)]),
    "str-sub": lambda: Str("x"), "tensor": lambda: torch.tensor([1.5, -2.0]), "tensor0": lambda: torch.tensor(3), "tensor-bf16": lambda: torch.tensor([[1.0]], dtype=torch.bfloat16), "slice": lambda: slice(1, None, 2),
}
GRANS = {
    "PerTensor": lambda: ff.granularity.PerTensor(), "PerChannel()": lambda: ff.granularity.PerChannel(), "PerChannel1": lambda: ff.granularity.PerChannel(1), "PerChannel-neg": lambda: ff.granularity.PerChannel(-1), "PerChannel01": lambda: ff.granularity.PerChannel((0, 1)),
    "PerTile": lambda: ff.granularity.PerTile((2, 3)), "PerTileList": lambda: ff.granularity.PerTile([2, 3]), "PerTileSize": lambda: ff.granularity.PerTile(torch.Size([2, 3])), "PerBlock": lambda: ff.granularity.PerBlock(1, 32, 0),
    "PerBlockKw": lambda: ff.granularity.PerBlock(block_dims=(0, 1), block_sizes=(2, 4)), "PerBlockMix": lambda: ff.granularity.PerBlock(block_dims=[-1], block_sizes=[4], per_channel_dims=[0], strict_blocks=False),
    "PerBlockPos": lambda: ff.granularity.PerBlock((1,), (4,), (0,), False),
}


def needs_unsafe(name):
    return name in UNSAFE or name == "PerTileSize"


def leaf(name):
    if name in UNSAFE:
        return UNSAFE[name]()
    if name in GRANS:
        return GRANS[name]()
    return SAFE[name]


LEAVES = list(SAFE) + list(UNSAFE) + list(GRANS)


def hashable(v):
    try:
        hash(v)
    except TypeError:
        return False
    return True


WRAPPERS = {
    "bare": lambda v: v, "positional": lambda v: Box(v), "keyword": lambda v: Box(key=v), "second": lambda v: Pair(1, v), "keyword-only": lambda v: Pair("a", third=v), "subclass": lambda v: SubBox(v, v), "list": lambda v: [v, Box([v])],
    "tuple": lambda v: Box((v, (v,))), "dict": lambda v: Box({"k": v}), "nested": lambda v: Box(Pair(Box(v), second=[SubBox(x=v)])), "key": lambda v: Box({v: 1}) if hashable(v) else None, "setarg": lambda v: Box({v}) if hashable(v) else None,
    "outer-dict": lambda v: {"a": Box(v), "b": v},
}


def gen_values(tier):
    for name in LEAVES:
        yield {"kind": "one", "leaf": name}
    for name in LEAVES:
        yield {"kind": "two", "leaf": name}
    if tier == "thorough":
        for name in SAFE:
            yield {"kind": "three", "leaf": name}


DUMPS = ({}, {"default_flow_style": True}, {"sort_keys": False, "width": 20}, {"indent": 4, "explicit_start": True, "default_style": '"'})


def run_values(case):
    n = 0
    name = case["leaf"]
    loaders = ("Loader", "UnsafeLoader") if needs_unsafe(name) else tuple(LOADERS)
    if case["kind"] == "one":
        for w, wrap in WRAPPERS.items():
            value = wrap(leaf(name))
            if value is None and w != "bare":
                continue
            if "nan" in name and w in ("key", "setarg"):
                continue
            if w in ("key", "setarg") and name == "tensor0":
                continue
            if w in ("key", "setarg") and name.startswith(("tensor", "Per", "fneg0")):
                continue  # compared by identity or equal to another key
            for i, dump in enumerate(DUMPS):
                try:
                    roundtrip(value, loaders, f"{w}({name}) dump {i}", **dump)
                except (yaml.YAMLError, TypeError, ValueError) as e:
                    # values that yaml itself cannot represent in this place are not this package's concern
                    plain = {"positional": [leaf(name)], "keyword": {"k": leaf(name)}}
                    try:
                        ok = all(same(p, yaml.load(yaml.dump(p, **dump), Loader=yaml.UnsafeLoader)) is None for p in plain.values())
                    except Exception:  # noqa: BLE001
                        ok = False
                    check(not ok or w in ("key", "setarg") and name in UNSAFE, "reload:error", lambda: f"{w}({name}): {type(e).__name__}: {e}")
                n += 1
        return Stats(states=n, transitions=n, traces=1, outcome=f"ok:{name}")
    if case["kind"] == "two":
        for other in LEAVES:
            lo = loaders if not needs_unsafe(other) else ("Loader", "UnsafeLoader")
            roundtrip(Box(leaf(name), k=leaf(other)), lo[-1:], f"Box({name}, k={other})")
            a = leaf(name)
            roundtrip([Pair(a, leaf(other)), Pair(leaf(other), third=a)], lo[-1:], f"[Pair({name},{other}), Pair({other}, third={name})]")
            n += 2
        return Stats(states=n, transitions=n, traces=1, outcome=f"ok:{name}")
    for b, c in itertools.product(SAFE, repeat=2):
        roundtrip(Pair([SAFE[name], SAFE[b]], {"x": SAFE[c]}, third=(SAFE[b],)), ("FullLoader",), f"{name} {b} {c}")
        n += 1
    return Stats(states=n, transitions=n, traces=1, outcome=f"ok:{name}")


# --------------------------------------------------------------------------- family: sharing


def gen_sharing(tier):
    size = 5 if tier == "thorough" else 4
    # all ways in which `size` slots can refer to objects: restricted growth strings
    def rgs(n):
        def rec(prefix, m):
            if len(prefix) == n:
                yield tuple(prefix)
                return
            for v in range(m + 2):
                yield from rec(prefix + [v], max(m, v))
        yield from rec([], -1)

    for slots in rgs(size):
        for kind in ("box", "list", "dict", "gran", "tuple", "mixed"):
            for where in ("list", "dict", "args", "args-nested", "two-args", "state"):
                yield {"slots": slots, "kind": kind, "where": where}


def run_sharing(case):
    make = {
        "box": lambda i: Box(i), "list": lambda i: [i], "dict": lambda i: {"v": i}, "gran": lambda i: ff.granularity.PerBlock(1, 2 + i, 0), "tuple": lambda i: (i, [i]),
        "mixed": lambda i: [lambda: Box(i), lambda: [i], lambda: Pair([i], Box(i)), lambda: {"v": Box(i)}, lambda: (Box(i),)][i](),
    }[case["kind"]]
    objs = [make(i) for i in range(max(case["slots"]) + 1)]
    slots = [objs[s] for s in case["slots"]]
    where = case["where"]
    if where == "list":
        value = slots
    elif where == "dict":
        value = {f"k{i}": v for i, v in enumerate(slots)}
    elif where == "args":
        value = Box(*slots)
    elif where == "args-nested":
        value = Box(slots[:2], k={"x": slots[2:], "y": Pair(slots[0], slots[-1])})
    elif where == "two-args":
        value = [Box(slots[0], k=slots[1]), Box(slots[2:]), slots[3]]
    else:
        value = [Stateful(slots[0]), Stateful(slots[1]), slots[2:]]
        value[0].extra, value[1].extra = slots[2], slots[3]
    if where in ("args", "args-nested", "two-args"):
        # the object refers to its arguments, the document to a copy of them: sharing within one call is kept
        text = yaml.dump(value)
        for name, loader in LOADERS.items():
            again = yaml.load(text, Loader=loader)
            targets = [(value, again)] if where != "two-args" else list(zip(value, again))
            for a, b in targets:
                r = same_values(a, b)
                check(r is None, "sharing:values", lambda: f"{case} {name}: {r}\n{text}")
            if where == "args":
                ids = [[x is y for y in again.args] for x in again.args]
                want = [[x is y for y in slots] for x in slots]
                if case["kind"] not in ("tuple",):
                    check(ids == want, "sharing:args", lambda: f"{case} {name}: {ids} instead of {want}\n{text}")
    else:
        roundtrip(value, LOADERS, str(case), shared=True)
    return Stats(states=1, transitions=3, traces=1, outcome=where)


def same_values(a, b):
    """`same` without the sharing of objects."""
    class Forget(dict):
        def __contains__(self, k):
            return False

        def values(self):
            return ()

    return same(a, b, Forget())


@yamlable
class Stateful:
    def __init__(self, first):
        self.first = first
        self.extra = None

    def __getstate__(self):
        return {"first": self.first, "extra": self.extra}

    def __setstate__(self, state):
        self.first, self.extra = state["first"], state["extra"]


Stateful.__module__, Stateful.__qualname__ = MOD, "Stateful"
module.Stateful = Stateful


# --------------------------------------------------------------------------- family: classes

BASE_NEW = {
    "none": "", "star": "    def __new__(cls, *args, **kwargs):\n        self = super().__new__(cls)\n        self.new = (args, dict(kwargs))\n        return self\n",
    "named": "    def __new__(cls, value, name='d', **kw):\n        self = super().__new__(cls)\n        self.new = (value, name)\n        return self\n",
}
BASE_INIT = {
    "none": "", "default": "    def __init__(self, value, name='d'):\n        super().__init__()\n        self.value, self.name = value, name\n",
    "star": "    def __init__(self, *args, **kwargs):\n        super().__init__()\n        self.args, self.kwargs = args, dict(kwargs)\n",
    "kwonly": "    def __init__(self, value, *, name='d'):\n        super().__init__()\n        self.value, self.name = value, name\n",
    "posonly": "    def __init__(self, value, /, name='d', *rest):\n        super().__init__()\n        self.value, self.name, self.rest = value, name, rest\n",
    "mutating": "    def __init__(self, value, name='d'):\n        super().__init__()\n        self.value = list(value) if isinstance(value, list) else value\n        self.name = name\n        if isinstance(value, list):\n            value.append('changed')\n",
}
BASE_EXTRA = {
    "none": "", "state": "    def __getstate__(self):\n        return {k: v for k, v in vars(self).items() if not k.endswith('args_ex__')}\n    def __setstate__(self, state):\n        for k, v in state.items():\n            setattr(self, k, v)\n",
    "subclasses": "    registry = []\n    def __init_subclass__(cls, flag=None, **kw):\n        super().__init_subclass__(**kw)\n        Base.registry.append((cls.__name__, flag))\n        cls.flag = flag\n",
    "frozen": "    def __setattr__(self, name, value):\n        if name in vars(self) or name not in ('value', 'name', 'new', 'args', 'kwargs', 'rest', 'extra', 'mixed'):\n            raise AttributeError(name)\n        object.__setattr__(self, name, value)\n",
}
SUBS = {
    "none": None,
    "plain": "class Sub(Base):\n    pass\n",
    "init-first": "class Sub(Base):\n    def __init__(self, value, extra=5, **kw):\n        super().__init__(value, **kw)\n        self.extra = extra\n",
    "init-last": "class Sub(Base):\n    def __init__(self, extra, value='v'):\n        self.extra = extra\n        super().__init__([value])\n",
    "init-nosuper": "class Sub(Base):\n    def __init__(self, extra):\n        self.extra = extra\n",
    "new": "class Sub(Base):\n    def __new__(cls, *args, **kwargs):\n        self = super().__new__(cls, *args, **kwargs)\n        self.extra = len(args)\n        return self\n",
    "mixin-after": "class Mixin:\n    def hello(self):\n        return 1\nclass Sub(Base, Mixin):\n    pass\n",
    "mixin-before": "class Mixin:\n    def __init__(self, extra, *args, **kwargs):\n        super().__init__(*args, **kwargs)\n        self.extra = extra\nclass Sub(Mixin, Base):\n    pass\n",
    "mixin-new": "class Mixin:\n    def __new__(cls, *args, **kwargs):\n        self = super().__new__(cls)\n        self.mixed = args\n        return self\nclass Sub(Mixin, Base):\n    pass\n",
    "two-bases": "@yamlable\nclass Other:\n    def __init__(self, other=3, **kw):\n        super().__init__(**kw)\n        self.other = other\n    def __setattr__(self, name, value):\n        object.__setattr__(self, name, value)\nclass Sub(Other, Base):\n    def __init__(self, value, name='n'):\n        Base.__init__(self, value)\n        self.other = name\n",
    "decorated": "@yamlable\nclass Sub(Base):\n    def __init__(self, value, extra=1):\n        super().__init__(value)\n        self.extra = extra\n",
    "deep": "class Mid(Base):\n    def __init__(self, a, b=2):\n        super().__init__((a, b))\nclass Sub(Mid):\n    pass\n",
    "deep-init": "class Mid(Base):\n    pass\nclass Sub(Mid):\n    def __init__(self, a, *, b=2):\n        super().__init__([a, b])\n        self.extra = b\n",
    "nested": "class Outer:\n    class Sub(Base):\n        def __init__(self, value):\n            super().__init__(value)\nSub = Outer.Sub\n",
    "classmethod": "class Sub(Base):\n    @classmethod\n    def make(cls, *args, **kwargs):\n        return cls(*args, **kwargs)\n",
    "flagged": "class Sub(Base, flag=7):\n    pass\n",
}
CALLS = [
    ((), {}), ((1,), {}), ((1, 2), {}), ((1, 2, 3), {}), ((), {"value": 1}), ((1,), {"name": "n"}), ((1,), {"extra": 9}), (([1, 2],), {}), (([1], [2]), {}), (("a",), {"value": [3]}), (("a", [1]), {"name": "n"}), ((), {"extra": 1, "value": 2}), ((1,), {"b": 3}), ((None, True), {"other": 1}),
    ((), {"name": "n", "value": (1, 2)}),
]


def gen_classes(tier):
    for new, init, extra, sub in itertools.product(BASE_NEW, BASE_INIT, BASE_EXTRA, SUBS):
        if (sub == "flagged") and extra != "subclasses":
            continue
        yield {"new": new, "init": init, "extra": extra, "sub": sub}


def define(case, decorated, mod):
    src = "from fastforward.serialization import yamlable as _y\n" if decorated else ""
    src += "yamlable = _y\n" if decorated else "def yamlable(cls):\n    return cls\n"
    body = BASE_NEW[case["new"]] + BASE_INIT[case["init"]] + BASE_EXTRA[case["extra"]]
    src += "@yamlable\nclass Base:\n" + (body or "    pass\n")
    if SUBS[case["sub"]]:
        src += SUBS[case["sub"]]
    ns = mod.__dict__
    for k in ("Base", "Sub", "Mid", "Mixin", "Other", "Outer"):
        ns.pop(k, None)
    ns["__name__"] = mod.__name__
    exec(compile(src, "<case>", "exec"), ns)
    return ns


def construct(cls, args, kwargs):
    import copy

    args, kwargs = copy.deepcopy((args, kwargs))
    try:
        return cls(*args, **kwargs), (args, kwargs), None
    except Exception as e:  # noqa: BLE001
        return None, (args, kwargs), type(e)


def fields(o):
    return {k: v for k, v in vars(o).items() if not k.endswith("args_ex__")}


def run_classes(case):
    mod, twin = types.ModuleType(MOD + "_d"), types.ModuleType(MOD + "_t")
    sys.modules[mod.__name__], sys.modules[twin.__name__] = mod, twin
    n = 0
    outcomes = set()
    try:
        def attempt(*a):
            try:
                return define(*a), None
            except TypeError as e:
                return None, e

        ns, err = attempt(case, True, mod)
        tw, terr = attempt(case, False, twin)
        check((err is None) == (terr is None), "class:definition", lambda: f"{case}: {err} / {terr}")
        if err is not None:
            return Stats(states=1, transitions=0, traces=0, outcome="undefinable")
        name = "Sub" if case["sub"] != "none" else "Base"
        cls, plain = ns[name], tw[name]
        if case["extra"] == "subclasses":
            check(ns["Base"].registry == tw["Base"].registry, "class:init-subclass", lambda: f"{case}: {ns['Base'].registry} instead of {tw['Base'].registry}")
            check(getattr(cls, "flag", "unset") == getattr(plain, "flag", "unset"), "class:init-subclass-flag", lambda: f"{case}")
        for args, kwargs in CALLS:
            n += 1
            obj, after, exc = construct(cls, args, kwargs)
            ref, ref_after, ref_exc = construct(plain, args, kwargs)
            what = lambda: f"{case} {name}(*{args}, **{kwargs})"  # noqa: E731
            check(exc is ref_exc, "class:constructor-outcome", lambda: f"{what()}: {exc} instead of {ref_exc}")
            if exc is not None:
                outcomes.add("rejected")
                continue
            check(fields(obj) == fields(ref) and after == ref_after, "class:constructor-effect", lambda: f"{what()}: {fields(obj)} instead of {fields(ref)}")
            try:
                text = yaml.dump(obj)
            except RuntimeError as e:
                # only objects whose constructors are all the default ones may be refused
                own = any("__init__" in c.__dict__ or "__new__" in c.__dict__ for c in plain.__mro__[:-1])
                check(not own, "class:refused", lambda: f"{what()}: {e}")
                outcomes.add("refused")
                continue
            for lname, loader in LOADERS.items():
                again = yaml.load(text, Loader=loader)
                check(type(again) is cls, "class:type", lambda: f"{what()} {lname}: {type(again)}")
                r = same(fields(obj), fields(again))
                check(r is None, "class:fields", lambda: f"{what()} {lname}: {r}\n{text}")
            # a reloaded object can be stored again
            check(yaml.dump(again) == text, "class:second-dump", lambda: f"{what()}:\n{text}\n{yaml.dump(again)}")
            outcomes.add("reloaded")
        return Stats(states=n, transitions=n, traces=n, outcome=",".join(sorted(outcomes)))
    finally:
        sys.modules.pop(mod.__name__, None)
        sys.modules.pop(twin.__name__, None)


# --------------------------------------------------------------------------- family: arguments that cannot be copied


def gen_arguments(tier):
    for arg in ("generator", "lock", "nonleaf", "module", "lambda", "file", "iterator", "parameter", "uninitialized", "weird-deepcopy", "cyclic"):
        for how in ("positional", "keyword", "nested"):
            for cls in ("box", "quantizer"):
                yield {"arg": arg, "how": how, "cls": cls}


class NoCopy:
    def __deepcopy__(self, memo):
        raise RuntimeError("no copies")


class HoldQuantizer(ff.nn.Quantizer):
    def __init__(self, *args, **kwargs):
        super().__init__()
        object.__setattr__(self, "held", (args, kwargs))

    def quantize(self, data):
        return data


HoldQuantizer.__module__, HoldQuantizer.__qualname__ = MOD, "HoldQuantizer"
module.HoldQuantizer = HoldQuantizer


def run_arguments(case):
    import threading

    cyc = [1]
    cyc.append(cyc)
    arg = {
        "generator": lambda: (i for i in range(3)), "lock": threading.Lock, "nonleaf": lambda: torch.ones(2, requires_grad=True) * 2, "module": lambda: torch.nn.Linear(2, 2), "lambda": lambda: (lambda: 1), "file": lambda: sys.stdin,
        "iterator": lambda: iter([1, 2]), "parameter": lambda: torch.nn.Parameter(torch.ones(2)), "uninitialized": lambda: torch.nn.UninitializedParameter(), "weird-deepcopy": NoCopy, "cyclic": lambda: cyc,
    }[case["arg"]]()
    cls = Box if case["cls"] == "box" else HoldQuantizer
    if case["how"] == "positional":
        obj = cls(arg, 1)
    elif case["how"] == "keyword":
        obj = cls(key=arg)
    else:
        obj = cls([arg])
    held = obj.held if cls is HoldQuantizer else (obj.args, obj.kwargs)
    got = held[0][0] if case["how"] == "positional" else held[1]["key"] if case["how"] == "keyword" else held[0][0][0]
    check(got is arg, "arguments:replaced", str(case))
    if case["arg"] == "generator":
        check(list(got) == [0, 1, 2], "arguments:consumed", str(case))
    if case["arg"] == "iterator":
        check(list(got) == [1, 2], "arguments:consumed", str(case))
    return Stats(states=1, transitions=1, traces=1, outcome=case["arg"])


# --------------------------------------------------------------------------- family: tags

TAGS = ("!ff.obj", "!ff.obj.mine", "!ff.obj2", "!ff", "!f", "!other", "!ff.ob")


def gen_tags(tier):
    for tags in itertools.permutations(TAGS[1:], 3 if tier == "thorough" else 2):
        yield {"tags": tags}


def run_tags(case):
    saved = [(k, dict(k.yaml_constructors), dict(k.yaml_multi_constructors)) for k in (yaml.Loader, yaml.FullLoader, yaml.UnsafeLoader)]
    saved_r = (dict(yaml.Dumper.yaml_representers), dict(yaml.Dumper.yaml_multi_representers))
    try:
        classes = []
        for i, tag in enumerate(case["tags"]):
            def constructor(loader, suffix, node, i=i, tag=tag):
                return (tag, loader.construct_mapping(node, deep=True)["v"])

            def representer(dumper, data, tag=tag):
                return dumper.represent_mapping(tag, {"v": data.v})

            class K:
                def __init__(self, v):
                    self.v = v

            K.__module__, K.__qualname__, K.__name__ = MOD, f"K{i}", f"K{i}"
            setattr(module, f"K{i}", K)
            yamlable(K, tag=tag, yaml_constructor=constructor, yaml_representer=representer)
            classes.append(K)
        objs = [K(10 + i) for i, K in enumerate(classes)] + [Box(5)]
        text = yaml.dump(objs)
        for name, loader in LOADERS.items():
            again = yaml.load(text, Loader=loader)
            want = [(t, 10 + i) for i, t in enumerate(case["tags"])]
            check(again[:-1] == want and type(again[-1]) is Box and again[-1].args == (5,), "tags:confused", lambda: f"{case} {name}: {again}")
    finally:
        for k, c, m in saved:
            k.yaml_constructors, k.yaml_multi_constructors = c, m
        yaml.Dumper.yaml_representers, yaml.Dumper.yaml_multi_representers = saved_r
    return Stats(states=1, transitions=len(objs), traces=1, outcome="ok")


# --------------------------------------------------------------------------- family: quantizers and granularities


def gen_quantizers(tier):
    for gran in GRANS:
        yield {"kind": "granularity", "gran": gran}
    for bits, sym, onesided, dtype, gran in itertools.product((1, 2, 4, 8, 3.5), (True, False), (True, False), (None, "float32", "bfloat16", "int8"), GRANS):
        yield {"kind": "linear", "bits": bits, "sym": sym, "onesided": onesided, "dtype": dtype, "gran": gran, "pos": False}
    for bits, gran in itertools.product((2, 8), GRANS):
        yield {"kind": "linear", "bits": bits, "sym": True, "onesided": True, "dtype": None, "gran": gran, "pos": True}
        yield {"kind": "dynamic", "bits": bits, "gran": gran}
        yield {"kind": "subclass", "bits": bits, "gran": gran}
    yield {"kind": "stub"}
    for doc in ("missing-module", "missing-class", "missing-name", "bad-args"):
        yield {"kind": "document", "doc": doc}


class SubQuantizer(ff.nn.LinearQuantizer):
    def __init__(self, gran, bits=3):
        super().__init__(bits + 1, granularity=gran)
        self.gran_arg = gran


SubQuantizer.__module__, SubQuantizer.__qualname__ = MOD, "SubQuantizer"
module.SubQuantizer = SubQuantizer


def run_quantizers(case):
    kind = case["kind"]
    if kind == "document":
        text = {
            "missing-module": "!ff.obj {name: no.such.module.X, initargs: !!python/tuple [[], {}]}", "missing-class": "!ff.obj {name: fastforward.nn.NoSuchQuantizer, initargs: !!python/tuple [[], {}]}",
            "missing-name": "!ff.obj {initargs: !!python/tuple [[], {}]}", "bad-args": "!ff.obj {name: fastforward.granularity.PerChannel, initargs: !!python/tuple [[1, 2, 3, 4], {}]}",
        }[case["doc"]]
        for name, loader in LOADERS.items():
            try:
                value = yaml.load(text, Loader=loader)
            except Exception:  # noqa: BLE001
                continue
            check(False, "document:accepted", f"{case['doc']} {name}: {value!r}")
        return Stats(states=1, transitions=3, traces=1, outcome="refused")
    if kind == "stub":
        obj = ff.nn.QuantizerStub()
    elif kind == "granularity":
        obj = GRANS[case["gran"]]()
    elif kind == "dynamic":
        obj = ff.nn.DynamicLinearQuantizer(case["bits"], granularity=GRANS[case["gran"]]())
    elif kind == "subclass":
        obj = SubQuantizer(GRANS[case["gran"]](), bits=case["bits"])
    else:
        dtype = getattr(torch, case["dtype"]) if case["dtype"] else None
        g = GRANS[case["gran"]]()
        obj = ff.nn.LinearQuantizer(case["bits"], granularity=g, symmetric=case["sym"], allow_one_sided=case["onesided"], quantized_dtype=dtype) if not case["pos"] else ff.nn.LinearQuantizer(case["bits"])
        if case["pos"]:
            obj.granularity = g
    text = yaml.dump({"q": obj, "again": obj})
    for name in ("Loader", "UnsafeLoader") if case.get("gran") == "PerTileSize" else LOADERS:
        again = yaml.load(text, Loader=LOADERS[name])
        check(again["q"] is again["again"], "quantizer:sharing", f"{case} {name}")
        q = again["q"]
        check(type(q) is type(obj), "quantizer:type", f"{case} {name}: {type(q)}")
        if kind == "granularity":
            check(q == obj and repr(q) == repr(obj), "granularity:equal", lambda: f"{case}: {obj!r} became {q!r}")
            for shape in ((4, 6), (2, 3), (4, 32), (8, 64), (6,), (4, 4, 32)):
                try:
                    want = obj.tile_size(torch.Size(shape))
                except Exception as e:  # noqa: BLE001
                    want = type(e)
                try:
                    got = q.tile_size(torch.Size(shape))
                except Exception as e:  # noqa: BLE001
                    got = type(e)
                check(want == got, "granularity:tile", f"{case} {shape}: {want} / {got}")
            continue
        for attr in ("num_bits", "granularity", "symmetric", "allow_one_sided", "quantized_dtype"):
            if hasattr(obj, attr):
                check(getattr(q, attr) == getattr(obj, attr), "quantizer:attribute", lambda: f"{case} {name}: {attr} {getattr(obj, attr)!r} became {getattr(q, attr)!r}")
        check(repr(q) == repr(obj), "quantizer:repr", lambda: f"{case} {name}: {obj!r} became {q!r}")
        check({k: (v.dtype, type(v)) for k, v in q.named_parameters()} == {k: (v.dtype, type(v)) for k, v in obj.named_parameters()}, "quantizer:parameters", f"{case} {name}")
    return Stats(states=1, transitions=3, traces=1, outcome=kind)


# --------------------------------------------------------------------------- family: states

STATES = [0, 1, -0.0, 0.0, False, True, "", "x", b"", None, [], [0], (), (0,), {}, {"a": 0}, {"a": []}, set(), torch.float32, [[]], {"": None}]
HOOKS = ["both", "inherited", "set-only", "get-only"]


def gen_states(tier):
    for i, j in itertools.product(range(len(STATES)), repeat=2):
        for hooks in HOOKS:
            yield {"initial": i, "state": j, "hooks": hooks}


def run_states(case):
    """The state of an object is restored exactly once, whatever its value is."""
    import copy

    calls = []
    initial, state = copy.deepcopy((STATES[case["initial"]], STATES[case["state"]]))

    class Base:
        def __init__(self, value):
            self.value = value

        if case["hooks"] != "set-only":
            def __getstate__(self):
                return self.value

        if case["hooks"] != "get-only":
            def __setstate__(self, state):
                calls.append(state)
                self.value = state

    if case["hooks"] == "inherited":
        class Holder(Base):
            pass
    else:
        Holder = Base
    Holder.__module__, Holder.__qualname__ = MOD, "Holder"
    yamlable(Holder)
    module.Holder = Holder
    obj = Holder(initial)
    obj.value = state
    # `object.__getstate__` returns the attributes
    want = vars(obj).copy() if case["hooks"] == "set-only" else state
    for nested in (False, True):
        text = yaml.dump([obj, {"k": obj}] if nested else obj)
        for name, loader in LOADERS.items():
            calls.clear()
            again = yaml.load(text, Loader=loader)
            if nested:
                check(again[0] is again[1]["k"], "states:sharing", lambda: f"{case}\n{text}")
                again = again[0]
            if case["hooks"] == "get-only":
                r = same(copy.deepcopy(STATES[case["initial"]]), again.value)
                check(not calls and r is None, "states:initial", lambda: f"{case} {name}: {again.value!r}: {r}\n{text}")
                continue
            check(len(calls) == 1, "states:once", lambda: f"{case} {name}: state restored {len(calls)} times\n{text}")
            if case["hooks"] == "set-only":
                check(again.value["value"] == want["value"] and type(again.value["value"]) is type(want["value"]), "states:value", lambda: f"{case} {name}: {again.value!r} instead of {want!r}\n{text}")
            else:
                r = same(want, again.value)
                check(r is None, "states:value", lambda: f"{case} {name}: {r}\n{text}")
    return Stats(states=2, transitions=2 * len(LOADERS), traces=2, outcome=case["hooks"])


FAMILIES = [
    Family("states", gen_states, run_states, "all pairs of initial values and states x definitions of __getstate__ and __setstate__ x loaders"),
    Family("values", gen_values, run_values, "every leaf value in every place of a document, and all pairs of leaves, with every loader and dump style"),
    Family("sharing", gen_sharing, run_sharing, "all ways to share objects between the slots of containers, arguments and states"),
    Family("classes", gen_classes, run_classes, "all combinations of constructor definitions over a class hierarchy x construction calls, compared with undecorated twins and reloaded"),
    Family("arguments", gen_arguments, run_arguments, "constructor arguments that cannot be copied do not change what constructing does"),
    Family("tags", gen_tags, run_tags, "all ordered pairs (triples) of custom tags, also if one is a prefix of another"),
    Family("quantizers", gen_quantizers, run_quantizers, "granularities, quantizers and malformed documents"),
]
