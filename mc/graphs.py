"""Small computation graphs over a free term algebra, and their direct evaluation.

A graph description is plain JSON:

    {"inputs": n, "nodes": [node, ...], "outs": [ref, ...]}

    node = {"k": kind, "a": [ref, ...], "kw": {name: ref}}      a leaf
         = {"k": "G", "how": "fold"|"inline"|"call", "sub": graph, "a": [ref, ...]}
    ref  = ["x0", *path] | ["n2", *path] | ["c", *path]         path: items/attributes

Values are terms: a leaf returns the term "leaf(context, version, arguments)", so
two computations are equal only if they apply the same leaves to the same values.
"""

from __future__ import annotations

import collections
import contextlib
import dataclasses
import random
import uuid
import weakref

from typing import Any

import torch


class T:
    """A term (opaque value)."""

    __slots__ = ("key", "__weakref__")

    def __init__(self, key: str) -> None:
        self.key = key

    def __repr__(self) -> str:
        return self.key


@dataclasses.dataclass
class Out:
    a: Any
    b: Any


Pair = collections.namedtuple("Pair", "first second")


def freeze(v: Any) -> str:
    if isinstance(v, (T, torch.Tensor)):
        return v.key
    if isinstance(v, Pair):
        return "P(" + ",".join(freeze(e) for e in v) + ")"
    if isinstance(v, tuple):
        return "(" + ",".join(freeze(e) for e in v) + ")"
    if isinstance(v, list):
        return "[" + ",".join(freeze(e) for e in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(f"{k!r}:{freeze(e)}" for k, e in sorted(v.items())) + "}"
    if isinstance(v, Out):
        return f"Out({freeze(v.a)},{freeze(v.b)})"
    return repr(v)


def terms(v: Any) -> list[str]:
    if isinstance(v, (T, torch.Tensor)):
        return [v.key]
    if isinstance(v, (tuple, list)):
        return [k for e in v for k in terms(e)]
    if isinstance(v, dict):
        return [k for e in v.values() for k in terms(e)]
    if isinstance(v, Out):
        return terms(v.a) + terms(v.b)
    return []


def take(v: Any, key: Any) -> Any:
    if isinstance(v, Out):
        return getattr(v, key)
    if isinstance(v, Pair) and isinstance(key, str):
        return getattr(v, key)
    return v[key]


CONST = (7, "s")  # the constant used in graphs


def constant(desc: dict) -> Any:
    """The constant of a graph: plain values, or a tensor on the device `desc["const"]`."""
    if not desc.get("const"):
        return CONST
    from mc.devices import FT, NAMES

    return (FT.make("c", NAMES[desc["const"]]), "s")


class World:
    """Observations of the running case."""

    def __init__(self) -> None:
        self.context = ["d"]
        self.log: list[tuple[str, str, str]] = []  # leaf, context, arguments
        self.in_delegate = False
        self.on_call = None
        self.on_arguments: Any = None
        self.made: list[tuple[weakref.ref, str]] = []
        self.term: Any = T


W = World()


def reset() -> World:
    global W
    W = World()
    return W


def fix_ids(seed: int = 0) -> None:
    """Node identities decide the iteration order of sets: make them a function of the case."""
    rng = random.Random(seed)
    uuid.uuid4 = lambda: uuid.UUID(int=rng.getrandbits(128))


class Ctx(contextlib.AbstractContextManager):
    """An execution context which is visible in every term computed under it."""

    def __init__(self, label: str) -> None:
        self.label = label

    def __enter__(self) -> None:
        W.context.append(self.label)

    def __exit__(self, *args: Any) -> None:
        W.context.pop()


class Ctx2(Ctx):
    """Another type of context."""


def result(kind: str, head: str, make: Any) -> Any:
    """The value a leaf of this kind returns; `make` turns a key into a term."""
    if kind == "t":
        return (make(head + ".0"), make(head + ".1"))
    if kind == "p":
        return Pair(make(head + ".0"), make(head + ".1"))
    if kind == "l":
        return [make(head + ".0"), make(head + ".1")]
    if kind == "d":
        return {"items": make(head + ".a"), "1": make(head + ".1")}  # names that are also attributes of dictionaries, or numbers
    if kind == "o":
        return Out(make(head + ".a"), (make(head + ".b0"), {"k": make(head + ".b1")}))
    if kind == "S":
        return (make(head + ".0"), make(head + ".1"))
    return make(head)


ARITY = {"u": 1, "f": 1, "t": 1, "p": 1, "l": 1, "d": 1, "o": 1, "b": 2, "g": 2, "w": 1, "s": 0, "S": 0}
PATHS = {
    "t": [[0], [1]],
    "p": [[1], ["first"]],
    "l": [[1]],
    "d": [["items"], ["1"]],
    "o": [["a"], ["b", 0], ["b", 1, "k"]],
    "S": [[1]],
}
FUNCTIONS = "fg"


class Leaf(torch.nn.Module):
    def __init__(self, name: str, kind: str) -> None:
        super().__init__()
        self.leaf, self.kind, self.version = name, kind, 0

    def forward(self, *args: Any, **kwargs: Any) -> Any:
        return call(self, args, kwargs)


def call(leaf: Any, args: tuple, kwargs: dict) -> Any:
    w = W
    if w.on_call is not None:
        w.on_call(leaf.leaf)
    if w.on_arguments is not None:
        w.on_arguments(leaf, args, kwargs)
    shown = ",".join([freeze(a) for a in args] + [f"{k}={freeze(v)}" for k, v in sorted(kwargs.items())])
    if not w.in_delegate:
        w.log.append((leaf.leaf, w.context[-1], shown))
    head = f"{leaf.leaf}<{w.context[-1]}{leaf.version}>({shown})"

    def make(key: str) -> T:
        t = w.term(key)
        w.made.append((weakref.ref(t), leaf.leaf))
        return t

    return result(leaf.kind, head, make)


class Function:
    """A plain callable leaf."""

    def __init__(self, name: str, kind: str) -> None:
        self.leaf, self.kind, self.version = name, kind, 0
        self.__name__ = name

    def __call__(self, *args: Any, **kwargs: Any) -> Any:
        return call(self, args, kwargs)


class Net(torch.nn.Module):
    """The model a description stands for, as a user would write it."""

    def __init__(self, desc: dict, prefix: str = "") -> None:
        super().__init__()
        self.desc = desc
        self.leaves: dict[int, Any] = {}
        for i, n in enumerate(desc["nodes"]):
            name = f"{prefix}n{i}"
            if n["k"] == "G":
                obj: Any = Net(n["sub"], name + ".")
            elif "same" in n:
                obj = self.leaves[n["same"]]
            elif n["k"] in FUNCTIONS:
                obj = Function(name, n["k"])
            else:
                obj = Leaf(name, n["k"])
            self.leaves[i] = obj
            if isinstance(obj, torch.nn.Module) and "same" not in n:
                self.add_module(f"n{i}", obj)

    def forward(self, *args: Any, **kwargs: Any) -> Any:
        env = dict(enumerate(args))
        for k, v in kwargs.items():
            env[int(k[1:])] = v
        vals: dict[int, Any] = {}

        def get(ref: list) -> Any:
            if ref[0] == "c":
                v: Any = constant(self.desc)
            elif ref[0][0] == "x":
                v = env[int(ref[0][1:])]
            else:
                v = vals[int(ref[0][1:])]
            for key in ref[1:]:
                v = take(v, key)
            return v

        for i in order_of(self.desc):
            n = self.desc["nodes"][i]
            vals[i] = self.leaves[i](*[get(r) for r in n["a"]], **{k: get(r) for k, r in n.get("kw", {}).items()})
        outs = tuple(get(r) for r in self.desc["outs"])
        return outs[0] if len(outs) == 1 else outs


def order_of(desc: dict) -> list[int]:
    """A topological order of the nodes (ties by number)."""
    done: list[int] = []
    n = len(desc["nodes"])
    while len(done) < n:
        for i in range(n):
            if i not in done and all(d in done for d in deps(desc, i)):
                done.append(i)
                break
        else:
            raise ValueError("cyclic description")
    return done


def deps(desc: dict, i: int) -> list[int]:
    n = desc["nodes"][i]
    return sorted({int(r[0][1:]) for r in [*n["a"], *n.get("kw", {}).values()] if r[0][0] == "n"})


def evaluate(desc: dict, inputs: list[Any], ctx: str, version: Any, prefix: str = "") -> tuple[tuple, dict[str, Any]]:
    """Direct evaluation: outputs and the value, arguments of every node.

    `version(leaf)` is the version label of a leaf.
    """
    vals: dict[int, Any] = {}
    info: dict[str, Any] = {}

    def get(ref: list) -> Any:
        if ref[0] == "c":
            v: Any = constant(desc)
        elif ref[0][0] == "x":
            v = inputs[int(ref[0][1:])]
        else:
            v = vals[int(ref[0][1:])]
        for key in ref[1:]:
            v = take(v, key)
        return v

    for i in order_of(desc):
        n = desc["nodes"][i]
        name = f"{prefix}n{i}"
        args = [get(r) for r in n["a"]]
        kwargs = {k: get(r) for k, r in n.get("kw", {}).items()}
        if n["k"] == "G":
            full = list(args) + [None] * len(kwargs)
            for k, v in kwargs.items():
                full[int(k[1:])] = v
            outs, sub = evaluate(n["sub"], full, ctx, version, name + ".")
            vals[i] = outs[0] if len(outs) == 1 else outs
            info.update(sub)
        else:
            leaf = f"{prefix}n{n['same']}" if "same" in n else name
            shown = ",".join([freeze(a) for a in args] + [f"{k}={freeze(v)}" for k, v in sorted(kwargs.items())])
            vals[i] = result(n["k"], f"{leaf}<{ctx}{version(leaf)}>({shown})", T)
        info[name] = (args, kwargs, vals[i])
    return tuple(get(r) for r in desc["outs"]), info


def build(desc: dict, net: Net, order: list[int] | None = None) -> tuple[Any, dict[str, Any]]:
    """The GraphModule of a description; returns it with the reference of every node."""
    from fastforward._orchestration.graph_module import Const, GraphModule, NodeRef, Op

    graph = GraphModule()
    prefix = desc.get("names", "n")
    xs = [graph.add_input(f"x{i}") for i in range(desc["inputs"])]
    ids = {i: uuid.uuid4() for i in range(len(desc["nodes"]))}
    made: dict[int, Any] = {}

    def get(ref: list) -> Any:
        if ref[0] == "c":
            v: Any = Const(constant(desc))
        elif ref[0][0] == "x":
            v = xs[int(ref[0][1:])]
        else:
            i = int(ref[0][1:])
            path = list(ref[1:])
            if i in made and isinstance(made[i], tuple):  # the outputs of an inlined subgraph
                v = made[i][path.pop(0)] if len(made[i]) > 1 else made[i][0]
            else:
                v = made.get(i) or NodeRef(ids[i], f"{prefix}{i}")
            for key in path:
                v = v[key]
            return v
        for key in ref[1:]:
            v = v[key]
        return v

    for i in order or order_of(desc):
        n = desc["nodes"][i]
        args = [get(r) for r in n["a"]]
        kwargs = {k: get(r) for k, r in n.get("kw", {}).items()}
        target = net.leaves[i]
        if n["k"] == "G" and n["how"] != "call":
            sub, _ = build(n["sub"], target)
            made[i] = graph.add_subgraph(
                f"{prefix}{i}", sub, args, kwargs, original_module=target if n["how"] == "fold" else None
            )
        elif n["k"] == "G":
            sub, _ = build(n["sub"], target)
            made[i] = graph.add_node(f"{prefix}{i}", sub, args, kwargs, node_id=ids[i])
        elif n["k"] in FUNCTIONS:
            made[i] = graph.add_node(f"{prefix}{i}", target, args, kwargs, op=Op.call_function, node_id=ids[i])
        else:
            made[i] = graph.add_node(f"{prefix}{i}", target, args, kwargs, node_id=ids[i])
    if desc["outs"]:
        graph.add_output(*[get(r) for r in desc["outs"]])
    return graph, made
