"""C17: path queries select exactly the modules the pattern denotes."""

from __future__ import annotations

import functools
import itertools
import re

import torch

import fastforward as ff

from fastforward import mpath

from mc.harness import Bad, Family, Stats, check

PROP = "C17"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of query syntax trees, token strings and set-operation histories on the real search, against a position-set matcher over all module paths"
ASSUMPTIONS = [
    "module names are taken from a small alphabet; all name/class paths up to length 3 occur in the explored models, as do shared modules",
    "a module reachable by several matching paths is reported once, under one of them",
    "`**` inside a negation or conjunction has no documented meaning and is not explored",
    "a regular expression that contains an escaped closing bracket cannot be written in a query string and is not printed",
]


class A(torch.nn.Module):
    pass


class B(torch.nn.Module):
    pass


class SubA(A):
    pass


# ------------------------------------------------------------------ models and reference matcher


def tree(depth, names, pick, path=()):
    m = pick(path)()
    if depth:
        for n in names:
            m.add_module(n, tree(depth - 1, names, pick, path + (n,)))
    return m


def classes(path):
    """Every class assignment pattern occurs somewhere in the tree."""
    return (A, B, SubA)[(len(path) * 2 + sum(map(len, path)) + sum(1 for p in path if p == "b") * (1 + len(path))) % 3]


def model_tree():
    return tree(3, ["a", "b"], classes)


def model_shared():
    """Modules reachable by several paths, including two names of the same parent."""
    root, x, y, leaf = A(), A(), B(), SubA()
    root.a, root.b = x, y
    x.a = y
    x.b = leaf
    y.a = leaf
    y.b = leaf
    leaf.a = B()
    root.c = x
    return root


def model_names():
    """Unusual names and absent children."""
    m = torch.nn.ModuleDict({"a": torch.nn.ModuleList([A(), B()]), "1x": A(), "_a1": B(), "10": SubA(), "A": A(), "X1": B()})
    m["A"].a, m["A"].A = B(), A()
    m["a"][0].a = torch.nn.ModuleList([A(), None, SubA()])
    m["a"][0].b = None
    return m


MODELS = {"tree": model_tree, "shared": model_shared, "names": model_names}


@functools.lru_cache(None)
def model(name):
    return MODELS[name]()


def all_paths(root):
    """[(path elements, full name, module)] for every path from the root."""
    out = []
    work = [(root, (), "")]
    while work:
        m, elems, full = work.pop(0)
        for n, c in m._modules.items():
            if c is None:
                continue
            item = (elems + ((n, c),), f"{full}.{n}" if full else n, c)
            out.append(item)
            work.append((c, item[0], item[1]))
    return out


@functools.lru_cache(None)
def paths(name):
    return all_paths(model(name))


def frag_matches(frag, name, module):
    kind = frag[0]
    if kind == "name":
        return name == frag[1]
    if kind == "any":
        return True
    if kind == "cls":
        return isinstance(module, CLASSES[frag[1]])
    if kind == "re":
        return re.fullmatch(frag[1], name) is not None
    if kind == "not":
        return not frag_matches(frag[1], name, module)
    if kind == "and":
        return all(frag_matches(f, name, module) for f in frag[1:])
    if kind == "or":
        return any(frag_matches(f, name, module) for f in frag[1:])
    if kind == "pred":
        return PREDICATES[frag[1]](name, module)
    raise AssertionError(frag)


CLASSES = {"A": A, "B": B, "SubA": SubA, "torch.nn.Module": torch.nn.Module, "torch.nn.ModuleList": torch.nn.ModuleList}
PREDICATES = {"leaf": lambda name, module: not any(True for _ in module.children())}


def run_parts(parts, elems, positions):
    """Positions in `elems` reachable after matching the parts from any of `positions`."""
    for part in parts:
        new = set()
        if part == ("deep",):
            if positions:
                new = set(range(min(positions), len(elems) + 1))
        elif part[0] == "alt":
            for alt in part[1:]:
                new |= run_parts(alt, elems, positions)
        else:
            new = {p + 1 for p in positions if p < len(elems) and frag_matches(part, *elems[p])}
        positions = new
    return positions


def expected(parts, name):
    """{module: names under which it may be reported}"""
    res = {}
    for elems, full, module in paths(name):
        if len(elems) in run_parts(parts, elems, {0}):
            res.setdefault(module, set()).add(full)
    return res


# ------------------------------------------------------------------ renderings


def text_of(parts):
    return "/".join(text_part(p) for p in parts)


def text_part(p):
    if p == ("deep",):
        return "**"
    if p[0] == "alt":
        return "{" + ",".join(text_of(a) for a in p[1:]) + "}"
    return text_frag(p)


def text_frag(f):
    kind = f[0]
    if kind == "name":
        return f[1]
    if kind == "any":
        return "*"
    if kind == "cls":
        return f"[cls:{f[1]}]"
    if kind == "re":
        return "[re:" + f[1].replace("]", r"\]") + "]"
    if kind == "not":
        return "~" + text_frag(f[1])
    raise AssertionError(f)


def expressible(parts):
    for p in parts:
        if p[0] == "alt":
            if not all(expressible(a) for a in p[1:]):
                return False
        else:
            f = p
            while f[0] == "not":
                f = f[1]
            if f[0] in ("and", "or", "pred"):
                return False
    return True


def build_frag(f, cache):
    if cache is not None and f in cache:
        return cache[f]
    F = mpath.fragments
    kind = f[0]
    if kind == "name":
        r = F.PathFragment(f[1])
    elif kind in ("any", "deep"):
        r = F.WildcardFragment(match_multiple=kind == "deep")
    elif kind == "cls":
        r = F.ClassFragment(CLASSES[f[1]])
    elif kind == "re":
        r = F.RegexPathFragment(f[1])
    elif kind == "not":
        r = ~build_frag(f[1], cache)
    elif kind == "and":
        r = F.JointFragment(*(build_frag(g, cache) for g in f[1:]))
    elif kind == "or":
        r = F.DisjointFragment(*(build_frag(g, cache) for g in f[1:]))
    elif kind == "pred":
        r = F.PredicateFragment(PREDICATES[f[1]])
    if cache is not None:
        cache[f] = r
    return r


def build_part(p, cache):
    if p[0] == "alt":
        alts = [build(a, cache) for a in p[1:]]
        if len(alts) == 1:
            return mpath.selector.MultiSelector(None, (alts[0],))
        return functools.reduce(lambda x, y: x | y, alts)
    if p[0] == "and":
        sels = [mpath.Selector(None, build_frag(f, cache)) for f in p[1:]]
        return functools.reduce(lambda x, y: x & y, sels)
    if p[0] == "not":
        return ~mpath.Selector(None, build_frag(p[1], cache))
    return mpath.Selector(None, build_frag(p, cache))


def build(parts, cache):
    sels = [build_part(p, cache) for p in parts]
    return functools.reduce(lambda x, y: x / y, sels)


def build_right(parts, cache):
    sels = [build_part(p, cache) for p in parts]
    r = sels[-1]
    for s in reversed(sels[:-1]):
        r = s / r
    return r


def verify(query, parts, name, what):
    root = model(name)
    want = expected(parts, name)
    results = mpath.search(query, root)
    got = [r.module for r in results]
    detail = lambda: f"{what} on {name}: found {sorted(r.full_name for r in results)} expected {sorted(map(sorted, want.values()))}"
    check(len(got) == len(set(map(id, got))), "duplicates", detail)
    check(set(map(id, got)) == set(map(id, want)), "wrong-modules", detail)
    for r in results:
        check(r.full_name in want[r.module], "wrong-name", detail)
        check(root.get_submodule(r.full_name) is r.module, "name-resolves", detail)
        check(getattr(r.parent, r.parent_attribute) is r.module and r.full_name.split(".")[-1] == r.parent_attribute, "parent", detail)
        check(r.parent is (root.get_submodule(r.full_name.rpartition(".")[0]) if "." in r.full_name else root), "parent", detail)
    return len(got)


# ------------------------------------------------------------------ family: queries

NAME_A, NAME_B = ("name", "a"), ("name", "b")
FRAGS = [NAME_A, NAME_B, ("any",), ("deep",), ("not", NAME_A), ("cls", "A")]
SMALL = [NAME_A, ("any",), ("deep",)]


@functools.lru_cache(None)
def seqs(size, frags, nest):
    """All part sequences with exactly `size` fragments."""
    out = []
    for first in range(1, size + 1):
        for head in parts_of(first, frags, nest):
            if first == size:
                out.append((head,))
            else:
                out.extend((head, *rest) for rest in seqs(size - first, frags, nest))
    return out


@functools.lru_cache(None)
def parts_of(size, frags, nest):
    out = list(frags) if size == 1 else []
    if nest:
        out.extend(("alt", *alts) for alts in alternatives(size, frags, nest - 1))
    return out


@functools.lru_cache(None)
def alternatives(size, frags, nest):
    out = []
    for first in range(1, size + 1):
        for head in seqs(first, frags, nest):
            if first == size:
                out.append((head,))
            else:
                out.extend((head, *rest) for rest in alternatives(size - first, frags, nest))
    return out


def spaces(tier):
    yield "flat4", [s for n in range(1, 5 if tier == "quick" else 6) for s in seqs(n, tuple(FRAGS), 0)]
    yield "nest1", [s for n in range(1, 3 if tier == "quick" else 4) for s in seqs(n, tuple(FRAGS), 1)]
    yield "small", [s for n in range(1, 5 if tier == "quick" else 6) for s in seqs(n, tuple(SMALL), 1)]
    yield "deepest", [s for n in range(1, 4) for s in seqs(n, tuple(SMALL), 2)]


CHUNK = 150


def gen_queries(tier):
    for space, queries in spaces(tier):
        for start in range(0, len(queries), CHUNK):
            yield {"space": space, "tier": tier, "start": start}


def run_queries(case):
    queries = dict(spaces(case["tier"]))[case["space"]][case["start"] : case["start"] + CHUNK]
    n = 0
    hits = []
    for parts in queries:
        text = text_of(parts)
        for name in ("tree", "shared"):
            found = verify(text, parts, name, f"query {text!r}")
            cache = {}
            built = build(parts, cache)
            check(verify(built, parts, name, f"built {text!r}") == found, "builder", text)
            verify(build_right(parts, None), parts, name, f"right-built {text!r}")
            n += 3
            hits.append(found)
        for printed in (str(mpath.query(text)), str(built), str(built.simplify())):
            verify(printed, parts, "tree", f"{text!r} printed as {printed!r}")
        parsed = mpath.query(text)
        check(len(built) == len(parts) and len(parsed) == len(parts) and len(list(built)) == len(parts), "length", text)
        check([str(s) for s in parsed] == [str(mpath.query(text_of(parts[i:]))) for i in range(len(parts))], "iteration", text)
        check([str(parsed[i]) for i in range(len(parts))] == [str(mpath.query(text_part(p))) for p in parts], "items", text)
    return Stats(states=n, transitions=n, traces=n, outcome=hits)


# ------------------------------------------------------------------ family: fragments

SIMPLE = [NAME_A, ("name", "1x"), ("name", "_a1"), ("name", "10"), ("name", "0"), ("name", "2"), ("any",), ("cls", "A"), ("cls", "SubA"),
          ("cls", "torch.nn.Module"), ("cls", "torch.nn.ModuleList"), ("re", "a|b"), ("re", "[0-9]+"), ("re", "[^a]"), ("re", r"\d"),
          ("re", ".*"), ("re", ".+x|_.*"), ("re", "a"), ("re", ""), ("re", r"[a-z]?[0-1]?"), ("re", r"(a)|[\dx]{2}"), ("re", "[A-Z].?"), ("re", "(?i)a"), ("name", "A"), ("pred", "leaf")]


def gen_fragments(tier):
    atoms = SIMPLE + [("not", f) for f in SIMPLE]
    pool = atoms + [(op, f, g) for op in ("and", "or") for f in SIMPLE for g in (SIMPLE if tier != "quick" else SIMPLE[::2])]
    pool += [("not", (op, f, g)) for op in ("and", "or") for f in SIMPLE[::3] for g in SIMPLE[::2]]
    pool += [("not", ("not", f)) for f in SIMPLE] + [("and", f, ("not", g)) for f in SIMPLE for g in SIMPLE]
    for start in range(0, len(pool), 40):
        yield {"frags": pool[start : start + 40]}


def thaw(x):
    return tuple(thaw(e) for e in x) if isinstance(x, (list, tuple)) else x


def run_fragments(case):
    n = 0
    hits = []
    for f in map(thaw, case["frags"]):
        for parts in ((f,), (("deep",), f), (f, ("deep",)), (("deep",), f, f), (("any",), ("alt", (f,), (NAME_A, f)))):
            for name in MODELS:
                hits.append(verify(build(parts, {}), parts, name, f"built {parts}"))
                n += 1
                if expressible(parts):
                    verify(text_of(parts), parts, name, f"query {text_of(parts)!r}")
                    verify(" / ".join(map(text_part, parts)), parts, name, f"spaced {text_of(parts)!r}")
                    verify("/" + text_of(parts) + "/", parts, name, f"slashes {text_of(parts)!r}")
                    printed = str(build(parts, {}))
                    context = {**mpath.local_context(), "Module": torch.nn.Module, "ModuleList": torch.nn.ModuleList}
                    try:
                        again = mpath.query(printed, context=context)
                    except Exception as e:
                        raise Bad("unparsable-print", f"{parts} prints as {printed!r}: {e!r}")
                    verify(again, parts, name, f"{parts} printed as {printed!r}")
    return Stats(states=n, transitions=n, outcome=hits)


# ------------------------------------------------------------------ family: token strings

TOKENS = ["a", "0", "*", "~", "/", "{", "}", ",", "&al", "&none", "[cls:A]", "[re:(]", "[re:a|b]", "[cls:Missing]", "[none:x]", "[", "]", '"', ".", "-", "&"]
ALIAS = (NAME_A, ("deep",))


class Reject(Exception):
    pass


class Grammar:
    """Independent recogniser of the documented syntax over token lists."""

    def __init__(self, tokens):
        self.t = tokens
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, tok):
        if self.peek() == tok:
            self.i += 1
            return True
        return False

    def query(self):
        self.take("/")
        r = self.seq(True)
        if self.peek() is not None:
            raise Reject()
        return r

    def seq(self, top):
        parts = list(self.part())
        while self.take("/"):
            if self.peek() is None:
                break
            parts.extend(self.part())
        return tuple(parts)

    def part(self):
        tok = self.peek()
        self.i += 1
        if tok in ("a", "0"):
            return [("name", tok)]
        if tok == "*":
            return [("deep",)] if self.take("*") else [("any",)]
        if tok == "~":
            inner = self.part()
            if len(inner) > 1 or inner[0][0] == "alt":
                raise Reject()
            if inner[0] == ("deep",) or inner[0] == ("not", ("deep",)):
                raise NotImplementedError()  # meaning not documented
            return [("not", inner[0])]
        if tok == "{":
            alts = [self.seq(False)]
            while self.take(","):
                alts.append(self.seq(False))
            if not self.take("}"):
                raise Reject()
            return [("alt", *alts)]
        if tok == "&al":
            return list(ALIAS)
        if tok == "[cls:A]":
            return [("cls", "A")]
        if tok == "[re:a|b]":
            return [("re", "a|b")]
        raise Reject()


def gen_tokens(tier):
    length = 4
    for first in itertools.product(range(len(TOKENS)), repeat=2):
        yield {"first": list(first), "length": length, "full": tier != "quick"}


def run_tokens(case):
    aliases = {"al": mpath.query("a/**")}
    n = acc = 0
    head = [TOKENS[i] for i in case["first"]]
    tails = [()]
    pool = TOKENS
    for length in range(1, case["length"] - 1):
        tails += list(itertools.product(pool, repeat=length))
    if case["full"]:
        tails += list(itertools.product(TOKENS[:11], repeat=case["length"] - 1))
    candidates = [(*head, *t) for t in tails]
    if case["first"][1] == 0:
        candidates.append(tuple(head[:1]))
        if case["first"][0] == 0:
            candidates.append(())
    for toks in candidates:
        if "[" in toks and "]" in toks:
            continue  # an explicit bracket pair would be read as an extension
        text = " ".join(toks)
        n += 1
        try:
            parts = Grammar(toks).query()
        except Reject:
            parts = None
        except NotImplementedError:
            continue
        try:
            q = mpath.query(text, aliases=aliases)
        except (mpath._parser.MPathParseError, mpath.selector.MPathQueryError):
            check(parts is None, "rejected", lambda: f"{text!r} is a well-formed query")
            continue
        except Exception as e:
            raise Bad("crash", f"{text!r}: {e!r}")
        check(parts is not None, "accepted", lambda: f"{text!r} is malformed but gives {q}")
        acc += 1
        verify(q, parts, "names", f"tokens {text!r}")
        check(str(mpath.query("".join(toks) if "0" not in toks and "a" not in toks else text, aliases=aliases)) == str(q), "spacing", text)
    return Stats(states=n, transitions=n, outcome=acc)


# ------------------------------------------------------------------ family: collections

SETQ = ["**", "*", "a/**", "**/a", "{a,b}", "~a", "**/[cls:A]", "**/~[cls:B]", "*/*", "{a/b,b/a}/**", "nothing"]


def items(coll):
    return [(r.full_name, id(r.module)) for r in coll]


def gen_sets(tier):
    for name in ("tree", "shared", "names"):
        for p in range(len(SETQ)):
            for q in range(len(SETQ)):
                yield {"model": name, "p": p, "q": q}


OPS = {
    "union": (lambda a, b: a | b, lambda a, b: a.union(b), set.union),
    "intersection": (lambda a, b: a & b, lambda a, b: a.intersection(b), set.intersection),
    "difference": (lambda a, b: a - b, lambda a, b: a.difference(b), set.difference),
    "xor": (lambda a, b: a ^ b, lambda a, b: a.symmetric_difference(b), set.symmetric_difference),
}


def run_sets(case):
    root = model(case["model"])
    a, b = mpath.search(SETQ[case["p"]], root), mpath.search(SETQ[case["q"]], root)
    before = (items(a), items(b))
    n = 0
    for name, (op, method, ref) in OPS.items():
        want = ref(set(items(a)), set(items(b)))
        for f in (op, method):
            r = f(a, b)
            got = items(r)
            check(len(got) == len(set(got)) and set(got) == want, "set-operation", lambda: f"{case} {name}: {got} want {want}")
            check((items(a), items(b)) == before, "operand-changed", name)
            for third in SETQ[::3]:
                c = mpath.search(third, root)
                for name2, (op2, _, ref2) in OPS.items():
                    got2 = items(op2(r, c))
                    check(len(got2) == len(set(got2)) and set(got2) == ref2(set(want), set(items(c))), "set-chain", lambda: f"{case} {name} {name2}")
                    n += 1
        other = mpath.search("**", MODELS["tree"]())
        for f in (op, method):
            try:
                f(a, other)
            except ValueError:
                pass
            else:
                check(False, "foreign-root", name)
    check(a == mpath.search(SETQ[case["p"]], root), "equal-search", case)
    check((a == b) == (items(a) == items(b)), "equality", case)
    check([(n_, id(m)) for n_, m in a.named_modules()] == items(a) and [id(m) for m in a.modules()] == [i for _, i in items(a)], "iteration", case)
    check(a.map(lambda nm, m: (nm, id(m))) == items(a), "map", case)
    check([(id(p), id(c)) for p, c in a.parents()] == [(id(r.parent), id(r.module)) for r in a], "parents", case)
    check(items(a[1:3]) == items(a)[1:3] and items(a[::-1]) == items(a)[::-1], "slices", case)
    dropped = items(a)
    k = a[:]
    while len(k):
        del k[len(k) // 2]
        del dropped[len(dropped) // 2]
        check(items(k) == dropped and items(a) == before[0], "delete", case)
    return Stats(states=n, transitions=n, outcome=[len(a), len(b)])


# ------------------------------------------------------------------ family: updates

ACTS = ["replace", "none", "partial", "noupdate", "foreign", "unsafe", "again"]


def gen_apply(tier):
    for q in SETQ:
        for acts in itertools.product(ACTS, repeat=2 if tier == "quick" else 3):
            yield {"query": q, "acts": list(acts)}


def run_apply(case):
    root = model_tree()
    ref = {full: m for _, full, m in all_paths(root)}
    coll = mpath.search(case["query"], root)
    names = [r.full_name for r in coll]
    current = {n: ref[n] for n in names}  # what the collection believes
    counter = itertools.count()

    def locate(n):
        head, _, leaf = n.rpartition(".")
        return (ref_parent[n], leaf)

    ref_parent = {n: (ref[n.rpartition(".")[0]] if "." in n else root) for n in names}
    for act in case["acts"]:
        calls = []
        fresh = {}

        def make(name, module):
            calls.append((name, module))
            m = A()
            m.mark = next(counter)
            fresh[name] = m
            return m

        stale = [n for n in names if getattr(*locate(n)) is not current[n]]
        if act in ("replace", "again", "unsafe"):
            try:
                coll.apply(make, safe=act != "unsafe")
            except ValueError:
                check(act != "unsafe" and stale, "safe-update", lambda: f"{case} {act}: refused although nothing changed")
                return Stats(outcome=case["query"])
            check(act == "unsafe" or not stale, "safe-update", lambda: f"{case}: overwrote a module that was already replaced")
            for n in names:
                check(getattr(*locate(n)) is fresh[n], "not-replaced", n)
                current[n] = fresh[n]
        elif act == "none":
            coll.apply(lambda n, m: calls.append((n, m)))
        elif act == "noupdate":
            coll.apply(make, update=False)
        elif act == "partial":
            coll.apply(lambda n, m: make(n, m) if len(n) % 2 else calls.append((n, m)), safe=False)
            for n in fresh:
                check(getattr(*locate(n)) is fresh[n], "not-replaced", n)
                current[n] = fresh[n]
        elif act == "foreign":
            if names:
                other = B()
                setattr(*locate(names[0]), other)
            continue
        check([n for n, _ in calls] == names, "apply-calls", lambda: f"{case} {act}: called for {[n for n, _ in calls]} of {names}")
        check([(r.full_name, id(r.module)) for r in coll] == [(n, id(current[n])) for n in names], "collection-updated", lambda: f"{case} {act}")
    return Stats(states=len(case["acts"]), transitions=len(case["acts"]), outcome=[case["query"], len(names)])


# ------------------------------------------------------------------ family: extensions and aliases

EXT_OPS = ["reg:x:1", "reg:x:2", "over:x:2", "over:x:3", "reg:y:1", "exit"]


def gen_extensions(tier):
    for ops in itertools.product(EXT_OPS, repeat=4 if tier == "quick" else 5):
        yield {"ops": list(ops)}


def make_extension(value):
    class Ext(mpath.Fragment):
        def __init__(self, text):
            self.text = text

        def match(self, name, module):
            return name == {"1": "a", "2": "b", "3": "zzz"}[value] and self.text == " q"

        @classmethod
        def from_raw_string(cls, raw):
            return mpath.Selector(None, cls(raw))

    return Ext


EXTS = {v: make_extension(v) for v in "123"}


def run_extensions(case):
    registry = {}
    scopes = []
    entered = []
    try:
        for op in case["ops"]:
            kind, _, rest = op.partition(":")
            if kind == "exit":
                if not scopes:
                    continue
                ctx, tag, previous = scopes.pop()
                ctx.__exit__(None, None, None)
                entered.pop()
                registry.pop(tag, None)
                if previous is not None:
                    registry[tag] = previous
            else:
                tag, value = rest.split(":")
                try:
                    ctx = mpath.register_mpath_query_extension(tag, EXTS[value], override=kind == "over")
                except ValueError:
                    check(kind == "reg" and tag in registry, "refused", case)
                    continue
                check(kind == "over" or tag not in registry, "duplicate-tag", case)
                ctx.__enter__()
                entered.append(ctx)
                scopes.append((ctx, tag, registry.get(tag)))
                registry[tag] = value
            for tag in "xy":
                try:
                    q = mpath.query(f"[{tag}: q]")
                except mpath._parser.MPathParseError:
                    check(tag not in registry, "extension-lost", lambda: f"{case} at {op}: [{tag}:]")
                    continue
                check(tag in registry, "extension-left", lambda: f"{case} at {op}")
                verify(q, (("name", {"1": "a", "2": "b", "3": "zzz"}[registry[tag]]),), "tree", f"{case} extension")
            verify("[re:a|b]/[cls:A]", (("re", "a|b"), ("cls", "A")), "tree", "builtin extensions")
    finally:
        for ctx in reversed(entered):
            ctx.__exit__(None, None, None)
    return Stats(states=len(case["ops"]), transitions=len(case["ops"]), outcome=sorted(registry.items()))


def gen_aliases(tier):
    pool = seqs(1, tuple(FRAGS), 1) + seqs(2, tuple(SMALL), 1)
    for p in range(len(pool)):
        yield {"p": p}


def run_aliases(case):
    pool = seqs(1, tuple(FRAGS), 1) + seqs(2, tuple(SMALL), 1)
    p = pool[case["p"]]
    n = 0
    for q in pool[:: 1 if case["p"] % 3 == 0 else 2]:
        al = mpath.aliases(first=text_of(p), second="&first/" + text_of(q), third="{&second,&first}")
        for name in ("tree", "shared"):
            root = model(name)
            for text, parts in (("&first", p), ("&second", p + q), ("&first/&first", p + p), ("{&first," + text_of(q) + "}/a", (("alt", p, q), NAME_A)),
                                ("**/&third", (("deep",), ("alt", p + q, p))), ("&first/b", p + (NAME_B,)), ("&first", p)):
                want = expected(parts, name)
                for how in ("query", "search", "attribute"):
                    if how == "query":
                        res = mpath.search(mpath.query(text, aliases=al), root)
                    elif how == "search":
                        res = mpath.search(text, root, aliases=al)
                    else:
                        root.some_aliases = al
                        try:
                            res = mpath.search(text, root, root_aliases_attribute="some_aliases")
                        finally:
                            del root.some_aliases
                    check({id(r.module) for r in res} == {id(m) for m in want}, "alias", lambda: f"{text_of(p)} {text_of(q)} {text} {how} on {name}: {[r.full_name for r in res]}")
                    n += 1
    return Stats(states=n, transitions=n, outcome=case["p"])


# ------------------------------------------------------------------ family: tags

TAG_SETS = list(itertools.chain.from_iterable(itertools.combinations(["x", "x/y", "x/y/z", "y", "z/x"], k) for k in range(3)))


def gen_tags(tier):
    for q1 in TAG_SETS:
        yield {"tags": list(q1)}


def closure(tags):
    return {"/".join(t.split("/")[:i]) for t in tags for i in range(1, len(t.split("/")) + 1)}


def run_tags(case):
    n = 0
    for second in TAG_SETS:
        root = torch.nn.Module()
        root.a, root.b, root.c = ff.nn.QuantizerStub(*case["tags"]), ff.nn.QuantizerStub(*second, weight_quantizer=True), A()
        root.c.a = ff.nn.QuantizerStub(output_quantizer=True)
        have = {"a": closure(case["tags"]), "b": closure(second) | closure(["parameter/weight"]), "c.a": closure(["activation/output"])}
        for ask in TAG_SETS + [("parameter",), ("parameter/weight", "x"), ("weight",), ("activation/output",), ("activation",)]:
            if not ask:
                continue
            for text in ("**/[qtag:" + ",".join(ask) + "]", "**/[quantizer: " + " , ".join(ask) + " ]"):
                want = {k for k, v in have.items() if set(ask) <= v}
                q = mpath.query(text)
                for query in (q, str(q), text):
                    got = [r.full_name for r in mpath.search(query, root)]
                    check(set(got) == want and len(got) == len(want), "tags", lambda: f"{case} {second} {query}: {got} want {want}")
                    found = [r.full_name for r in ff.find_quantizers(root, query)]
                    check(set(found) == want, "find-quantizers", lambda: f"{query}: {found}")
                    n += 1
                neg = {"a", "b", "c", "c.a"} - want
                got = {r.full_name for r in mpath.search("**/~" + text[3:], root)}
                check(got == neg, "negated-tags", lambda: f"{got} want {neg}")
                got = {r.full_name for r in ff.find_quantizers(root, "**/~" + text[3:])}
                check(got == neg - {"c"}, "negated-quantizers", lambda: f"{got}")
    return Stats(states=n, transitions=n, outcome=case["tags"])


FAMILIES = [
    Family("queries", gen_queries, run_queries, "all query syntax trees up to the size x models x {parsed, built left, built right, printed}", timeout=600),
    Family("fragments", gen_fragments, run_fragments, "all fragments, negations, pairs x positions x models"),
    Family("tokens", gen_tokens, run_tokens, "all token strings up to length four (thorough: five over a subset)", timeout=600),
    Family("sets", gen_sets, run_sets, "all pairs of collections x operators x chains"),
    Family("updates", gen_apply, run_apply, "all sequences of collection updates"),
    Family("extensions", gen_extensions, run_extensions, "all sequences of extension registrations and scope exits"),
    Family("aliases", gen_aliases, run_aliases, "pairs of alias definitions x uses"),
    Family("tags", gen_tags, run_tags, "all pairs of tag sets x tag queries"),
]
