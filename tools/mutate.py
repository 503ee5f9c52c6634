"""Mutation sweep: which small changes of the anchored files does a check not notice?

usage: mutate.py PROP COUNT [OFFSET] [FILE...]  (files relative to src/fastforward; default: the anchors of PROP)

Every mutant is made in a scratch copy and decided by the quick check of PROP; the ones it does not
report are printed with their diff, to be judged by hand (equivalent, outside of the property, or missed).
"""

import ast, difflib, json, os, pathlib, shutil, subprocess, sys, tempfile

HERE = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("FF_REPO", "/repo"))
JOBS = os.environ.get("MUT_JOBS", "8")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.BitOr: "&", ast.BitAnd: "|"}


def mutants(text):
    """(line, description, new text)"""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = text.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def sub(a, b, new):
        return (raw[:a] + new.encode() + raw[b:]).decode()

    def src(n):
        a, b = seg(n)
        return raw[a:b].decode()

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in [*n.args.args, *n.args.kwonlyargs, *n.args.posonlyargs, n.args.vararg, n.args.kwarg]:
                if a is not None and a.annotation is not None:
                    skip |= {id(x) for x in ast.walk(a.annotation)}
            if n.returns is not None:
                skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, (ast.Raise, ast.Assert)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            skip |= {id(x) for x in ast.walk(n)}
    out = []
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        a, b = seg(n)
        L = n.lineno
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            la, lb = seg(n.left)[1], seg(n.comparators[0])[0]
            out.append((L, "compare", sub(la, lb, f" {CMP[type(n.ops[0])]} ")))
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [src(v) for j, v in enumerate(n.values) if j != i]
                op = " and " if isinstance(n.op, ast.And) else " or "
                out.append((L, "drop operand", sub(a, b, "(" + op.join(f"({r})" for r in rest) + ")")))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((L, "drop unary", sub(a, b, f"({src(n.operand)})")))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            la, lb = seg(n.left)[1], seg(n.right)[0]
            gap = raw[la:lb].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.BitOr: "|", ast.BitAnd: "&"}[type(n.op)]
            out.append((L, "operator", sub(la, lb, gap.replace(sym, BIN[type(n.op)], 1))))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, bool, float) :
            new = repr(not n.value) if isinstance(n.value, bool) else repr(n.value + 1)
            out.append((L, "constant", sub(a, b, new)))
        elif isinstance(n, ast.IfExp):
            out.append((L, "ternary", sub(a, b, f"({src(n.body)})")))
            out.append((L, "ternary", sub(a, b, f"({src(n.orelse)})")))
        elif isinstance(n, (ast.If, ast.While)):
            ta, tb = seg(n.test)
            out.append((L, "condition false", sub(ta, tb, f"({src(n.test)}) and False")))
            if isinstance(n, ast.If):
                out.append((L, "condition true", sub(ta, tb, f"({src(n.test)}) or True")))
        elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            out.append((L, "drop statement", sub(a, b, "pass")))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(n.targets[0] if isinstance(n, ast.Assign) else n.target, (ast.Attribute, ast.Subscript)) or isinstance(n, (ast.AugAssign, ast.Delete)):
            out.append((L, "drop statement", sub(a, b, "pass")))
        elif isinstance(n, (ast.Break, ast.Continue)):
            out.append((L, "drop jump", sub(a, b, "pass")))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
                (a1, b1), (a2, b2) = seg(n.args[0]), seg(n.args[1])
                out.append((L, "swap", (raw[:a1] + raw[a2:b2] + raw[b1:a2] + raw[a1:b1] + raw[b2:]).decode()))
            for k in n.keywords:
                if k.arg:
                    ka, kb = seg(k)
                    e = kb
                    while raw[e : e + 1] in (b" ", b"\n"):
                        e += 1
                    if raw[e : e + 1] == b",":
                        out.append((L, "drop keyword", sub(ka, e + 1, "")))
                    else:
                        out.append((L, "drop keyword", sub(ka, kb, "")))
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Attribute):
                out.append((L, "drop call", sub(a, b, f"({src(n.args[0])})")))
            elif not n.args and not n.keywords and isinstance(n.func, ast.Attribute) and n.func.attr not in ("auto", "__init__"):
                out.append((L, "drop call", sub(a, b, f"({src(n.func.value)})")))
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                out.append((L, "slice", sub(*seg(n.lower), "")))
    good = []
    for L, what, new in sorted(out, key=lambda t: t[:2]):
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        if new != text:
            good.append((L, what, new))
    return good


def main():
    prop, count = sys.argv[1], int(sys.argv[2])
    offset = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    files = sys.argv[4:]
    if not files:
        row = next(r for r in map(json.loads, open(HERE / "properties.jsonl")) if r["id"] == prop)
        for f in row["anchors"]["files"]:
            p = REPO / f
            files += [str(q.relative_to(REPO / "src/fastforward")) for q in (sorted(p.rglob("*.py")) if p.is_dir() else [p]) if q.suffix == ".py"]
    pool = [(f, *m) for f in files for m in mutants((REPO / "src/fastforward" / f).read_text())]
    step = max(1, len(pool) // count)
    chosen = pool[offset % step :: step]
    root = pathlib.Path(tempfile.mkdtemp(prefix="mut"))
    killed = alive = 0
    try:
        shutil.copytree(REPO / "src", root / "src", ignore=shutil.ignore_patterns("__pycache__"))
        for extra in ("tests", "docs"):
            pass
        for f, line, what, new in chosen:
            p = root / "src/fastforward" / f
            old = p.read_text()
            p.write_text(new)
            env = {**os.environ, "FF_REPO": str(root), "PYTHONPATH": str(root / "src"), "MC_SETTLE": "0", "PYTHONDONTWRITEBYTECODE": "1", "MC_EVIDENCE": str(root / "evidence")}
            try:
                r = subprocess.run([sys.executable, "run.py", prop, "--jobs", JOBS], cwd=HERE, env=env, capture_output=True, text=True, timeout=600)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            p.write_text(old)
            if rc == 1:
                killed += 1
            else:
                alive += 1
                d = [x for x in difflib.unified_diff(old.splitlines(), new.splitlines(), n=0, lineterm="") if not x.startswith(("---", "+++", "@@"))]
                print(f"ALIVE {prop} {f}:{line} {what} rc={rc}\n  " + "\n  ".join(d[:8]), flush=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print(f"{prop}: {len(pool)} mutants, {len(chosen)} tried, {killed} reported, {alive} not", flush=True)


main()
