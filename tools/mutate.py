#!/usr/bin/env python3
"""Development aid: systematic small mutants of the library; keeps those which pass the repository's tests.

mutate.py gen OUTDIR            write mutants OUTDIR/<n>.py.json
mutate.py test OUTDIR WORKERS   run the test suite on each (in scratch copies); survivors -> OUTDIR/survivors.json
mutate.py check OUTDIR          run the checks on each survivor
"""
import ast, json, os, random, shutil, subprocess, sys, copy
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
PKG = "src/colosseum"
FILES = ["engine.py", "dimensions.py", "units.py", "parser.py", "declaration.py", "constants.py", "validators.py", "wrappers.py", "shapes.py", "colors.py"]
CHECKS = {
    "engine.py": "C01 C02 C03 C09 C10 C28 C11 C08 C26 C07 C06 C05 C04",
    "dimensions.py": "C04 C05 C06 C21 C03 C07",
    "units.py": "C12 C13 C23 C27 C11",
    "parser.py": "C13 C14 C22 C19 C23 C18",
    "declaration.py": "C16 C17 C18 C19 C20 C21 C24 C27 C23",
    "constants.py": "C16 C24 C23 C26 C17 C18 C19",
    "validators.py": "C29 C13 C14 C16 C22",
    "wrappers.py": "C22 C25 C19 C27",
    "shapes.py": "C22 C23 C27",
    "colors.py": "C14 C15 C27",
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult, ast.FloorDiv], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv]}
SWAP = [("left", "right"), ("top", "bottom"), ("width", "height"), ("min", "max"), ("horizontal", "vertical"), ("margin", "padding"), ("opening", "closing"), ("content", "padding_box")]


def swaps(name):
    out = []
    for a, b in SWAP:
        for p, q in ((a, b), (b, a)):
            parts = name.split("_")
            if p in parts:
                out.append("_".join(q if k == p else k for k in parts))
    return out


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        def variant(fn):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            r = fn(m, t)
            return ast.unparse(ast.fix_missing_locations(t))
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    def f(m, t, k=k, new=new): m.ops[k] = new()
                    yield line, f"{type(op).__name__}->{new.__name__}", variant(f)
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                def f(m, t, new=new): m.op = new()
                yield line, f"{type(n.op).__name__}->{new.__name__}", variant(f)
        if isinstance(n, ast.BinOp):
            def f(m, t):
                l = m.left
                m.op, m.left, m.right = ast.Add(), l, ast.Constant(0)
            if isinstance(n.op, (ast.Add, ast.Sub)):
                yield line, "drop right operand", variant(f)
        if isinstance(n, ast.BoolOp):
            def f(m, t): m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield line, "and<->or", variant(f)
            for k in range(len(n.values)):
                def f(m, t, k=k):
                    del m.values[k]
                    if len(m.values) == 1: m.values = m.values * 2
                yield line, f"drop operand {k}", variant(f)
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            for d in (1, -1):
                def f(m, t, d=d): m.value = m.value + d
                yield line, f"const {n.value}{d:+}", variant(f)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            def f(m, t): m.value = not m.value
            yield line, "bool flip", variant(f)
        if isinstance(n, ast.Attribute):
            for s in swaps(n.attr):
                def f(m, t, s=s): m.attr = s
                yield line, f"{n.attr}->{s}", variant(f)
        if isinstance(n, ast.Constant) and type(n.value) is str and "_" in n.value and n.value.replace("_", "").isalpha():
            for s in swaps(n.value):
                def f(m, t, s=s): m.value = s
                yield line, f"'{n.value}'->'{s}'", variant(f)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for s in swaps(n.id):
                def f(m, t, s=s): m.id = s
                yield line, f"{n.id}->{s}", variant(f)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            def f(m, t):
                m.op = ast.UAdd() if isinstance(m.op, ast.USub) else ast.Not()
                if isinstance(m.op, ast.Not): m.operand = ast.UnaryOp(ast.Not(), m.operand)
            yield line, "drop unary", variant(f)
        if isinstance(n, ast.If):
            def f(m, t): m.test = ast.Constant(True)
            yield line, "if True", variant(f)
            def f(m, t): m.test = ast.Constant(False)
            yield line, "if False", variant(f)
        for field in ("body", "orelse"):
            body = getattr(n, field, None)
            if isinstance(body, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for k, st in enumerate(body):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Raise, ast.For)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        def f(m, t, k=k, field=field): getattr(m, field)[k] = ast.Pass()
                        yield st.lineno, "delete statement", variant(f)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "Choices":
            for k in range(len(n.args)):
                def f(m, t, k=k): del m.args[k]
                yield line, f"Choices: drop {ast.unparse(n.args[k])}", variant(f)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("round", "int", "abs") and len(n.args) == 1:
            def f(m, t): m.func = ast.Name("int" if m.func.id == "round" else "float" if m.func.id == "int" else "float", ast.Load())
            yield line, f"{n.func.id}() replaced", variant(f)


def gen(out):
    os.makedirs(out, exist_ok=True)
    n = 0
    for fn in FILES:
        src = open(f"{REPO}/{PKG}/{fn}").read()
        base = ast.unparse(ast.parse(src))
        seen = {base}
        for line, what, text in mutants(src):
            if text in seen:
                continue
            seen.add(text)
            n += 1
            json.dump({"id": n, "file": fn, "line": line, "what": what, "text": text, "src": src.splitlines()[line - 1].strip() if line else ""}, open(f"{out}/{n}.json", "w"))
    print(n)


def test(out, workers):
    from queue import Queue
    q = Queue()
    for i in range(workers):
        d = f"{out}/w{i}"
        if not os.path.exists(d):
            shutil.copytree(REPO, d, symlinks=True)
        q.put(d)
    done = {}
    ids = sorted(int(f[:-5]) for f in os.listdir(out) if f[:-5].isdigit())
    state = f"{out}/tested.json"
    if os.path.exists(state):
        done = {int(k): v for k, v in json.load(open(state)).items()}

    def one(i):
        if i in done:
            return
        m = json.load(open(f"{out}/{i}.json"))
        d = q.get()
        p = f"{d}/{PKG}/{m['file']}"
        orig = open(p).read()
        try:
            open(p, "w").write(m["text"])
            try:
                for part in (["tests/test_color.py", "tests/test_declaration.py", "tests/test_dimensions.py", "tests/test_parser.py", "tests/test_shapes.py", "tests/test_units.py", "tests/test_validators.py", "tests/test_wrappers.py", "tests/engine"], ["tests/web_platform/CSS2"]):
                  r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"] + part, cwd=d, env=dict(os.environ, PYTHONPATH=f"{d}/src", PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True, timeout=200)
                  if r.returncode: break
                done[i] = r.returncode == 0
            except subprocess.TimeoutExpired:
                done[i] = False
        finally:
            open(p, "w").write(orig)
            q.put(d)
        if len(done) % 20 == 0:
            json.dump(done, open(state, "w"))
            print(len(done), "of", len(ids), sum(done.values()), "survive", flush=True)

    with ThreadPoolExecutor(workers) as ex:
        random.Random(1).shuffle(ids)
        list(ex.map(one, ids))
    json.dump(done, open(state, "w"))
    print("survivors:", sum(done.values()))


def check(out, only=None):
    tested = {int(k): v for k, v in json.load(open(f"{out}/tested.json")).items()}
    res = {}
    rf = f"{out}/results.json"
    if os.path.exists(rf):
        res = json.load(open(rf))
    d = f"{out}/c"
    if not os.path.exists(d):
        shutil.copytree(REPO, d, symlinks=True)
    for i in sorted(k for k, v in tested.items() if v):
        if str(i) in res:
            continue
        m = json.load(open(f"{out}/{i}.json"))
        if only and m["file"] not in only:
            continue
        p = f"{d}/{PKG}/{m['file']}"
        orig = open(f"{REPO}/{PKG}/{m['file']}").read()
        open(p, "w").write(m["text"])
        verdict = "missed"
        notes = []
        for c in CHECKS[m["file"]].split():
            r = subprocess.run(["python3-vt", "check.py", c], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, COLOSSEUM_REPO=d), capture_output=True, text=True)
            if "VIOLATION" in r.stdout:
                verdict = c
                break
            if "INCONCLUSIVE" in r.stdout or r.returncode:
                notes.append(c + ":" + r.stdout[-300:])
        open(p, "w").write(orig)
        res[str(i)] = verdict
        print(i, m["file"], m["line"], m["what"], "|", m["src"][:80], "=>", verdict, notes[:2], flush=True)
        json.dump(res, open(rf, "w"))


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2])
    elif sys.argv[1] == "test":
        test(sys.argv[2], int(sys.argv[3]))
    else:
        check(sys.argv[2], sys.argv[3:])
