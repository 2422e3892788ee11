#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--max N] [--seed S] [--files a,b] [--jobs J]: mutation sweep over the library's sources.
Each mutant (one small change) that passes the repository's tests is run against the checks anchored at its file, then the others,
until one reports; mutants no check reports are listed for inspection (many are equivalent)."""
import ast, copy, json, os, random, subprocess, sys, tempfile, shutil, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
a = sys.argv[1:]
OUT = a[0]
opt = lambda k, d: a[a.index(k) + 1] if k in a else d
MAX, SEED, JOBS = int(opt("--max", 400)), int(opt("--seed", 1)), int(opt("--jobs", 3))
ONLY = opt("--files", "")
files = subprocess.run(["git", "ls-files", "eckity"], cwd=REPO, capture_output=True, text=True).stdout.split()
files = [f for f in files if f.endswith(".py") and "/tests/" not in f and not f.endswith("__init__.py")]
if ONLY:
    files = [f for f in files if any(o in f for o in ONLY.split(","))]
SKIP = ("plot", "site_customize")
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.LtE: [ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Add], ast.Pow: [ast.Mult]}

def sites(tree):
    """Yields (description, function that mutates a fresh copy given the node index)."""
    out = []
    nodes = list(ast.walk(tree))
    doc = set()
    raises = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0])); doc.add(id(n.body[0].value))
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "logger" in ast.dump(n.value.func)):
            raises |= {id(x) for x in ast.walk(n)}
        for attr in ("annotation", "returns"):
            if getattr(n, attr, None) is not None:
                raises |= {id(x) for x in ast.walk(getattr(n, attr))}
    for i, n in enumerate(nodes):
        if id(n) in doc:
            continue
        inr = id(n) in raises
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for c in CMP.get(type(n.ops[0]), []):
                out.append((i, "cmp", c.__name__))
        elif isinstance(n, ast.BinOp) and not inr and not (isinstance(n.op, (ast.Add, ast.Mod)) and isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", ""), str)):
            for c in BIN.get(type(n.op), []):
                out.append((i, "bin", c.__name__))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "boolop", ""))
            out.append((i, "booldrop", "")); 
        elif isinstance(n, ast.UnaryOp) and not inr:
            out.append((i, "unary", ""))
        elif isinstance(n, ast.Constant) and not inr:
            if isinstance(n.value, bool):
                out.append((i, "notconst", ""))
            elif isinstance(n.value, (int, float)):
                out.append((i, "inc", "")); out.append((i, "dec", ""))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            out.append((i, "cond", "True")); out.append((i, "cond", "False")) if not isinstance(n, ast.While) else None
        elif isinstance(n, ast.Call) and not inr:
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "clone") and not n.args:
                out.append((i, "uncopy", ""))
            if isinstance(f, ast.Name) and f.id in ("deepcopy", "list", "sorted", "set", "tuple", "round", "int", "float", "str", "abs") and len(n.args) >= 1:
                out.append((i, "unwrap", ""))
            if len(n.args) >= 2:
                out.append((i, "swapargs", ""))
            if n.keywords:
                for k in range(len(n.keywords)):
                    out.append((i, "dropkw", str(k)))
        elif isinstance(n, ast.Slice):
            for w in ("lower", "upper"):
                if getattr(n, w) is not None:
                    out.append((i, "slice", w))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not inr:
            out.append((i, "delete", ""))
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and n.generators[0].ifs:
            out.append((i, "dropif", ""))
        elif isinstance(n, ast.For):
            out.append((i, "forskip", "")); out.append((i, "forlast", "")); out.append((i, "breakfirst", ""))
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant)):
            out.append((i, "retnone", ""))
    return out

def mutate(src, site):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    i, kind, arg = site
    n = nodes[i]
    line = n.lineno if hasattr(n, "lineno") else 0
    par = {}
    for p in nodes:
        for fld, v in ast.iter_fields(p):
            if isinstance(v, list):
                for j, x in enumerate(v):
                    if isinstance(x, ast.AST): par[id(x)] = (p, fld, j)
            elif isinstance(v, ast.AST):
                par[id(v)] = (p, fld, None)
    def repl(new):
        p, fld, j = par[id(n)]
        ast.copy_location(new, n)
        if j is None: setattr(p, fld, new)
        else: getattr(p, fld)[j] = new
    if kind == "cmp": n.ops[0] = getattr(ast, arg)()
    elif kind == "bin": n.op = getattr(ast, arg)()
    elif kind == "boolop": n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "booldrop": repl(n.values[0])
    elif kind == "unary": repl(n.operand)
    elif kind == "notconst": n.value = not n.value
    elif kind == "inc": n.value += 1 if isinstance(n.value, int) else n.value * 0.5 + 0.01
    elif kind == "dec": n.value -= 1 if isinstance(n.value, int) else n.value * 0.5 + 0.01
    elif kind == "cond": n.test = ast.copy_location(ast.Constant(arg == "True"), n.test)
    elif kind == "uncopy": repl(n.func.value)
    elif kind == "unwrap": repl(n.args[0])
    elif kind == "swapargs": n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "dropkw": del n.keywords[int(arg)]
    elif kind == "slice":
        v = getattr(n, arg); setattr(n, arg, ast.copy_location(ast.BinOp(v, ast.Add() if arg == "lower" else ast.Sub(), ast.Constant(1)), v))
    elif kind == "delete": repl(ast.Pass())
    elif kind == "dropif": n.generators[0].ifs = []
    elif kind in ("forskip", "forlast"):
        sl = ast.Slice(lower=ast.Constant(1)) if kind == "forskip" else ast.Slice(upper=ast.Constant(-1))
        n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [n.iter], []), sl, ast.Load())
    elif kind == "breakfirst": n.body = n.body + [ast.Break()]
    elif kind == "retnone": n.value = None
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), line

anchors = {}
for l in open(HERE + "/properties.jsonl"):
    q = json.loads(l)
    for f in files:
        if f in l:
            anchors.setdefault(f, []).append(q["id"])
ALL = [f"C{k:02d}" for k in range(1, 33)]
rng = random.Random(SEED)
pool = []
for f in files:
    if any(s in f for s in SKIP): continue
    src = open(f"{REPO}/{f}").read()
    base = ast.unparse(ast.parse(src))
    for s in sites(ast.parse(src)):
        pool.append((f, s))
rng.shuffle(pool)
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        r = json.loads(l); done.add((r["file"], tuple(r["site"])))
print(len(pool), "sites", len(done), "done")
lock = threading.Lock()

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.pop("PYTHONPATH", None)
    e["PATH"] = "/opt/venv/bin:" + e["PATH"]; e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 124, "TIMEOUT"

def one(item):
    f, s = item
    if (f, tuple(s)) in done: return
    src = open(f"{REPO}/{f}").read()
    try:
        new, line = mutate(src, s)
    except Exception as e:
        return
    if new == ast.unparse(ast.parse(src)): return
    tmp = tempfile.mkdtemp(prefix="mut_"); r = tmp + "/r"
    res = {"file": f, "site": s, "line": line, "src": src.splitlines()[line - 1].strip() if line else ""}
    try:
        subprocess.run(["cp", "-a", REPO, r], check=True)
        open(f"{r}/{f}", "w").write(new)
        res["status"] = "MISSED"

        def checks(order, scale="1"):
            for c in order:
                rc, o = sh(["bash", HERE + "/check.sh", c, "quick"], HERE,
                           {"EC_REPO": r, "VERIF_SEED": "1", "VK_EVIDENCE_DIR": tmp, "VK_WORKERS": "2", "VK_SCALE": scale})
                if rc not in (0, 3) or rc == 3 and scale == "1":
                    res["status"] = "caught" if rc == 1 else f"rc{rc}"; res["by"] = c
                    res["anchored"] = c in anchors.get(f, [])
                    if rc != 1: res["out"] = o[-800:]
                    return True
            return False

        own = anchors.get(f, [])
        if not checks(own + [c for c in ALL if c not in own], "0.02"):
            rc, o = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", "-x"], r,
                       {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1"}, 300)
            if rc != 0:
                res["status"] = "tests"
            elif checks(own, "0.2"):
                pass
            elif "--full" in sys.argv:
                checks(own + [c for c in ALL if c not in own])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    with lock:
        open(OUT, "a").write(json.dumps(res) + "\n")
        print(res["status"], res.get("by", ""), f, line, s[1:], res["src"][:90], flush=True)

with ThreadPoolExecutor(JOBS) as ex:
    list(ex.map(one, pool[:MAX]))
