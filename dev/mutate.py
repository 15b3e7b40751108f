"""Mechanical mutants of dsps: which survive every check?   python3 dev/mutate.py [file-substr ...] [--jobs=N] [--n=MAX] [--skip=R01,..]"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = dict(a[2:].split("=", 1) for a in sys.argv[1:] if a.startswith("--") and "=" in a)
props = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
skip = opt.get("skip", "R01,R04,R05").split(",")
ev = {p: open(os.path.join(V, "evidence", p + ".json")).read() for p in props}
rng = random.Random(int(opt.get("seed", 1)))


def sites(tree):
    """(description, mutator(node)) for every mutation point; found by index in ast.walk order"""
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
    for i, n in enumerate(ast.walk(tree)):
        L = getattr(n, "lineno", 0)
        if isinstance(n, ast.Constant) and id(n) not in doc:
            if isinstance(n.value, bool):
                out.append((i, L, "bool %r" % n.value, "bool"))
            elif isinstance(n.value, (int, float)):
                out.append((i, L, "const %r -> *1.01+" % n.value, "num"))
                if n.value == int(n.value):
                    out.append((i, L, "const %r -> +1" % n.value, "inc"))
            elif isinstance(n.value, str) and n.value:
                out.append((i, L, "str %r" % n.value[:30], "str"))
            elif n.value is None:
                pass
        elif isinstance(n, ast.BinOp):
            k = type(n.op).__name__
            if k in ("Add", "Sub", "Mult", "Div", "Pow"):
                out.append((i, L, "binop %s" % k, "binop"))
            if k in ("Sub", "Div", "Pow"):
                out.append((i, L, "swap %s operands" % k, "bswap"))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            out.append((i, L, "cmp %s" % type(n.ops[0]).__name__, "cmp"))
            out.append((i, L, "cmp-strict %s" % type(n.ops[0]).__name__, "cmps"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((i, L, "drop unary", "unary"))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                for k in range(len(n.args) - 1):
                    if not isinstance(n.args[k], ast.Starred) and not isinstance(n.args[k + 1], ast.Starred):
                        out.append((i, L, "swap args %d,%d of %s" % (k, k + 1, ast.unparse(n.func)[:30]), "aswap%d" % k))
            for k in range(len(n.keywords)):
                out.append((i, L, "drop kw %s of %s" % (n.keywords[k].arg, ast.unparse(n.func)[:30]), "kwdrop%d" % k))
        elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
            out.append((i, L, "swap tuple 0,1", "tswap"))
            if len(n.elts) > 2:
                out.append((i, L, "swap tuple -2,-1", "tswapl"))
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                out.append((i, L, "drop slice lower", "slo"))
            if n.upper is not None:
                out.append((i, L, "drop slice upper", "shi"))
        elif isinstance(n, ast.Assign) or isinstance(n, ast.AugAssign):
            out.append((i, L, "delete stmt", "del"))
        elif isinstance(n, ast.If):
            out.append((i, L, "negate if", "negif"))
    return out


def mutate(src, idx, kind):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    n = nodes[idx]
    if kind == "bool":
        n.value = not n.value
    elif kind == "num":
        n.value = n.value * 1.01 + (0.001 if n.value == 0 else 0)
    elif kind == "inc":
        n.value = n.value + 1
    elif kind == "str":
        n.value = n.value + "x"
    elif kind == "binop":
        n.op = {"Add": ast.Sub, "Sub": ast.Add, "Mult": ast.Div, "Div": ast.Mult, "Pow": ast.Mult}[type(n.op).__name__]()
    elif kind == "bswap":
        n.left, n.right = n.right, n.left
    elif kind == "cmp":
        o = type(n.ops[0]).__name__
        n.ops = [dict(Lt=ast.Gt, Gt=ast.Lt, LtE=ast.GtE, GtE=ast.LtE, Eq=ast.NotEq, NotEq=ast.Eq, Is=ast.IsNot, IsNot=ast.Is, In=ast.NotIn, NotIn=ast.In)[o]()]
    elif kind == "cmps":
        o = type(n.ops[0]).__name__
        d = dict(Lt=ast.LtE, Gt=ast.GtE, LtE=ast.Lt, GtE=ast.Gt)
        if o not in d:
            return None
        n.ops = [d[o]()]
    elif kind == "unary":
        rep(tree, n, n.operand)
    elif kind.startswith("aswap"):
        k = int(kind[5:])
        n.args[k], n.args[k + 1] = n.args[k + 1], n.args[k]
    elif kind.startswith("kwdrop"):
        del n.keywords[int(kind[6:])]
    elif kind == "tswap":
        n.elts[0], n.elts[1] = n.elts[1], n.elts[0]
    elif kind == "tswapl":
        n.elts[-1], n.elts[-2] = n.elts[-2], n.elts[-1]
    elif kind == "slo":
        n.lower = None
    elif kind == "shi":
        n.upper = None
    elif kind == "del":
        for p in ast.walk(tree):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.Pass()
    elif kind == "negif":
        n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
    ast.fix_missing_locations(tree)
    new = ast.unparse(tree)
    return None if new == ast.unparse(ast.parse(src)) else new


def rep(tree, old, new):
    for p in ast.walk(tree):
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if x is old:
                        v[i] = new


def one(job):
    rel, idx, L, desc, kind = job
    src = open(os.path.join("/repo", rel)).read()
    new = mutate(src, idx, kind)
    if new is None:
        return None
    tmp = tempfile.mkdtemp(prefix="mu_", dir="/tmp")
    try:
        w = os.path.join(tmp, "repo")
        os.mkdir(w)
        for n in ("dsps", "scripts"):
            shutil.copytree(os.path.join("/repo", n), os.path.join(w, n), ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(w, rel), "w").write(new)
        v = os.path.join(tmp, "verif")
        os.mkdir(v)
        for n in ("check.py", "known_findings.txt", "properties.jsonl", "MANIFEST.json"):
            shutil.copy(os.path.join(V, n), v)
        for n in ("sa", "specs"):
            os.symlink(os.path.join(V, n), os.path.join(v, n))
        rcs = {}
        rel_props = [p for p in props if p not in skip and rel in ev[p]]
        order = sorted(rel_props, key=lambda p: p.startswith("R"))
        for p in order:
            try:
                r = subprocess.run(["python3", "check.py", p, "--root", w], cwd=v, capture_output=True, text=True, timeout=300)
                rcs[p] = r.returncode
            except subprocess.TimeoutExpired:
                rcs[p] = 124
            if rcs[p] == 1:
                return "KILLED", job, p
        bad = {p: c for p, c in rcs.items() if c}
        return ("NOANSWER" if bad else "SURVIVED"), job, bad
    finally:
        shutil.rmtree(tmp)


jobs = []
for rel in subprocess.run(["git", "-C", "/repo", "ls-files", "dsps", "scripts"], capture_output=True, text=True).stdout.split():
    if not rel.endswith(".py") or "/tests/" in rel or "/experimental/" in rel or (args and not any(a in rel for a in args)):
        continue
    src = open(os.path.join("/repo", rel)).read()
    for i, L, desc, kind in sites(ast.parse(src)):
        jobs.append((rel, i, L, desc, kind))
rng.shuffle(jobs)
jobs = jobs[:int(opt.get("n", 10 ** 9))]
print(len(jobs), "mutants", flush=True)
cnt = {}
with cf.ThreadPoolExecutor(int(opt.get("jobs", 7))) as ex:
    for r in ex.map(one, jobs):
        if r is None:
            continue
        cnt[r[0]] = cnt.get(r[0], 0) + 1
        if r[0] != "KILLED":
            print(r[0], "%s:%d" % (r[1][0], r[1][2]), r[1][3], r[2], flush=True)
print(cnt)
