"""Behaviour-preserving edits must leave every check quiet: python3 dev/refcheck.py DEFS.py [substr ...] [--tests]"""
import concurrent.futures as cf
import json
import os
import py_compile
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
defs = runpy.run_path(sys.argv[1])["REFS"]
args = [a for a in sys.argv[2:] if not a.startswith("--")]
props = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
for a in sys.argv[2:]:
    if a.startswith("--skip="):
        props = [p for p in props if p not in a[7:].split(",")]
    if a.startswith("--only="):
        props = [p for p in props if p in a[7:].split(",")]
NW = next((int(a[7:]) for a in sys.argv if a.startswith("--jobs=")), 6)
ev = {}
for p in props:
    try:
        e = json.load(open(os.path.join(V, "evidence", p + ".json")))
        ev[p] = json.dumps(e)
    except OSError:
        ev[p] = None


def relevant(files):
    out = []
    for p in props:
        if ev[p] is None or any(f in ev[p] for f in files):
            out.append(p)
    return out


def one(d):
    tmp = tempfile.mkdtemp(prefix="rf_", dir="/tmp")
    try:
        w = os.path.join(tmp, "repo")
        if "--tests" in sys.argv:
            subprocess.run(["cp", "-a", "/repo", w], check=True)
        else:
            os.mkdir(w)
            for n in ("dsps", "scripts"):
                shutil.copytree(os.path.join("/repo", n), os.path.join(w, n), ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in d["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if old is None:
                s += new
            else:
                n = s.count(old)
                if n != 1 and not d.get("many"):
                    return d["id"], "BAD EDIT (%d matches) %s: %s" % (n, f, old[:60])
                s = s.replace(old, new)
            open(p, "w").write(s)
            py_compile.compile(p, cfile=os.path.join(tmp, "x.pyc"), doraise=True)
        out = []
        if "--tests" in sys.argv:
            r = subprocess.run(["bash", "-c", "cd %s && PYTHONPATH=%s timeout 600 %s -m pytest -q -x dsps 2>&1 | tail -4" % (w, w, os.environ.get("TPY", "python"))], capture_output=True, text=True)
            out.append(r.stdout.strip().splitlines()[-1])
        v = os.path.join(tmp, "verif")
        os.mkdir(v)
        for n in ("check.py", "known_findings.txt", "properties.jsonl", "MANIFEST.json"):
            shutil.copy(os.path.join(V, n), v)
        for n in ("sa", "specs"):
            shutil.copytree(os.path.join(V, n), os.path.join(v, n))
        ps = relevant([f for f, _, _ in d["edits"]])
        k = 0
        for p in ps:
            r = subprocess.run(["python3", "check.py", p, "--root", w], cwd=v, capture_output=True, text=True)
            k += 1
            if r.returncode != 0:
                out.append("\n    %s rc=%d %s" % (p, r.returncode, " | ".join(x[:260] for x in (r.stdout.strip().splitlines() or [r.stderr[-300:]])[:2])))
        return d["id"], ("ok (%d checks)" % k if not out else " ".join(out))
    except Exception as e:  # noqa
        return d["id"], "ERROR %r" % (e,)
    finally:
        shutil.rmtree(tmp)


ds = [d for d in defs if not args or any(a in d["id"] for a in args)]
with cf.ThreadPoolExecutor(NW) as ex:
    for i, r in ex.map(one, ds):
        if "--bad" not in sys.argv or not r.startswith("ok"):
            print(i, "->", r, flush=True)
