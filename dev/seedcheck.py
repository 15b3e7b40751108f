"""Run a property's check against every planted bug (scratch copies): python3 dev/seedcheck.py [substr ...] [--all]"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
args = [a for a in sys.argv[1:] if not a.startswith("--")]


def one(i):
    tmp = tempfile.mkdtemp(prefix="sc_", dir="/tmp")
    try:
        w = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w, check=True)
        a = subprocess.run(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=w, capture_output=True, text=True)
        if a.returncode:
            return i, "DOES NOT APPLY " + a.stderr[:200]
        m = json.load(open(os.path.join(S, i, "meta.json")))
        v = os.path.join(tmp, "verif")
        os.mkdir(v)
        for n in ("check.py", "known_findings.txt", "properties.jsonl", "MANIFEST.json"):
            shutil.copy(os.path.join(V, n), v)
        for n in ("sa", "specs"):
            shutil.copytree(os.path.join(V, n), os.path.join(v, n))
        props = [m["property"]]
        if "--all" in sys.argv:
            props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
        out = []
        for p in props:
            r = subprocess.run(["python3", "check.py", p, "--root", w], cwd=v, capture_output=True, text=True)
            if r.returncode != 0 or len(props) == 1:
                out.append("%s rc=%d %s" % (p, r.returncode, (r.stdout.strip().splitlines() or [r.stderr[-300:]])[0][:230]))
        return i, " || ".join(out)
    finally:
        shutil.rmtree(tmp)


ids = sorted(x for x in os.listdir(S) if os.path.isdir(os.path.join(S, x)) and (not args or any(a in x for a in args)))
with cf.ThreadPoolExecutor(3) as ex:
    for i, r in ex.map(one, ids):
        print(i, "->", r, flush=True)
