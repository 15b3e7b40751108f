"""Plant bugs: python3 dev/mkseed.py DEFS.py [id ...]

DEFS.py defines SEEDS = [dict(id=, property=, edits=[(file, old, new)], demo=, needs=, breaks=)].
Each is tried in a scratch copy of /repo: it must pass the stable tests and its demo must
exit 0 without and nonzero with the change; only then is it kept in seeded/<id>/."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
           XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
DEMO_SH = '#!/bin/sh\nMPLBACKEND=Agg JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'

def one(s):
    tmp = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        w = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w, check=True)
        d = os.path.join(tmp, "d")
        os.mkdir(d)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)

        def demo():
            return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=w, env=ENV, capture_output=True, text=True, timeout=280)
        r0 = demo()
        if r0.returncode != 0:
            return s["id"], "DEMO FAILS ON CLEAN: " + (r0.stdout + r0.stderr)[-600:]
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], "edit matches %d times in %s: %r" % (t.count(old), f, old[:60])
            open(p, "w").write(t.replace(old, new))
        r1 = demo()
        if r1.returncode == 0:
            return s["id"], "DEMO PASSES WITH BUG"
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
        t = subprocess.run([PY, "-m", "pytest", "-q", "-rf", "-p", "no:cacheprovider", "dsps"], cwd=w,
                           env=dict(ENV, PYTHONPATH="."), capture_output=True, text=True, timeout=900)
        tail = t.stdout[-900:]
        st = {x.split("::")[-1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
        fails = [l for l in t.stdout.splitlines() if l.startswith("ERROR") or l.startswith("FAILED") and l.split("::")[-1].split(" ")[0] in st]
        if fails or " passed" not in tail:
            return s["id"], "TESTS FAIL: %s" % (fails[:3] or tail)
        o = os.path.join(OUT, s["id"])
        if os.path.isdir(o):
            shutil.rmtree(o)
        os.makedirs(o)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(d, n), os.path.join(o, n))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
        return s["id"], "kept; demo: " + (r1.stdout + r1.stderr).strip().splitlines()[-1][:160] + " | " + tail.strip().splitlines()[-1]
    except Exception as e:
        return s["id"], "EXC %r" % e
    finally:
        shutil.rmtree(tmp)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = set(sys.argv[2:])
    with cf.ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(one, [s for s in ns["SEEDS"] if not ids or s["id"] in ids]):
            print(i, "->", r, flush=True)


main()
