"""python3 dev/refapply.py DEFS.py ID DEST: a scratch copy of the sources with one edit applied"""
import os, runpy, shutil, sys
d = [x for x in runpy.run_path(sys.argv[1])["REFS"] if x["id"] == sys.argv[2]][0]
w = sys.argv[3]
shutil.rmtree(w, ignore_errors=True)
os.makedirs(w)
for n in ("dsps", "scripts"):
    shutil.copytree(os.path.join("/repo", n), os.path.join(w, n), ignore=shutil.ignore_patterns("__pycache__"))
for f, old, new in d["edits"]:
    p = os.path.join(w, f)
    s = open(p).read()
    s = s + new if old is None else s.replace(old, new)
    open(p, "w").write(s)
