"""regenerates DESIGN.md from dev/design_head.md, dev/design_props.md, dev/design_tail.md, the evidence and the seeds"""
import glob, json, os, re
R = "/verif/"
why = {}
for l in open(R + "dev/design_props.txt"):
    if l.strip():
        k, v = l.rstrip("\n").split(" | ", 1)
        why[k] = v
m = {c["property"]: c for c in json.load(open(R + "MANIFEST.json"))["checks"]}
out = [open(R + "dev/design_head.md").read()]
out.append("| id | property | method | what is decided, oracle, bounds | oblig. | fns |\n|---|---|---|---|---|---|\n")
P = [json.loads(l) for l in open(R + "properties.jsonl")]
for p in P:
    i = p["id"]
    if i not in m:
        continue
    e = R + "evidence/%s.json" % i
    c = json.load(open(e))["coverage"] if os.path.exists(e) else {}
    t = m[i]["technique"]
    t = "congruence" if "congruence" in t else "paths" if "path" in t else "effects"
    out.append("| %s | %s | %s | %s | %s | %s |\n" % (i, p["title"], t, why.get(i, "TODO").replace("|", "\\|"), c.get("obligations", "?"), c.get("functions_analysed", "?")))
tail = open(R + "dev/design_tail.md").read()
na = "".join("* **%s** %s – %s\n" % (x["property"], next(p["title"] for p in P if p["id"] == x["property"]), x["reason"]) for x in json.load(open(R + "MANIFEST.json"))["not_applicable"])
tab = ["| planted bug | property | breaks | needs | caught by |\n|---|---|---|---|---|\n"]
res = {}
if os.path.exists(R + "dev/catches.json"):
    res = json.load(open(R + "dev/catches.json"))
for d in sorted(glob.glob(R + "seeded/*/meta.json")):
    j = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    tab.append("| %s | %s | %s | %s | %s |\n" % (n, j["property"], j["what_it_breaks"], j["needs"], ", ".join(res.get(n, ["not recorded"]))))
tail = tail.replace("@@NA@@", na).replace("@@CATCH@@", "".join(tab))
out.append(tail)
open(R + "DESIGN.md", "w").write("".join(out))
print(len("".join(out)), "TODO" in "".join(out))
