"""writes properties.jsonl and MANIFEST.json from the registry"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.registry import PROPS
from sa.notapplicable import NA, NA_PROPS

out = []
for p in sorted(PROPS.values(), key=lambda p: p.id):
    out.append(dict(id=p.id, title=p.title, statement=p.statement, quantifier=dict(over=p.over, text=p.text), why_tests_cant=p.why,
                    anchors=dict(files=p.files, mechanism=[dict(name=n, where=w) for n, w in p.mech])))
out += NA_PROPS
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for d in out:
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="python3 -c 'import sys; assert sys.version_info >= (3, 10)'",
         checks=[dict(property=p.id, quick_cmd="python3 check.py %s --tier quick" % p.id, thorough_cmd="python3 check.py %s --tier thorough" % p.id,
                      technique=p.tech, level=p.level, level_note=p.level_note) for p in sorted(PROPS.values(), key=lambda p: p.id)],
         not_applicable=[dict(property=i, reason=r) for i, r in NA])
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for d in out:
    assert d["statement"].count(". ") <= 2, (d["id"], d["statement"].count(". "))
print(len(out), "properties,", len(m["checks"]), "checks")
