#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--root DIR]

Static decision of one property from the source under /repo.  Exit 0: every
obligation discharged.  Exit 1: VIOLATION line.  Exit 2: the analysis could not
decide (a construct outside the analysed fragment, or a vanished anchor).
"""
import argparse
import json
import os
import sys
import time

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def known(pid):
    """keys of the recorded findings of this property"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--root", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.root:
        os.environ["DSPS_SA_ROOT"] = a.root
    from sa.registry import PROPS
    from sa.units import run_all

    p = PROPS[a.prop]
    units = p.units(a.tier)
    res = run_all(units, a.root, limit=400 if a.tier == "thorough" else 250, budget=840)
    fails, undec, samples, rules, funcs, skipped = [], [], [], {}, {}, []
    obl = done = calls = 0
    for d in res:
        obl += d["obl"]
        done += d["done"]
        calls += d["calls"]
        fails += d["fails"]
        undec += d["undecided"]
        samples += d["samples"][:4]
        funcs.update({q: "%s:%d" % tuple(l) for q, l in d["functions"].items() if not q.startswith("specs.")})
        skipped += d["skipped"]
        for k, n in d["rules"].items():
            rules[k] = rules.get(k, 0) + n
        if a.v:
            print("%-80s %3d/%-3d %.1fs" % (d["name"], d["done"], d["obl"], d["wall"]))
    kn = known(a.prop)
    shown, viol = set(), []
    for f in fails:
        if f["key"] in kn:
            done += 1
            if f["key"] not in shown:
                shown.add(f["key"])
                print("KNOWN-FINDING: property=%s %s" % (a.prop, kn[f["key"]]))
        else:
            viol.append(f)
    floor = sum(1 for u in units if not u.optional)
    if not viol and not undec and obl < floor:
        undec.append(dict(rule="count", what=a.prop, where=None, why="only %d obligations, expected at least %d" % (obl, floor)))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED") or 0), level=p.level,
              coverage=dict(obligations=obl, discharged=done, checker_cmd="python3 check.py %s --tier %s" % (a.prop, a.tier),
                            trusted_base=p.trusted(), explanation=p.level_note, units=len(units),
                            rules=rules, functions_analysed=len(funcs), call_edges=calls,
                            functions=sorted("%s (%s)" % x for x in funcs.items()), samples=samples[:60],
                            known_findings=sorted(shown), internal_anchors_absent=skipped,
                            undecided=[u["what"] for u in undec]),
              assumptions=p.assumptions(), wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(HERE, "evidence", a.prop + ".replay.txt")
    if viol:
        with open(rp, "w") as f:
            for v in viol:
                f.write("rule: %s\nconstruct: %s\nwhere: %s\n%s\n\n" % (v["rule"], v["what"], v["where"], v["detail"]))
        for v in viol[:6]:
            print("%s: [%s] %s: %s" % (v["where"], v["rule"], v["what"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    if undec:
        for u in undec[:8]:
            print("ANALYSIS-INCOMPLETE %s: [%s] %s: %s" % (u["where"], u["rule"], u["what"], str(u["why"])[:500]))
        return 2
    print("%s: %d/%d obligations discharged over %d functions (%.1f s)" % (a.prop, done, obl, len(funcs), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
