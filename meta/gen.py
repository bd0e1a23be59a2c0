#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from table.py, design.py, design-*.md and props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import props

ALL = []
def P(id, title, statement, over, quant, why, files, mech, state=None, observe=None, na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    ALL.append((d, na))

exec(open(os.path.join(ROOT, "meta/table.py")).read())

checks, nas = [], []
for d, na in ALL:
    i = d["id"]
    if i in props.PROPS:
        p = props.PROPS[i]
        assert p["bounds"], i
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": "symbolic execution of the crate's LLVM IR with Z3 deciding every assertion",
            "level": "model_checking",
            "level_note": "Bounded: " + p["bounds"],
        })
    else:
        nas.append({"property": i, "reason": na})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": nas,
     "notes": "One driver (check.py) lowers harness + /repo's working tree to LLVM IR on every run, executes it symbolically "
              "(engine/), discharges assertions with Z3 and replays counterexamples and path models on dev and release builds "
              "with the real dependencies. No hooks in /repo are needed."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, na in ALL:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

# DESIGN.md
exec(open(os.path.join(ROOT, "meta/design.py")).read())
out = [open(os.path.join(ROOT, "meta/design-head.md")).read()]
for d, na in ALL:
    i = d["id"]
    p = props.PROPS[i]
    what, outside, why = DESIGN[i]
    names = [e if isinstance(e, str) else e[0] for e in p["entries"]]
    out.append(f"""### {i} {d['title']}

* **Decided**: {what}
* **Bounds** ({len(names)} entries in `harness/src/p{i[1:]}.rs`): {p['bounds']}.
* **Outside**: {outside or 'nothing further'}.
* **Why not tests**: {why}.
""")
out.append(open(os.path.join(ROOT, "meta/design-tail.md")).read())
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
