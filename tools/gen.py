import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from props import P, NA
P.sort(key=lambda p: p["id"])
checks, na = [], []
with open(R + "/properties.jsonl", "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        built = os.path.exists("%s/specs/%s.py" % (R, p["id"].lower()))
        if not built and p["id"] not in NA:
            print("not built:", p["id"])
            continue
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(q) + "\n")
        if p["id"] in NA:
            na.append(dict(property=p["id"], reason=NA[p["id"]]))
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3 engine/check.py %s quick" % p["id"], thorough_cmd="python3 engine/check.py %s thorough" % p["id"],
                           technique="contract-based deductive verification: contracts on the functions of the current source (clang AST -> WhyML -> Why3 VCs -> z3/cvc5), plus an executable-contract harness for replay",
                           level="proof", level_note=p["_note"] or "every obligation of the functions under contract discharged; see evidence trusted_base and DESIGN.md for what is assumed"))
m = dict(version=1, setup_cmd="python3 engine/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
