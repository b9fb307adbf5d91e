"""Write properties.jsonl and MANIFEST.json from mvdsa/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "mvdsa"))
from props import PROPS, NOT_APPLICABLE

T_TWIN = ("static analysis: path-partitioned abstract interpretation of the compiler's MIR; the guarded summary of each function "
          "must agree with that of a reference sibling (loops related by a simulation over their abstract updates)")
T_RULE = {
    "panics": "static analysis: abstract interpretation of the compiler's MIR; every bounds, slice, unwrap, division and overflow obligation discharged by relational dataflow",
    "termination": "static analysis: ranking of every loop over MIR dataflow facts, and acyclicity of the resolved call graph",
    "arithmetic": "static analysis: interval and relational dataflow over MIR; every narrowing cast and checked, wrapping or saturating operation is an obligation",
    "determinism": "static analysis: taint dataflow from hash-table iteration order to results over the summarised MIR",
    "purity": "static analysis: effect analysis over the resolved call graph, statics and result types",
}
props = [p for p in PROPS]
lines, checks = [], []
for p in sorted(props, key=lambda p: p.id):
    lines.append({"id": p.id, "title": p.title, "statement": p.statement, "quantifier": {"over": p.over, "text": p.text},
                  "why_tests_cant": p.why, "anchors": {"files": p.files, "mechanism": p.mech}})
    tech = "; ".join(([T_TWIN] if p.entries else []) + [T_RULE[r] for r in p.rules])
    if p.entries:
        note = ("A definite disagreement of any reachable case of the function with the reference semantics is reported with both terms and the guard; "
                "no disagreement over all paths, with loops summarised for any number of iterations. Cases the abstraction can not decide are listed in the evidence as undecided (none on the "
                "unchanged tree) and not reported. Trusted: MIR facts, the abstract semantics and library models, the reference functions in spec/, dependencies as total pure functions.")
    else:
        note = ("All obligations of all exported functions are discharged on the unchanged tree for inputs of any length. "
                "Trusted: MIR facts, the abstract semantics and library models, dependencies as total pure functions; 64-bit target, fewer than 2^29 messages.")
    checks.append({"property": p.id, "quick_cmd": "python3 mvdsa/check.py %s" % p.id,
                   "thorough_cmd": "python3 mvdsa/check.py %s --tier thorough" % p.id,
                   "evidence_file": "evidence/%s.json" % p.id, "technique": tech, "level": p.level, "level_note": (p.note + " " if p.note else "") + note})
for n in NOT_APPLICABLE:
    lines.append(n["prop"])
lines.sort(key=lambda l: l["id"])
for l in lines:
    assert len(l["title"]) <= 80, l["title"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for l in lines:
        f.write(json.dumps(l) + "\n")
man = {"version": 1, "setup_cmd": "python3 mvdsa/facts.py", "checks": checks,
       "not_applicable": [{"property": n["property"], "reason": n["reason"]} for n in NOT_APPLICABLE],
       "notes": "Generated by gen.py from mvdsa/props.py. No hooks in /repo. MVDSA_REPO overrides /repo for experiments only."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(lines), "properties")
