"""Writes properties.jsonl and MANIFEST.json from props.py (run after editing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for pid, p in sorted({**props.PROPS, **getattr(props, "NOT_APPLICABLE", {})}.items()):
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": p["quantifier"], "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": p["mechanism"]}}) + "\n")
        assert len(p["title"]) <= 80, pid
checks = []
for pid, p in sorted(props.PROPS.items()):
    tech = p.get("technique") or ("contract checking by abstract interpretation of LLVM IR" if p.get("spec") and not p.get("rules") else "abstract interpretation of LLVM IR" if not p.get("structural") or p.get("rules") or p.get("spec") else "structural rules over LLVM IR and declarations")
    checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid, "thorough_cmd": "python3 check.py %s --thorough" % pid, "technique": tech, "level": p.get("level", "other"), "level_note": p.get("level_note") or props.NOTE})
json.dump({"version": 1, "setup_cmd": "make -s -j8 -C absint", "checks": checks,
           "not_applicable": [{"property": k, "reason": v["reason"]} for k, v in sorted(getattr(props, "NOT_APPLICABLE", {}).items())],
           "notes": "See DESIGN.md. Known findings: known_findings.txt. lib/gen.py writes this file and properties.jsonl from lib/props.py."},
          open(V + "/MANIFEST.json", "w"), indent=1)
