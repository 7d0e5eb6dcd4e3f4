import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import config
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in config.PROPS:
        c = config.PROPS[i]
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "contract-based deductive verification (Verus) of functions extracted from the current source"),
                       "level": c["level"], "level_note": c.get("note", "")})
na = [{"property": i, "reason": config.NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in config.PROPS]
m = {"version": 1, "setup_cmd": "bash check.sh --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the extractor reads the source, the oracles use the public interface."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
