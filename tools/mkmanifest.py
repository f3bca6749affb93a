"""writes MANIFEST.json from the checks present in checks/"""
import glob, importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
os.chdir(R)
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("checks/%s.py" % i.lower()):
        m = importlib.import_module("checks." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt -m vlib.check %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3-vt -m vlib.check %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": m.TECHNIQUE,
            "level": "exploration",
            "level_note": "Searches generated cases only (no proof of absence). " + m.RULE + " Assumes: " + "; ".join(m.ASSUMPTIONS) + "."})
    else:
        na.append({"property": i, "reason": "no check built yet"})
d = {"version": 1, "setup_cmd": "python3-vt -c 'from vlib import core; core.build(\"plain\"); core.build(\"asan\")'",
     "checks": checks, "not_applicable": na,
     "notes": "Property-based testing: every check regenerates its cases from VERIF_SEED, shrinks failures and writes replays/<id>-*.json (replay: python3-vt -m vlib.check <id> --replay FILE). No hooks in /repo are needed."}
json.dump(d, open("MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(d, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks", len(na), "without")
