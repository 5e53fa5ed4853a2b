"""Rewrites MANIFEST.json from the checks that exist."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = V + "/checks/%s.py" % i.lower()
    if not os.path.exists(f):
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    m = importlib.import_module(i.lower())
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": m.META.get("technique", "TLA+ specification model-checked with TLC; traces of the real programs validated against it"),
        "level": m.META["level"],
        "level_note": m.META.get("note", "") or
        "Bounded model checking of the specification and trace validation of many generated runs of the real code; "
        "assumes the observation files and the run generator are representative; " + "; ".join(m.META.get("assumptions", [])),
    })
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "VARIKN_VERIF", "enable": "no hooks are used: harnesses in /verif/harness link the unmodified sources", "source_commits": []},
           "notes": "see DESIGN.md"}, open(V + "/MANIFEST.json", "w"), indent=1)
