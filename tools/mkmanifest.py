"""Writes MANIFEST.json from the table of checks and the list of properties."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(here, "..", "run"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks = []
for i in ids:
    if i not in props.CHECKS:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 run/check.py %s quick" % i,
        "thorough_cmd": "python3 run/check.py %s thorough" % i,
        "technique": props.TECHNIQUE.get(i, props.TECH_MODEL),
        "level": props.CHECKS[i][1],
        "level_note": props.NOTE.get(i, props.NOTE_MODEL),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 run/setup.py",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "machinery under construction"} for i in ids if i not in props.CHECKS],
    "notes": "One TLA+ specification (spec/), one Go driver (driver/), one runner (run/). No hooks in /repo: the public API and the io.Writer show everything the specification talks about. The thorough commands enlarge bounds and run counts.",
}
if not m["not_applicable"]:
    m["not_applicable"] = []
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
