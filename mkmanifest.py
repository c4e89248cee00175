"""Regenerate MANIFEST.json from the modules present in mc/."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.environ.get("MC_REPO", "/repo"))
PY = "/opt/venv/bin/python"
checks, na = [], []
for i in range(1, 21):
    pid = f"C{i:02d}"
    if os.path.exists(os.path.join(HERE, "mc", pid.lower() + ".py")):
        m = importlib.import_module("mc." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": f"{PY} mc/run.py --property {pid} --tier quick",
            "thorough_cmd": f"{PY} mc/run.py --property {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": m.TECHNIQUE,
            "level": m.LEVEL,
            "level_note": m.NOTE,
        })
    else:
        na.append({"property": pid, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
