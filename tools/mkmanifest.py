"Writes MANIFEST.json from the check modules that exist."
import importlib, json, sys
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
sys.path[:0] = ["/repo", str(ROOT)]
sys.dont_write_bytecode = True
from pbt import sched
sched.install = lambda *a, **k: None  # only the descriptions of the checks are of interest here
NOTES = {}
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
checks, missing = [], []
for p in props:
    cid = p["id"]
    if not (ROOT / "pbt" / "checks" / f"{cid.lower()}.py").exists():
        missing.append({"property": cid, "reason": "check not yet built"})
        continue
    m = importlib.import_module(f"pbt.checks.{cid.lower()}")
    checks.append({
        "property": cid,
        "quick_cmd": f"python3-vt run.py {cid}",
        "thorough_cmd": f"VERIF_TIER=thorough python3-vt run.py {cid}",
        "technique": getattr(m, "TECHNIQUE", "property-based testing (Hypothesis): generated programs and values against a reference model"),
        "level": getattr(m, "LEVEL", "exploration"),
        "level_note": getattr(m, "LEVEL_NOTE", "Randomized search with a fixed seed over generated cases; shows the presence of violations, not their absence. Trusts the reference model in /verif/pbt, CPython and Hypothesis."),
    })
doc = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing,
       "notes": "All checks run the code in /repo unmodified (no hooks). Replay: python3-vt run.py ID --replay FILE."}
(ROOT / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
print(len(checks), "checks,", len(missing), "missing")
