"""Write MANIFEST.json from the property modules."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from harness import meta  # noqa: E402

props = [json.loads(line) for line in (ROOT / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = meta.PROPS.get(p["id"])
    if not i:
        na.append({"property": p["id"], "reason": "check under construction"})
        continue
    checks.append({
        "property": p["id"], "quick_cmd": f"python3-vt run.py {p['id']} --tier quick",
        "thorough_cmd": f"python3-vt run.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": i["technique"],
        "level": i["level"],
        "level_note": i.get("note", "Searches generated inputs against an explicit oracle; finds"
                            " violations, never proves absence. " + "; ".join(i["assumptions"])),
    })
(ROOT / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "python3-vt -c 'import hypothesis'", "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed in /repo. Every check drives /repo/src directly (no build output)."
             " VERIF_SEED seeds every search. Replay: python3-vt run.py <id> --replay <file>.",
}, indent=1) + "\n")
