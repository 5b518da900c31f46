"""Run checks against the planted bugs in scratch copies of the repository.

usage: python3-vt tools/seeded.py OUT.md [bug ...] [--checks C01,C02|all|own]

Writes a table: bug, property, what it breaks, checks that report it (its own check first)."""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
args = sys.argv[1:]
checks = "own"
if "--checks" in args:
    i = args.index("--checks")
    checks = args[i + 1]
    del args[i : i + 2]
out, bugs = pathlib.Path(args[0]), args[1:]
ALL = [f"C{i:02d}" for i in range(1, 100) if (ROOT / f"harness/props/c{i:02d}.py").exists()]
rows = []
for d in sorted((ROOT / "seeded").iterdir()):
    if bugs and d.name not in bugs:
        continue
    meta = json.loads((d / "meta.json").read_text())
    own = meta["property"]
    todo = [own] + [c for c in (ALL if checks == "all" else [] if checks == "own" else checks.split(",")) if c != own]
    wt = tempfile.mkdtemp(prefix="seeded")
    try:
        repo = f"{wt}/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "apply", str(d / "patch.diff")], cwd=repo, check=True)
        hit = []
        for c in todo:
            r = subprocess.run(["python3-vt", "run.py", c, "--no-evidence"], cwd=ROOT, capture_output=True, text=True,
                               env={**os.environ, "VERIF_REPO": repo}, timeout=900)
            if r.returncode:
                hit.append(c if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout else f"{c} (exit {r.returncode})")
        line = f"| {d.name} | {own} | {meta['what_it_breaks']} | {', '.join(hit) or '**missed**'} |"
        print(line, flush=True)
        rows.append(line)
    finally:
        shutil.rmtree(wt)
out.write_text("| planted bug | property | what it breaks | reported by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
