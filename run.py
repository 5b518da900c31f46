#!/usr/bin/env python3-vt
"""Check one property:  run.py C01 [--tier quick|thorough] [--replay FILE] [--shards N]"""
import argparse
import collections
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time

HERE = pathlib.Path(__file__).resolve().parent
sys.dont_write_bytecode = True
sys.path.insert(0, str(HERE))
KNOWN = HERE / "KNOWN_FINDINGS.txt"


def child_env(scratch):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_SCRATCH=scratch,
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), HYPOTHESIS_STORAGE_DIRECTORY=
               os.path.join(scratch, "hyp"), TZ=env.get("TZ", "UTC"))
    return env


def known_findings(pid):
    """Lines 'known: property=<id> part=<part> case=<json> :: <what fails>'."""
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith(f"known: property={pid} "):
                out.append(line[len("known: "):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    pid = a.pid.upper()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    budget = float(os.environ.get("VERIF_BUDGET") or (420 if tier == "quick" else 10800))

    if a.shard is not None:
        from harness import core

        core.shard_main(pid, tier, seed, a.shard, a.shards, a.out, budget)
        return 2

    scratch = tempfile.mkdtemp(prefix="vblfverif")
    try:
        if a.replay:
            return replay(pid, a.replay, scratch)
        return check(pid, tier, seed, a.shards, budget, scratch, not a.no_evidence)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(pid, path, scratch):
    os.environ.update(child_env(scratch))
    from harness import core

    rec = json.loads(pathlib.Path(path).read_text())
    err = core.replay_main(rec)
    if err:
        print(err)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid}: replay of {path} holds")
    return 0


def check(pid, tier, seed, n, budget, scratch, evidence):
    t0 = time.monotonic()
    env = child_env(scratch)
    procs = []
    for i in range(n):
        out = os.path.join(scratch, f"r{i}.json")
        sd = os.path.join(scratch, f"s{i}")
        os.mkdir(sd)
        log = open(os.path.join(scratch, f"log{i}"), "w+")
        procs.append((subprocess.Popen(
            [sys.executable, str(HERE / "run.py"), pid, "--tier", tier, "--shard", str(i),
             "--shards", str(n), "--out", out],
            env={**env, "VERIF_SCRATCH": sd, "VERIF_SEED": str(seed), "VERIF_BUDGET": str(budget)},
            stdout=log, stderr=log, cwd=sd), out, log))
    hard = t0 + budget + 300
    results, pending, bad = {}, dict(enumerate(procs)), None
    while pending and not bad:
        for i, (p, out, log) in list(pending.items()):
            if p.poll() is None:
                continue
            del pending[i]
            if not os.path.exists(out):
                log.seek(0)
                results[i] = {"error": f"shard {i} ended with {p.returncode}:\n{log.read()[-4000:]}"}
            else:
                with open(out) as f:
                    results[i] = json.load(f)
            if results[i].get("violation"):
                bad = results[i]["violation"]
        if time.monotonic() > hard:
            results[-1] = {"error": f"{len(pending)} shards did not end in time"}
            break
        time.sleep(0.02)
    for p, *_ in pending.values():
        p.kill()
    for p, _o, log in procs:
        p.wait()
        log.close()
    errors = [r["error"] for r in results.values() if r.get("error")]

    from harness import meta

    info = meta.PROPS[pid]
    labels, parts = collections.Counter(), collections.Counter()
    digests, samples, evals, skipped = set(), [], 0, 0
    for i in sorted(results):
        r = results[i]
        if "evals" not in r:
            continue
        evals += r["evals"]
        skipped += r["skipped"]
        labels.update(r["labels"])
        parts.update(r["parts"])
        raw = r["digests"]
        digests |= {raw[j : j + 16] for j in range(0, len(raw), 16)}
        samples += r["samples"][: 1 if len(samples) > 6 else 2]
    known = known_findings(pid)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": info["level"],
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(digests), "rule": info["rule"],
            "by_part": dict(parts), "labels": dict(labels.most_common(60)),
            "cases_skipped_by_time_budget": skipped, "samples": samples[:8],
        },
        "assumptions": info["assumptions"], "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if bad else 0,
    }
    if evidence:
        (HERE / "evidence").mkdir(exist_ok=True)
        (HERE / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for k in known:
        print("KNOWN-FINDING: " + k)
    if bad:
        d = HERE / "replays"
        d.mkdir(exist_ok=True)
        path = d / f"{pid}-{seed}-{tier}.json"
        path.write_text(json.dumps(bad, indent=1) + "\n")
        print(f"{pid} [{bad['part']}]: {bad['error']}")
        print("case: " + json.dumps(bad["case"])[:2000])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print("\n".join(errors[:2]), file=sys.stderr)
        print(f"{pid}: harness error", file=sys.stderr)
        return 2
    print(f"{pid}: held on {evals} evaluations ({len(digests)} distinct non-trivial),"
          f" {ev['wall_s']} s" + (f", {skipped} skipped" if skipped else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
