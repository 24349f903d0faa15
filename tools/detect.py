"""Runs checks against planted bugs: detect.py [--all] [--seed N] ID...   (without --all: only the bug's own property)"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = f"{V}/seeded"
args = sys.argv[1:]
full = "--all" in args
seed = args[args.index("--seed") + 1] if "--seed" in args else "1"
ids = [a for a in args if os.path.isdir(f"{SEEDED}/{a}")] or sorted(os.listdir(SEEDED))
out = f"{V}/build/detect.json"
res = json.load(open(out)) if os.path.exists(out) else {}
props = [c["property"] for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]]
for i in ids:
    meta = json.load(open(f"{SEEDED}/{i}/meta.json"))
    d = f"/tmp/w/detect-{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    try:
        subprocess.run(["git", "apply", f"{SEEDED}/{i}/patch.diff"], cwd=d, check=True)
        for p in props if full else [meta["property"]]:
            r = subprocess.run([f"{V}/check.sh", p], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=seed, VERIF_TIER="quick"), capture_output=True, text=True)
            lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.setdefault(i, {})[p] = [r.returncode, len(lines)]
            print(i, p, meta["property"], "exit", r.returncode, [l.split("replay=")[1].split("/")[-1] for l in lines][:6], "" if r.returncode in (0, 1) else r.stdout[-500:] + r.stderr[-500:], flush=True)
    finally:
        shutil.rmtree(d)
    json.dump(res, open(out, "w"), indent=1)
