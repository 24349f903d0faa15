"""Quick mutants: mutate.py FILE [IDs]: which mutants their properties' checks catch (FILE: M = [(id, properties, [(file, old, new)])])."""
import concurrent.futures
import importlib.util
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("muts", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
ids = [a for a in sys.argv[2:] if not a.startswith("--")]
seed = next((a.split("=")[1] for a in sys.argv if a.startswith("--seed=")), "1")


def one(entry):
    id_, props, edits = entry
    d = f"/tmp/w/mut-{id_}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    out = {}
    try:
        for file, old, new in edits:
            p = f"{d}/soepy/{file}"
            s = open(p).read()
            if s.count(old) < 1:
                return id_, {"edit": f"{file}: not found"}
            open(p, "w").write(s.replace(old, new, 1))
        if "--tests" in sys.argv:
            import plant
            base, res = plant.tests(d)
            out["tests"] = len(plant.missing(base, res))
        for prop in props:
            r = subprocess.run([f"{V}/check.sh", prop], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=seed, VERIF_TIER="quick"), capture_output=True, text=True)
            lines = [l.split("replay=")[1].split("/")[-1] for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out[prop] = [r.returncode, lines[:4] if r.returncode < 2 else (r.stdout + r.stderr)[-300:]]
    finally:
        shutil.rmtree(d)
    return id_, out


with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for id_, out in ex.map(one, [e for e in m.M if not ids or e[0] in ids]):
        bad = [p for p in out if p != "tests" and out[p][0] != 1]
        print("MISS" if bad else "ok  ", id_, json.dumps(out), flush=True)
