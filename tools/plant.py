"""Plants a bug: writes /verif/seeded/<id>/ from an entry of a bugs file and verifies it in a scratch copy.

plant.py BUGSFILE ID...     (BUGSFILE defines BUGS = {id: dict(property, file(s)/edits, demo, needs, breaks)})
"""
import concurrent.futures
import importlib.util
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
W = "/tmp/w"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def scratch(name):
    d = f"{W}/{name}"
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def tests(d):
    out = f"{d}.tests.json"
    for f in ("build", "test"):
        s = open(f"/opt/vp/{f}.sh").read().replace("/repo", d)
        open(f"{d}.{f}.sh", "w").write(s)
    b = sh(f"bash {d}.build.sh")
    if b.returncode:
        return "build fails: " + b.stderr[-500:]
    sh(f"bash {d}.test.sh {out}")
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(out))
    return base, res


def plant(id_, bug):
    d = scratch("plant-" + id_)
    for file, old, new in bug["edits"]:
        p = f"{d}/soepy/{file}"
        s = open(p).read()
        assert s.count(old) == 1, (id_, file, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=d).stdout
    out = f"{SEEDED}/{id_}"
    os.makedirs(out, exist_ok=True)
    open(f"{out}/patch.diff", "w").write(diff)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
    shutil.copy(f"{HERE}/model.py", out)
    open(f"{out}/demo.py", "w").write(bug["demo"].lstrip("\n"))
    open(f"{out}/demo.sh", "w").write(
        '#!/bin/bash\nexport PYTHONPATH="$PWD:$(cd "$(dirname "$0")" && pwd)" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu JAX_ENABLE_X64=1\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{out}/demo.sh", 0o755)
    clean = scratch("clean-" + id_)
    r0 = sh(f"bash {out}/demo.sh", cwd=clean)
    r1 = sh(f"bash {out}/demo.sh", cwd=d)
    msg = [f"demo clean={r0.returncode} patched={r1.returncode}"]
    if r0.returncode:
        msg.append(r0.stdout[-600:] + r0.stderr[-1500:])
    msg.append("  patched says: " + (r1.stdout + r1.stderr)[-300:].strip().replace("\n", " | "))
    ok = r0.returncode == 0 and r1.returncode != 0
    if "--notest" not in sys.argv and ok:
        t = tests(d)
        if isinstance(t, str):
            ok, _ = False, msg.append(t)
        else:
            base, res = t
            failed = missing(base, res)
            msg.append(f"  stable tests failing: {len(failed)} {failed[:4]}")
            ok = ok and not failed
    for x in (clean,) + (() if "--keep" in sys.argv else (d,)):
        shutil.rmtree(x)
    for f in ("build.sh", "test.sh", "tests.json"):
        if os.path.exists(f"{d}.{f}"):
            os.remove(f"{d}.{f}")
    return id_, ok, "\n".join(msg)


def missing(base, res):
    b = set(base["stable"])
    return sorted(b - set(res["passed"]))


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = [a for a in sys.argv[2:] if not a.startswith("--")] or list(m.BUGS)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(plant, i, m.BUGS[i]) for i in ids]:
            i, ok, msg = f.result()
            print("OK  " if ok else "BAD ", i, msg, flush=True)
