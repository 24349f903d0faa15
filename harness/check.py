"""Decides one property: records what the implementation does, lets TLC judge it.

Exit 0: held on everything explored; 1: VIOLATION; 2: the machinery failed.
"""
import argparse
import collections
import fnmatch
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, HERE)

import numpy as np  # noqa: E402

import gen  # noqa: E402
import props  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLASSES = os.path.join(ROOT, "build", "classes")


class Machinery(Exception):
    """Something other than the code under test went wrong."""


def rng_for(*parts):
    return np.random.default_rng([p if isinstance(p, int) else zlib.crc32(p.encode()) for p in parts])


# ---- TLC -----------------------------------------------------------------------------------
def tlc(module, work, cfg=None, env=None, workers=8, args=(), timeout=800, mem="5g"):
    meta = tempfile.mkdtemp(prefix="meta_", dir=work)
    # Bind the spec's private copies of the TLA+ sources: TLC unpacks modules into java.io.tmpdir.
    cmd = ["java", f"-Xmx{mem}", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={meta}",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.Real64Overrides", "-cp", f"{CLASSES}:{JARS}", "tlc2.TLC",
           "-metadir", os.path.join(meta, "states"), "-config", f"{cfg or module}.cfg", "-workers", str(workers),
           "-noGenerateSpecTE", *args, f"{module}.tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as exc:
        raise Machinery(f"TLC {module}: no answer within {timeout} s") from exc
    out = p.stdout + p.stderr
    states = transitions = 0
    for line in out.splitlines():
        if "states generated" in line and "distinct states found" in line and not line.startswith("Progress"):
            words = line.replace(",", "").split()
            transitions, states = int(words[0]), int(words[3])
    return p.returncode, out, states, transitions


def tail(out, n=25):
    drop = ("Parsing file", "Semantic processing", "Linting of", "Progress(")
    return "\n".join([ln for ln in out.splitlines() if ln.strip() and not ln.startswith(drop)][-n:])


# ---- jobs ----------------------------------------------------------------------------------
def session_scripts(work, seed, want):
    """Behaviours of Session.tla, preferring those that ask the same thing in many ways."""
    out = os.path.join(work, "scripts.jsonl")
    rc, text, _, _ = tlc("GenSession", work, env={"OUT": out}, workers=1,
                         args=["-simulate", "num=800", "-seed", str(seed), "-depth", "13"], timeout=120)
    if not os.path.exists(out):
        raise Machinery("no sessions generated:\n" + tail(text))
    scripts, seen = [], set()
    with open(out) as f:
        for line in f:
            if line not in seen:
                seen.add(line)
                scripts.append(json.loads(line))

    def features(script):
        """What a session exercises: pairs of ways in which one question is asked."""
        got, asked, calls, changes = set(), {}, {}, []
        hurt = False
        for e in script:
            if e["act"] == "disturb":
                hurt = e["what"]
                got.add(("disturb", e["what"]))
                continue
            if e["act"] == "build":
                continue
            way = (e["act"], e["form"], e["width"])
            key = tuple(e["key"])
            for w in asked.get(key, []):
                got.add(("again", w, way))
                got.add(("bias", way[0], key[3]))
                if hurt:
                    got.add(("after", hurt, w[0], way[0]))
            asked.setdefault(key, []).append(way)
            if e["act"] == "call":
                last, form = calls.get(e["fn"], (None, None))
                if last and last != key:
                    changes.append((key, ("changed", last[1] != key[1], last[2] != key[2], form, e["form"])))
                calls[e["fn"]] = key, e["form"]
        got.update(f for key, f in changes if len(asked[key]) > 1)
        return got

    feats = [features(s) for s in scripts]
    covered, picked = collections.Counter(), []
    for _ in range(min(want, len(scripts))):
        best = max((i for i in range(len(scripts)) if i not in picked),
                   key=lambda i: sum(1.0 / (1 + 3 * covered[f]) for f in feats[i]))
        picked.append(best)
        covered.update(feats[best])
    return [scripts[i] for i in picked], len(covered)


def reuse_scripts(work, seed, want, twice):
    """Behaviours in which the contents of a user's one object change between calls; and one that asks in every width."""
    out = os.path.join(work, "reuse.jsonl")
    rc, text, *_ = tlc("GenReuse", work, env={"OUT": out}, workers=4, timeout=200)
    if rc != 0:
        raise Machinery("GenReuse:\n" + tail(text))
    with open(out) as f:
        plans = sorted((json.loads(line) for line in f), key=json.dumps)
    wide = [p for p in plans if p[0]["act"] == "simulate" and p[3]["act"] == "build" and p[0]["key"][1:3] == [1, 1]]
    moves = [p for p in plans if p[0]["act"] == "build" and p[1]["act"] == "simulate"]
    twins = [p for p in plans if p[1]["act"] == "simulate" and p[2]["act"] == "build"]
    plans = [p for p in plans if p[0]["act"] == "build" and p[1]["act"] == "call"]
    rng = rng_for(seed, "reuse")
    picked, ways = [], ["reuse", "refile", "dict"]
    for k in range(want):
        pool = [p for p in plans if p[0]["form"] == ways[k % 3]]
        picked.append(pool[int(rng.integers(len(pool)))])
    for way in ("reuse", "refile"):
        pool = [p for p in moves if p[0]["form"] == way]
        picked.append(pool[int(rng.integers(len(pool)))])
    return picked, wide[int(rng.integers(len(wide)))], [twins[int(rng.integers(len(twins)))] for _ in range(twice)]


def all_lives(work):
    out = os.path.join(work, "lives.jsonl")
    rc, text, states, trans = tlc("GenLife", work, env={"OUT": out}, workers=4, timeout=120)
    if rc != 0:
        raise Machinery("GenLife:\n" + tail(text))
    with open(out) as f:
        return sorted((json.loads(line) for line in f), key=json.dumps), states, trans


def jobs_for(spec, seed, rnd, work, deep):
    """Module -> list of (name, function, kwargs)."""
    jobs = {}
    names = collections.Counter()

    def add(module, name, func, **kw):
        names[name] += 1
        jobs.setdefault(module, []).append((f"{name}.{names[name]}", func, kw))

    for i, p in enumerate(spec.get("space", [])):
        add("TraceSpace", f"space-{p}", "space_case", case=gen.profile(p, rng_for(seed, rnd, p, i)))
    for i, p in enumerate(spec.get("model", [])):
        add("TraceSoepy", f"model-{p}", "model_case", case=gen.profile(p, rng_for(seed, rnd, p, i)))
    if rnd == 0:
        for name in spec.get("witness", []):
            add("TraceSoepy", f"witness-{name}", "model_case", case=gen.witness(name))
    kinds = ["random", "rich-split", "types", "boost", "elterngeld", "erz"]
    for i in range(spec.get("unit", 0)):
        p = kinds[(i + rnd) % len(kinds)]
        add("TraceUnit", f"unit-{p}", "unit_case", case=gen.profile(p, rng_for(seed, rnd, "unit", i)),
            seed=int(rng_for(seed, rnd, "points", i).integers(1 << 30)), size=120 if deep else 40,
            refusals=i < spec.get("refusals", 0))
    for i, rel in enumerate(spec.get("pairs", [])):
        variant = int(rel[4:]) if rel.startswith("same") else 0
        rel = "same" if rel.startswith("same") else rel
        a, b = gen.make_pair(rng_for(seed, rnd, rel, variant, i), rel, variant)
        add("TracePair", f"pair-{rel}", "pair_case", rel=rel, a=a, b=b)
    for i, fair in enumerate(spec.get("freq", [])):
        add("TraceFreq", "freq-fair" if fair else "freq", "freq_case", fair=fair,
            case=gen.freq_case(rng_for(seed, rnd, "freq", i), fair, 8000 if deep else 4000))
    if spec.get("lives"):
        lives, *_ = all_lives(work)
        order = rng_for(seed, "lives").permutation(len(lives))
        n = spec["lives"] * 3
        for k in range(spec["lives"]):
            pick = [lives[order[(rnd * n + 3 * k + j) % len(lives)]] for j in range(3)]
            add("TraceLife", "life", "life_case", lives=pick, case=gen.life_case(rng_for(seed, rnd, "life", k), pick, 2, 2))
    if spec.get("sessions"):
        scripts, _ = session_scripts(work, seed * 1000 + rnd + 1, spec["sessions"])
        reuse, wide, twins = reuse_scripts(work, seed * 1000 + rnd + 1, spec.get("reuse", 3), spec.get("twins", 0))
        scripts += reuse + twins
        add("TraceSession", "session-horizon", "session_case", script=wide, seed=seed * 1000 + rnd * 50 + 49, horizon=True)
        for k, s in enumerate(scripts):
            add("TraceSession", "session", "session_case", script=s, seed=seed * 1000 + rnd * 50 + k, again=k < spec.get("again", 0) or s in twins)
    return jobs


def init_worker():
    import drive  # noqa: F401
    os.environ["OMP_NUM_THREADS"] = "1"


def run_job(job):
    import drive
    return drive.guarded(job)


# ---- judging -------------------------------------------------------------------------------
def judge(module, records, work, workers):
    """TLC's verdicts on the recorded behaviour: (lines, states, transitions, error)."""
    trace = os.path.join(work, f"{module}.json")
    out = os.path.join(work, f"{module}.jsonl")
    if os.path.exists(out):
        os.unlink(out)
    with open(trace, "w") as f:
        json.dump(records, f)
    rc, text, states, trans = tlc(module, work, env={"TRACE": trace, "OUT": out}, workers=workers)
    lines = []
    if os.path.exists(out):
        with open(out) as f:
            lines = [json.loads(x) for x in f if x.strip()]
    done = {ln["id"] for ln in lines for j in ln["judgments"] if j["clause"] == "done"}
    missing = [r["id"] for r in records if r["id"] not in done]
    err = None
    if rc != 0 or missing:
        if rc in (-9, 137, 1) or "OutOfMemoryError" in text or "Parsing or semantic analysis failed" in text:
            raise Machinery(f"TLC {module} (exit {rc}):\n" + tail(text))
        err = (missing, tail(text))
    return lines, states, trans, err


def judge_total(module, records, work, workers):
    """As judge, but a record that TLC cannot evaluate is told apart from the others."""
    lines, states, trans, err = judge(module, records, work, workers)
    if not err:
        return lines, states, trans, []
    bad = []
    lines = []
    for r in records:
        ln, s, t, e = judge(module, [r], work, workers)
        lines += ln
        states, trans = states + s, trans + t
        if e:
            bad.append((r["id"], e[1]))
    if not bad:
        raise Machinery(f"TLC {module} failed on all records together, but on none alone:\n{err[1]}")
    return lines, states, trans, bad


# ---- one round -----------------------------------------------------------------------------
class Tally:
    def __init__(self):
        self.points = collections.Counter()
        self.bad = collections.Counter()
        self.first = {}
        self.crashes = []
        self.malformed = []
        self.states = self.transitions = self.traces = 0
        self.by_module = collections.Counter()
        self.samples = []
        self.ids = set()
        self.mc = []


def run_round(prop, seed, rnd, deep, tally, pool, work, only_jobs=None):
    spec = props.PROPS[prop]
    jobs = only_jobs or jobs_for(spec, seed, rnd, work, deep)
    order = ["TraceSession", "TracePair", "TraceUnit", "TraceFreq", "TraceSoepy", "TraceLife", "TraceSpace"]
    pending = {}
    for module in sorted(jobs, key=order.index):
        pending[module] = [(j, pool.apply_async(run_job, (j,))) for j in jobs[module]]
    results, errors, threads = {}, [], []
    # model checking of the specification itself goes on while the implementation runs
    if rnd == 0 and not only_jobs:
        for name in spec.get("mc", []):
            th = threading.Thread(target=model_check, args=(name, deep, work, tally, errors))
            th.start()
            threads.append(th)

    def finish(module, recs):
        try:
            results[module] = judge_total(module, recs, work, 4 if len(jobs) > 1 else 8)
        except Exception as exc:  # noqa: BLE001
            errors.append(exc)

    by_id = {}
    for module in reversed(sorted(jobs, key=order.index)):
        recs = []
        for job, res in pending[module]:
            try:
                ans = res.get(timeout=840)
            except mp.TimeoutError as exc:
                raise Machinery(f"{job[0]}: no answer") from exc
            by_id[job[0]] = (module, job)
            if "crash" in ans:
                if ans["crash"]["where"] == "harness":
                    raise Machinery(ans["crash"]["trace"])
                tally.crashes.append((job, ans["crash"]))
            else:
                recs.append(ans["ok"])
        if recs:
            th = threading.Thread(target=finish, args=(module, recs))
            th.start()
            threads.append(th)
    for th in threads:
        th.join()
    if errors:
        raise errors[0]
    for module, (lines, states, trans, bad) in results.items():
        tally.states += states
        tally.transitions += trans
        tally.by_module[module] += len({ln["id"] for ln in lines})
        tally.traces += len({ln["id"] for ln in lines})
        for name, text in bad:
            tally.malformed.append((by_id[name][1], module, text))
        for ln in lines:
            for j in ln["judgments"]:
                tally.points[j["clause"]] += j["n"]
                tally.bad[j["clause"]] += j["bad"]
                if j["bad"] and j["clause"] not in tally.first:
                    tally.first[j["clause"]] = {"module": module, "job": by_id[ln["id"]][1], "step": ln["step"], "first": j["first"],
                                                "bad": j["bad"], "points": j["n"]}
    for name, (module, job) in by_id.items():
        tally.ids.add(json.dumps(job[2], sort_keys=True, default=str))
        if len(tally.samples) < 3:
            tally.samples.append({"job": name, "module": module, "input": shorten(job[2])})


def model_check(name, deep, work, tally, errors):
    try:
        cfg = name + "Deep" if deep and os.path.exists(os.path.join(SPEC, name + "Deep.cfg")) else name
        t0 = time.time()
        # NAME-FAULT.cfg: a faulty variant of the model, in which TLC must find the fault
        module = {"MCIrrelevance": "MCBellman"}.get(name, name.split("-")[0])
        rc, text, states, trans = tlc(module, work, cfg=cfg, workers=4, timeout=600)
        if rc != (12 if "-" in name else 0):
            raise Machinery(f"TLC {name} (exit {rc}): the specification itself is wrong:\n" + tail(text, 60))
        tally.mc.append({"config": cfg, "states": states, "transitions": trans, "wall_s": round(time.time() - t0, 1)})
    except Exception as exc:  # noqa: BLE001
        errors.append(exc)


def shorten(kw):
    s = json.dumps(kw, default=str)
    if len(s) < 3500:
        return json.loads(s)
    if "case" in kw:
        return {**{k: v for k, v in kw.items() if k not in ("case", "lives")}, "spec": kw["case"]["spec"]}
    return s[:3500]


# ---- reporting -----------------------------------------------------------------------------
def save_replay(prop, clause, seed, detail):
    folder = os.path.join(ROOT, "replay")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-{clause}-{seed}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "clause": clause, **detail}, f, indent=1, default=str)
    return path


def known_findings():
    with open(os.path.join(ROOT, "known-findings.json")) as f:
        return json.load(f)["findings"]


def report(prop, seed, tally):
    pats = props.PROPS[prop]["clauses"]
    findings = {f["clause"]: f for f in known_findings() if f["property"] == prop}
    violations = 0
    for job, crash in tally.crashes[:3]:
        path = save_replay(prop, "crash", seed, {"job": job, "crash": crash})
        print(f"crash on a valid input ({job[0]}): {crash['error']} at {crash['where']}")
        print(f"VIOLATION property={prop} replay={path}")
        violations += 1
    for job, module, text in tally.malformed[:3]:
        path = save_replay(prop, "malformed", seed, {"job": job, "module": module, "tlc": text})
        print(f"output outside the specification's types ({job[0]}): {text[-400:]}")
        print(f"VIOLATION property={prop} replay={path}")
        violations += 1
    for clause in sorted(tally.first):
        if not any(fnmatch.fnmatchcase(clause, p) for p in pats):
            continue
        f = tally.first[clause]
        if clause.startswith("finding."):
            if clause in findings:
                print(f"KNOWN-FINDING: property={prop} {findings[clause]['what']}")
                continue
        path = save_replay(prop, clause, seed, f)
        print(f"{clause}: {tally.bad[clause]} of {tally.points[clause]} points fail; first: {json.dumps(f['first'])[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        violations += 1
    return violations


def evidence(prop, tier, seed, tally, wall, violations):
    pats = props.PROPS[prop]["clauses"]
    mine = {c: n for c, n in sorted(tally.points.items()) if any(fnmatch.fnmatchcase(c, p) for p in pats)}
    mc_s, mc_t = sum(m["states"] for m in tally.mc), sum(m["transitions"] for m in tally.mc)
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tally.states + mc_s, "transitions": tally.transitions + mc_t,
            "traces_validated_against_impl": tally.traces,
            "trace_states": tally.states, "model_states": mc_s, "model_runs": tally.mc,
            "traces_by_specification": dict(tally.by_module),
            "evaluations": int(sum(mine.values())), "distinct_nontrivial": len(tally.ids),
            "rule": "evaluations: points (state, grid point, alternative, row, step, call) at which a deciding clause was evaluated; "
                    "distinct_nontrivial: different inputs/scripts handed to the implementation in this run",
            "points_by_clause": mine, "failing_points_by_clause": {c: tally.bad[c] for c in mine if tally.bad[c]},
            "samples": tally.samples,
        },
        "assumptions": [
            "values are compared as IEEE-754 doubles with relative tolerance 1e-9 (TLC module Real64, implemented in java/)",
            "JAX runs in 64-bit mode, as in the repository's tests",
        ],
        "wall_s": round(wall, 1), "violations": violations,
    }
    folder = os.path.join(ROOT, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, f"{prop}.json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)


def silent_clauses(prop, tally):
    """Clauses that should have been evaluated but never were."""
    return [p for p in props.PROPS[prop]["clauses"]
            if not p.startswith("finding.") and not any(fnmatch.fnmatchcase(c, p) and n > 0 for c, n in tally.points.items())]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    deep = tier == "thorough"
    budget = float(os.environ.get("VERIF_BUDGET", "600"))
    t0 = time.time()
    if not os.path.exists(os.path.join(CLASSES, "tlc2", "overrides", "Real64.class")):
        subprocess.run([os.path.join(ROOT, "setup.sh")], check=True, capture_output=True)
    repo = os.path.realpath(os.environ["PYTHONPATH"])
    work = tempfile.mkdtemp(prefix="verif_")
    os.environ["TMPDIR"] = tempfile.tempdir = work
    tally = Tally()
    try:
        with mp.get_context("spawn").Pool(8, initializer=init_worker) as pool:
            where = pool.apply(soepy_home)
            if not where.startswith(repo + os.sep):
                raise Machinery(f"soepy comes from {where}, not {repo}")
            if a.replay:
                with open(a.replay) as f:
                    rep = json.load(f)
                module = rep.get("module") or {"space_case": "TraceSpace", "unit_case": "TraceUnit", "model_case": "TraceSoepy",
                                               "pair_case": "TracePair", "freq_case": "TraceFreq", "life_case": "TraceLife",
                                               "session_case": "TraceSession"}[rep["job"][1]]
                run_round(prop, seed, 0, False, tally, pool, work, {module: [tuple(rep["job"])]})
            else:
                rnd = 0
                while True:
                    r0 = time.time()
                    run_round(prop, seed, rnd, deep, tally, pool, work)
                    rnd += 1
                    took = time.time() - r0
                    if not deep or tally.crashes or time.time() - t0 + 1.3 * took > budget:
                        break
                idle = silent_clauses(prop, tally)
                if idle and not (tally.crashes or tally.malformed):
                    # functions of the package may have been moved; everything else must have been seen
                    print(f"note: never evaluated: {idle}")
                    if not all(p.startswith("unit.") for p in idle):
                        raise Machinery(f"never evaluated: {idle}")
        violations = report(prop, seed, tally)
        if not a.replay:
            evidence(prop, tier, seed, tally, time.time() - t0, violations)
        n = sum(v for c, v in tally.points.items() if any(fnmatch.fnmatchcase(c, p) for p in props.PROPS[prop]["clauses"]))
        print(f"{prop}: {n} points on {tally.traces} traces, {tally.states + sum(m['states'] for m in tally.mc)} states, "
              f"{violations} violation(s), {time.time() - t0:.0f} s")
        return 1 if violations else 0
    except Machinery as exc:
        print(f"ERROR: {exc}", file=sys.stderr)
        return 2
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def soepy_home():
    import soepy
    return os.path.realpath(soepy.__file__)


if __name__ == "__main__":
    sys.exit(main())
