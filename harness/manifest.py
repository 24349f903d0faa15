"""Writes MANIFEST.json from props.py (run by hand after changing the table)."""
import json
import os

from props import PROPS

PACK = {"space": "state space, tables and covariates (TraceSpace)", "model": "solutions and simulated histories (TraceSoepy)",
        "unit": "single calls (TraceUnit)", "pairs": "pairs of runs (TracePair)", "sessions": "generated call sequences (GenSession, TraceSession)",
        "freq": "large samples (TraceFreq)", "lives": "generated lives replayed (GenLife, TraceLife)", "mc": "bounded models of the specification (TLC)"}
checks = []
for p, d in PROPS.items():
    packs = [PACK[k] for k in PACK if d.get(k)]
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
        "technique": "TLA+ specification checked with TLC; trace validation and replay of generated behaviours against the code: " + "; ".join(packs),
        "level": "model_checking",
        "level_note": "Every recorded answer of the real code is compared with the TLA+ specification, over seeded random inputs aimed at this "
                      "property's corners; the specification's own theorems are model checked over small constants. Trusts TLC, the Real64 "
                      "override (IEEE doubles; comparisons to a relative 1e-9) and the recorder. Inputs are sampled, not exhausted.",
    })
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. Known findings: known-findings.json."}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
