#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks there are in lib/."""
import json, os, sys, importlib, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
checks = {}
NOTES = {}
for m in ("hashes", "ratchet", "fields", "sharing"):
    if os.path.exists(f"{V}/lib/{m}.py"):
        mod = importlib.import_module(m)
        checks.update(mod.CHECKS)
        NOTES.update(getattr(mod, "NOTES", {}))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
T = {"H": "TLA+ specification of the hash functions and their streaming state machine; TLC validates recorded calls",
     "R": "TLA+ model of the double ratchet checked by TLC; TLC behaviours replayed into the code and recorded runs validated",
     "F": "TLA+ specification of modular arithmetic; TLC validates recorded calls, exhaustively for small fields",
     "E": "TLA+ specification of the schemes; TLC validates recorded calls and compares surveyed distributions",
     "S": "TLA+ specification of the protocols as state machines; TLC schedules replayed into the code and recorded runs validated"}
N = {"H": "Every recorded call must equal the RFC function evaluated by TLC; exhaustive over message lengths around the block boundaries, sampled over contents. Trusts the harness's recording and TLC.",
     "R": "Model checked exhaustively at small bounds with symbolic cryptography; binding by replaying enumerated and simulated behaviours and validating every recorded call. Trusts the harness's recording and TLC.",
     "F": "Exhaustive for small primes, sampled with edge values for the large ones; every recorded result is recomputed by TLC. Trusts the harness's recording and TLC.",
     "E": "Exhaustive for small groups, sampled for large ones; every recorded result is recomputed by TLC. Trusts the harness's recording and TLC.",
     "S": "Protocol model checked exhaustively over small fields; every recorded run of the code is validated against it under schedules from TLC. Trusts the harness's recording and TLC."}
man = dict(version=1, setup_cmd="bin/setup",
    hooks=dict(guard="cfg(jester_verif), cfg(jester_verif_deep)",
               enable="RUSTFLAGS='--cfg jester_verif [--cfg jester_verif_deep]' when building the crates under /verif/harness",
               source_commits=[l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if " verif: hook" in l]),
    checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks:
        man["checks"].append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=T[i[0]], level="model_checking", level_note=NOTES.get(i, N[i[0]])))
    else:
        man["not_applicable"].append(dict(property=i, reason="not built yet: specified in DESIGN.md, its check is under construction"))
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not claimed")
