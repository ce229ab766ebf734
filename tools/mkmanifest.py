#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
TRUST = " Trusts rustc, the generator's reference text and the small runtime in rs/; says nothing about shapes outside the generated grammar."
FWD = ("Generated enums and generated operation sequences on logging probe values (and std types); the full event log on the enum is compared with the log on the bare value. "
       "Exploration: hundreds of enums and tens of thousands of histories per quick run, every one fixed by VERIF_SEED." + TRUST)
TECH = {
 "fwd": "generated enums x generated call histories, differential against the bare held value",
}
NOTES = {
 "D05": ("generated error enums x source-chain walks, differential against the bare error", FWD),
 "D07": ("generated transposable enums x payloads, compared with the construction", "Each variant, side and payload type of generated enums is moved through every transpose method; variant, payload and drops are compared with how the value was built." + TRUST),
 "C": ("generated programs, differential against a boxed reference version under generated decision scripts",
       "Each generated function is compiled twice, annotated and with every branch boxed by hand, and both are run under the same decision scripts; traces of side effects, drops, panics and observed values must agree." + TRUST),
}
NOTES.update(getattr(run, "NOTES", {}))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    if p in run.CHECKS:
        t, n = NOTES.get(p) or (NOTES["C"] if p[0] == "C" else (TECH["fwd"], FWD))
        checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": "property-based testing: " + t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": p, "reason": NA.get(p, "its check is still being built; nothing is claimed for it yet")})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
