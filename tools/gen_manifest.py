#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties below."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
CORE = "abstract interpretation of compiler MIR (bit-precise Boolean-function domain, joins) against an independent Z80 specification"
NOTE = ("Sound for all inputs over the enumerated entry points: every opcode position x flavour x prefix state x debugger on/off, "
        "interrupt and NMI entries, halted and gated entries; one instruction from an arbitrary state, arbitrary host answers. "
        "Trusts the compiler's MIR (opt-level 0), the analyser's MIR semantics and the specification in engine/zcheck/src/oracle.rs.")
claims = json.load(open('tools/claims.json'))
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    c = claims.get(i)
    if c is None or 'na' in c:
        na.append({"property": i, "reason": (c or {}).get('na', "no check built yet")})
        continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
                   "technique": c.get('technique', CORE), "level": "other", "level_note": c.get('note', NOTE)})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is reached through the crate's public interface. Level 'other' is sound static analysis; see DESIGN.md."}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write("\n")
