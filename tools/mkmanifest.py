#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a harness entry."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = set()
for f in glob.glob(V + '/harness/*/*.go'):
    have |= set(re.findall(r'^func (C\d\d)_', open(f).read(), re.M))
NOTE = ("Bounded: the real Go (SSA) and C (LLVM IR) code is executed symbolically with the inputs, clock, stream fragmentation and schedule as solver "
        "variables; z3 decides every branch and assertion for all values within the bounds each entry states (see DESIGN.md and the evidence file). "
        "Nothing is claimed outside them. Trusts z3, the engine's semantics (its completed paths are replayed on the compiled code on every run) and the "
        "listed stubs. A violation is reported only after the compiled code reproduces it.")
checks, na = [], []
NA = {}
ARGS = {'C12': ' -budget 300', 'C13': ' -budget 200', 'C20': ' -budget 150', 'C16': ' -budget 100', 'C31': ' -budget 320', 'C32': ' -budget 120', 'C36': ' -budget 100', 'C37': ' -budget 100', 'C33': ' -budget 100'}
for p in props:
    i = p['id']
    if i in have:
        checks.append({"property": i, "quick_cmd": "bash check.sh " + i + ARGS.get(i, ""), "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
            "technique": "symbolic execution of the compiled-from-source Go SSA / LLVM IR with z3, counterexamples replayed natively",
            "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na}, open(V + '/MANIFEST.json', 'w'), indent=1)
