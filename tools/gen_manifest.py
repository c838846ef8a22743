#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when harness/<id>/ exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Every path of the harness through the real code is executed symbolically from its SSA form, regenerated from /repo on each run; "
        "assertions are decided by z3 for all values within the bounds printed in the evidence (harnesses[].bounds). Trusted: the SSA interpreter, "
        "z3, and the models of crypto primitives (uninterpreted, collision-free), CBOR, JSON and the badger store listed in DESIGN.md; "
        "solver models of sampled paths are replayed against the compiled code, and a violation is reported only after it is reproduced natively. "
        "Paths outside the bounds, cut by the time budget or using unsupported operations are listed in the evidence as reduced coverage.")
NA = {}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.isdir(os.path.join(V, 'harness', i)) and i not in NA:
        extra = ''
        f = os.path.join(V, 'harness', i, 'NOTE')
        if os.path.exists(f):
            extra = ' ' + open(f).read().strip()
        checks.append(dict(property=i, quick_cmd=f'bash check.sh {i} quick', thorough_cmd=f'bash check.sh {i} thorough',
                           technique='symbolic execution of the Go SSA with z3, counterexamples replayed natively',
                           level='model_checking', level_note=NOTE + extra))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
