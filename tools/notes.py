#!/usr/bin/env python3
"""level_notes.json from the property rows of DESIGN.md (then run mkmanifest.py)."""
import json, re
old = json.load(open('/verif/level_notes.json'))
out = {'default': old['default']}
for line in open('/verif/DESIGN.md'):
    m = re.match(r'\*\*(C\d\d)\*\* (.*?) \*Bounds:\* (.*?) \*Outside:\* (.*)', line)
    if m:
        i, _, b, o = m.groups()
        o = '' if o.strip() == '-' else ' Outside: ' + o.strip()
        out[i] = 'Decided for every value within: ' + b.strip() + o + ' Trusts go/ssa, the engine\'s Go semantics and stubs (DESIGN.md 1), and the SMT solvers; sampled paths are replayed on the compiled code.'
json.dump(out, open('/verif/level_notes.json', 'w'), indent=0, sort_keys=True)
open('/verif/level_notes.json', 'a').write('\n')
