#!/usr/bin/env python3
"""Writes MANIFEST.json from the jobs the driver knows."""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
src = open(root + '/sim/cmd/driver/jobs.go').read()
src = src[:src.index('const ruleSuffix')]
have = set(re.findall(r'^\t"([A-Z]\d\d)":', src, re.M))
notes = {}
NA = {
 'N01': 'A pure function of its input: no schedule, clock, I/O, fault or second party influences a round trip through the codec, so deterministic simulation has nothing to vary.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': 'bash check.sh %s quick' % i,
            'thorough_cmd': 'bash check.sh %s thorough' % i,
            'technique': 'deterministic simulation: seeded schedule and fault search' + (' under the race detector' if i == 'R01' else ' over the real code, history oracle'),
            'level': 'exploration',
            'level_note': 'Sampled, not exhaustive: as many seeded runs as the evidence counts, each one exactly repeatable. Trusts the simulator (patched Go runtime scheduler and clock), the plan generator\'s bounds and the oracle described in DESIGN.md. Goroutines switch between statements of the code under test, not inside one.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'The check for this property is not built yet.')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: the scheduling points and seams are added to copies of its files at build time through a go build overlay.'}
open(root + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
