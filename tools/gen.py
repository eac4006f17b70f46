#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from analysis/spec.py and the registered rules."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'analysis'))
import registry
import spec

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for pid in sorted(spec.P) + sorted(spec.NA):
        s = spec.P.get(pid) or spec.NA[pid]
        if pid in spec.P and pid not in registry.PROPS:
            continue
        d = dict(id=pid, title=s['title'], statement=s['statement'],
                 quantifier=dict(over=s['over'], text=s['text']), why_tests_cant=s['why'],
                 anchors=dict(files=s['files'], mechanism=[dict(name=a, where=b) for a, b in s['mech']]))
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
NOTE = ('Covers every path of the entry points in the analysed configurations for symbolic arguments and '
        'poller state, up to the trusted models of system calls and std (see assumptions in the evidence); '
        'a construct that cannot be analysed makes the check exit 2, never pass.')
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=pid, quick_cmd='python3 check.py %s quick' % pid,
                      thorough_cmd='python3 check.py %s thorough' % pid,
                      evidence_file='evidence/%s.json' % pid,
                      technique=spec.P[pid]['tech'], level='other',
                      level_note=(spec.P[pid]['note'] + ' ' + NOTE).strip())
                 for pid in sorted(spec.P) if pid in registry.PROPS],
         not_applicable=[dict(property=pid, reason=s['reason']) for pid, s in sorted(spec.NA.items())],
         notes='Repairs of defects found are recorded in known_findings.txt; DESIGN.md describes the method.')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks')
