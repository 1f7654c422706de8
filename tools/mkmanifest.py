#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = dict(version=1, setup_cmd='python3 bin/setup.py',
           hooks=dict(guard='none', enable='no hooks in /repo: the checks intercept the pthread, system call and OpenMP entry points at link time (ld --wrap) and compile /repo unchanged', source_commits=[]),
           checks=[], not_applicable=[], notes='fix: commits in /repo are listed in known_findings.txt')
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out['checks'].append(dict(property=i, quick_cmd='bin/check %s' % i, thorough_cmd='VERIF_TIER=thorough bin/check %s --thorough' % i,
                                  evidence_file='evidence/%s.json' % i,
                                  technique=c.get('technique', 'stateless model checking of the implementation: exhaustive enumeration under a controlled scheduler'),
                                  level='model_checking', level_note=c.get('note', 'Exhaustive within the bounds stated in DESIGN.md for this property; the implementation itself is executed.')))
    else:
        out['not_applicable'].append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, 'check not built yet')))
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(out['checks']), 'checks')
