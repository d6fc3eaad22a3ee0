#!/usr/bin/env python3
"""writes MANIFEST.json from vc/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in ids:
    c = props.PROPS.get(p)
    if not c:
        continue
    lvl = c.get('level', 'proof')
    d = dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
             evidence_file='evidence/%s.json' % p, level=lvl,
             technique=c.get('technique', 'contracts on the real functions (extracted from rustc THIR on every run) discharged by Verus/Z3'),
             level_note=c.get('note', '') or ('Every obligation of the %d functions under contract is discharged for all inputs. Assumes: %s. A bounded search on the real code runs beside it and supplies failing inputs; it is not counted as proof.' % (
                 len(c['roots']), '; '.join(c.get('assume', [])))))
    if lvl == 'proof':
        d['theorems'] = c['roots'] + c.get('lemmas', [])
    checks.append(d)
na = [dict(property=p, reason=props.NOT_APPLICABLE[p]) for p in ids if p not in props.PROPS]
doc = dict(version=1,
           setup_cmd='bash setup.sh',
           hooks=dict(guard='cfg(algeo_verif)', enable='RUSTFLAGS="--cfg algeo_verif" when check.py builds harness/ (a path dependency on /repo); the extractor builds /repo without it',
                      source_commits=props.HOOK_COMMITS),
           checks=checks, not_applicable=na,
           notes='see DESIGN.md')
json.dump(doc, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
