#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
from props import PROPS
from checks import CHECKS

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {k: v for k, v in p.items() if k not in ('note', 'technique')}
        f.write(json.dumps(d) + '\n')

DEF_NOTE = ('Held on the generated executions only: randomized and small-exhaustive workloads from VERIF_SEED, judged by an independent reference '
            'model, with every access inside exact-size heap blocks under ASan+UBSan and again in an optimised g++ build. Trusts the reference '
            'model, the compilers and sanitizers; alignment UB is excluded (unaligned word access is by design).')
checks, na = [], []
for p in PROPS:
    pid = p['id']
    if pid not in CHECKS:
        na.append(dict(property=pid, reason='check not built yet'))
        continue
    checks.append(dict(property=pid, quick_cmd='python3 run.py check %s --tier quick' % pid,
                       thorough_cmd='python3 run.py check %s --tier thorough' % pid,
                       evidence_file='evidence/%s.json' % pid,
                       technique=p['technique'] or 'runtime monitoring: reference-model oracle over generated executions under ASan+UBSan',
                       level='exploration', level_note=p['note'] or DEF_NOTE))
man = dict(version=1, setup_cmd='python3 run.py list',
           hooks=dict(guard='STRTK_VERIF_HOOKS', enable='no hooks were needed: the drivers observe the public API; nothing in /repo is guarded',
                      source_commits=[]),
           checks=checks, not_applicable=na,
           notes='Every check recompiles its driver (and any program it observes) from /repo in a scratch directory. See DESIGN.md.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
import jsonschema
S = '/root/.vp/'
jsonschema.validate(man, json.load(open(S + 'MANIFEST.schema.json')))
sch = json.load(open(S + 'PROPERTIES.schema.json'))
ids = set()
for p in PROPS:
    d = {k: v for k, v in p.items() if k not in ('note', 'technique')}
    jsonschema.validate(d, sch)
    assert d['id'] not in ids
    ids.add(d['id'])
for c in CHECKS:
    assert c in ids, c
print(len(PROPS), 'properties', len(checks), 'checks')
