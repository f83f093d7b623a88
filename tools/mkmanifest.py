#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^monitor:'], capture_output=True, text=True).stdout.split()
m = {'version': 1, 'setup_cmd': 'python3 run.py setup',
     'hooks': {'guard': 'OPTION_PRICER_MONITOR', 'enable': 'run.py compiles /repo/src with -DOPTION_PRICER_MONITOR', 'source_commits': hook},
     'checks': [], 'not_applicable': []}
for p in props:
    c = checks.CHECKS.get(p['id'])
    if c:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py check ' + p['id'],
                            'thorough_cmd': 'VERIF_TIER=thorough python3 run.py check ' + p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'],
                            'technique': c['technique'], 'level': 'exploration', 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': 'monitor not built yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
