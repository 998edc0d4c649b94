"""Write MANIFEST.json from the property modules that exist."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
cfg = json.load(open(os.path.join(V, 'sim', 'budget.json')))
TECH = json.load(open(os.path.join(V, 'tools', 'technique.json')))
NA = {
    'C20': 'Pure function of N: no randomness, clock, I/O, thread, callback or fault for a simulator to own; deciding it '
           'means evaluating the rules on inputs, which is not simulation. (Designs and integrals that use the rules are '
           'checked under C10 and C18.)',
    'C21': 'Pure function of its arguments: no schedule, randomness, I/O or fault in it; only inputs vary, which is not a '
           'simulation target.',
    'C22': 'Pure function of degree, dimension and points: only inputs vary. (The observable consequence, that predicted '
           'gradients are the derivatives of predictions, is checked on trained surfaces under C19.)',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(V, 'sim', 'props', i.lower() + '.py')):
        t = TECH[i]
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'env VERIF_TIER=thorough ./check.sh ' + i,
                       'evidence_file': 'evidence/{}.json'.format(i),
                       'technique': 'deterministic simulation with fault injection: ' + t[0],
                       'level': cfg.get(i, {}).get('level', cfg['default']['level']), 'level_note': t[1]})
    else:
        na.append({'property': i, 'reason': 'its simulation is not built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is a module attribute of numpy, scipy, matplotlib or the standard library '
              'that the simulator replaces before it imports the library. Replay a violation with '
              './check.sh replay FILE.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
