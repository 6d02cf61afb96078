"""Writes MANIFEST.json: a check for every property with a contract file, the others under not_applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'C21': 'Global optimality of scipy.optimize.minimize and convergence of MCMC / nested sampling for every posterior is '
           'not a consequence of any contract on the code in /repo (it is false for an arbitrary posterior), so no '
           'obligation could decide it.',
}
NOTE = {}
LEVEL = {}
exec(open(os.path.join(HERE, 'tools', 'levels.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i not in NA and os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'technique': 'contracts on the real code, discharged by a deductive verifier (pyvc: symbolic execution of the functions of /repo, '
                                    'normal form of real arithmetic + z3), failed obligations replayed on the real code',
                       'level': LEVEL.get(i, 'proof'), 'level_note': NOTE.get(i, DEFAULT_NOTE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No contract built yet.')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed: the source is loaded from /repo on every run and executed symbolically. See DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
