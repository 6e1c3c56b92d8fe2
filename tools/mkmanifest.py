"""Writes MANIFEST.json from properties.jsonl and contracts/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
meta = json.load(open(os.path.join(here, 'contracts', 'meta.json')))
NA = {
    'C23': 'How closely the hybrid (monthly) temperatures approximate the hourly ones is an empirical error of a numerical approximation; no contract on the code implies a bound, so a deductive verifier has nothing to discharge.',
    'C24': 'The agreement of pygfunction\'s numerical responses with the finite line source integral is a statement about a dependency\'s numerical integration; pygfunction is a trusted contract here and its code is outside of /repo.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    m = meta.get(i, {})
    proof = m.get('proof', False)
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s quick' % i,
        'thorough_cmd': 'python3 check.py %s thorough' % i,
        'technique': m.get('technique', 'contracts on the real functions, verification conditions from the current source discharged by z3/cvc5; violations replayed on the running code'
                           if proof else 'bounded concrete stand-in for contracts outside of the verifier\'s reach (randomised inputs against an independent oracle on the real code)'),
        'level': 'proof' if proof else 'exploration',
        'level_note': m.get('note', 'bounded'),
    })
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks translate and run the sources of /repo as they are.'}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', sum(c['level'] == 'proof' for c in checks), 'proof')
