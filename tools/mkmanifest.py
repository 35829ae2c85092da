"""Write MANIFEST.json from properties.jsonl."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Holds for all values of the symbolic inputs on every path of the '
        'stated harnesses and bounds (see DESIGN.md and the evidence); '
        'histories, tree shapes and field names are bounded and enumerated by '
        'forking. Trusts z3 and the models of NumPy, SciPy, h5py, json and '
        'hashlib, each path of which is validated by running a solver model '
        'of it on the real code; counterexamples count only if the real code '
        'fails on them.')
EXTRA = {
    'R13': ' Known findings: odd field names, trailing NULs, time zones.',
    'R14': ' Known findings: NUL characters, time zones.',
    'R15': ' Known findings: odd field names, NUL characters, time zones.',
    'F18': ' Known finding: HDF5 files change without save().'}
with open(os.path.join(V, 'properties.jsonl')) as f:
    props = [json.loads(x) for x in f]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [
    {'property': p['id'], 'quick_cmd': './check %s quick' % p['id'],
     'thorough_cmd': './check %s thorough' % p['id'],
     'evidence_file': 'evidence/%s.json' % p['id'],
     'technique': 'symbolic execution of the current source with z3; '
                  'counterexamples replayed on the real code',
     'level': 'model_checking', 'level_note': NOTE + EXTRA.get(p['id'], '')}
    for p in props if os.path.exists(os.path.join(
        V, 'props', p['id'].lower() + '.py'))],
    'not_applicable': []}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks')
