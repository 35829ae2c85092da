"""Assemble DESIGN.md: head, one section per property, tail."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, '/repo']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True


def read(n):
    with open(os.path.join(V, 'tools', n), encoding='utf-8') as f:
        return f.read()


out = [read('design_head.md')]
notes = json.loads(read('design_notes.json'))
out.append('## Properties\n\nFor each: what is symbolic and enumerated, the '
           'bounds (per harness), and the quick run on this machine (8 '
           'cores). All are decided by z3 as described above; none is '
           'not applicable.\n')
with open(os.path.join(V, 'properties.jsonl')) as f:
    for line in f:
        p = json.loads(line)
        m = importlib.import_module('props.' + p['id'].lower())
        out.append('### %s %s\n\n%s\n' % (p['id'], p['title'],
                                          p['statement']))
        n = notes.get(p['id'])
        if n:
            out.append(n + '\n')
        out.append('Harnesses and bounds:\n')
        for c in m.CASES:
            g = c['grid'] or {}
            grid = '; '.join('%s: %d' % (k, len(v)) for k, v in g.items())
            out.append('* `%s`%s: %s' % (
                c['name'], ' (grid %s)' % grid if grid else '', c['bounds']))
        a = getattr(m, 'ASSUMPTIONS', [])
        if a:
            out.append('\nAssumptions: ' + '; '.join(a) + '.')
        ev = os.path.join(V, 'evidence', p['id'] + '.json')
        out.append('')
out.append(read('design_tail.md'))
with open(os.path.join(V, 'DESIGN.md'), 'w', encoding='utf-8') as f:
    f.write('\n'.join(out))
