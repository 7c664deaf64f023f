"""writes HARNESSES.md: every harness of every property with its bounds, and the assumptions of each property module"""
import os, re, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'tools'))
import catalog
from slv import props
out = ['# Harnesses and bounds', '', 'Written by tools/harness_table.py from slv/props. (T) marks harnesses that only the thorough tier runs.', '']
for p in sorted(catalog.P, key=lambda p: p['id']):
    spec = importlib.import_module('slv.props.' + props.MODULES[p['id']]).PROPS[p['id']]
    q = {h.name: h for h in spec['harnesses']('quick')}
    t = {h.name: h for h in spec['harnesses']('thorough')}
    out += ['## %s %s' % (p['id'], p['title']), '']
    groups = {}
    for n in list(q) + [n for n in t if n not in q]:
        h = q.get(n) or t[n]
        b = h.bounds
        if n in q and n in t and t[n].bounds != b:
            b += ' (thorough: %s)' % t[n].bounds
        key = (re.split(r'[/_]', n)[0] if len(q) > 30 else n, re.sub(r'[0-9.e+-]+', '#', b), n in q)
        groups.setdefault(key, []).append((n, b))
    for (_, _, inq), m in groups.items():
        bs = list(dict.fromkeys(b for _, b in m))
        nm = '`%s`' % m[0][0] if len(m) == 1 else '`%s` ... `%s` (%d)' % (m[0][0], m[-1][0], len(m)) if len(m) > 4 else ', '.join('`%s`' % n for n, _ in m)
        out.append('- %s%s: %s' % (nm, '' if inq else ' (T)', bs[0] if len(bs) == 1 else '%s ... %s' % (bs[0], bs[-1])))
    for a in spec.get('assume', []):
        out.append('- Assumes: ' + a)
    out.append('')
open(os.path.join(V, 'HARNESSES.md'), 'w').write('\n'.join(out))
