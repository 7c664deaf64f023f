"""One-off: the published series tables, taken from the pinned original commit into slv/data/*.json (the checks read the JSON, never this)."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '5a27ef6'


def src(f):
    return re.sub(r'//[^\n]*', '', subprocess.run(['git', '-C', '/repo', 'show', '%s:src/%s.cc' % (BASE, f)], capture_output=True, text=True, check=True).stdout)


def tables(f):
    s = src(f)
    out = {}
    for m in re.finditer(r'(\w+)((?:\[\w+\])+)\s*=?\s*\{', s):
        i, d = m.end() - 1, 0
        for j in range(i, len(s)):
            d += (s[j] == '{') - (s[j] == '}')
            if d == 0:
                break
        body = s[i:j + 1]
        body = re.sub(r'([0-9.])f\b', r'\1', body).replace('{', '[').replace('}', ']')
        try:
            out[m.group(1)] = eval(body, {})
        except Exception as e:
            print(f, m.group(1), 'skipped', e)
    return out


class L(dict):
    def __add__(a, b): return L({k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)})
    def __sub__(a, b): return L({k: a.get(k, 0) - b.get(k, 0) for k in set(a) | set(b)})
    def __neg__(a): return L({k: -v for k, v in a.items()})


def nut80():
    s = src('nutc80')
    s = s[s.index('double de = 0.0;') + 16:s.index('psi = dp')]
    names = {}
    for n in ('el', 'elp', 'f', 'd', 'om'):
        b = L({n: 1})
        names[n] = b
        names[n + '2'], names[n + '3'] = b + b, b + b + b
        names[n + '4'] = b + b + b + b
    names['el3'] = names['el3']
    rows = {}
    ang = None
    for st in s.split(';'):
        st = ' '.join(st.split())
        m = re.match(r'(?:double )?angle = (.*)$', st)
        if m:
            ang = eval(m.group(1), dict(names))
            continue
        m = re.match(r'(dp|de) = \1 ([+-]) (.*)std::(sin|cos)\((.*)\)$', st)
        if not m:
            if st:
                print('??', st)
            continue
        w, sg, co, fn, a = m.groups()
        assert (w, fn) in (('dp', 'sin'), ('de', 'cos')), st
        arg = ang if a == 'angle' else eval(a, dict(names))
        co = co.rstrip(' *') or '1.0'
        c0, c1 = eval(co, {'centuries': 0.0}), eval(co, {'centuries': 1.0})
        from decimal import Decimal
        mm = re.match(r'\((.*) ([+-]) ([0-9.]+) \* centuries\)$', co)
        c1 = 0.0 if not mm else float(mm.group(2) + mm.group(3))
        if sg == '-':
            c0, c1 = -c0, -c1
        key = tuple(arg.get(k, 0) for k in ('el', 'elp', 'f', 'd', 'om'))
        r = rows.setdefault(key, [0.0, 0.0, 0.0, 0.0])
        o = 0 if w == 'dp' else 2
        r[o] += c0
        r[o + 1] += c1
    return [list(k) + v for k, v in rows.items()]


def dump(n, o):
    json.dump(o, open(os.path.join(V, 'slv/data/%s.json' % n), 'w'))
    print(n, {k: len(v) for k, v in o.items()})


for f in ('nutc', 'rcc', 'epv', 'moon', 'dmoon', 'evp'):
    t = tables(f)
    if f == 'epv':
        n = {m.group(1): int(m.group(2)) for m in re.finditer(r'(N[ES][012][XYZ]) = (\d+)', src('epv'))}
        t = {k: [t[k][j][:n['N' + k + 'XYZ'[j]]] for j in range(3)] for k in ('E0', 'E1', 'E2', 'S0', 'S1', 'S2')}
    dump(f, t)
dump('nutc80', {'terms': nut80()})
