"""development aid: mutation campaign. mutate.py CHECK N [seed] [-f file.cc,...]: N random mutants of the check's anchor files that build and pass
the tests are put through the quick check (in scratch copies, SLV_REPO); prints caught / MISSED with the change. Scratch: /tmp/mutants."""
import os, re, subprocess, sys, random, shutil, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import catalog
SRC = '/repo/src'
W = '/tmp/mutants'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def prep():
    if os.path.exists(W + '/base/ok'):
        return
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W + '/base/obj')
    fs = [f for f in os.listdir(SRC) if f.endswith('.cc')]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda f: sh('g++', '-std=c++17', '-O1', '-w', '-c', SRC + '/' + f, '-o', W + '/base/obj/' + f[:-3] + '.o'), fs))
    r = sh('g++', '-std=c++17', '-O1', '-w', '-c', '/repo/tests/sla_test.cc', '-I', SRC, '-o', W + '/base/sla_test.o')
    assert r.returncode == 0, r.stderr
    extra = [f for f in os.listdir('/repo/tests') if f.endswith('.cc') and f != 'sla_test.cc']
    for f in extra:
        sh('g++', '-std=c++17', '-O1', '-w', '-c', '/repo/tests/' + f, '-I', SRC, '-o', W + '/base/t_' + f[:-3] + '.o')
    open(W + '/base/ok', 'w').write('')


def code_spans(s):
    """character positions outside comments, strings and preprocessor lines, inside function bodies (indented lines)"""
    ok = [True] * len(s)
    for m in re.finditer(r'/\*.*?\*/|//[^\n]*|^\s*#[^\n]*|"[^"\n]*"', s, re.S | re.M):
        for i in range(*m.span()):
            ok[i] = False
    for m in re.finditer(r'^[^\s][^\n]*$', s, re.M):
        for i in range(*m.span()):
            ok[i] = False
    return ok


def bump(t):
    m = re.match(r'^(\d+)$', t)
    if m:
        return random.choice([str(int(t) + 1), str(max(0, int(t) - 1))])
    m = re.match(r'^([\d.]*?)(\d)((?:[eE][+-]?\d+)?f?)$', t)
    if m:
        d = int(m.group(2))
        return m.group(1) + str((d + random.choice([1, 3, 7])) % 10) + m.group(3)
    return None


OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' <= ', ' < '), (r' >= ', ' > '), (r' < ', ' <= '), (r' > ', ' >= '), (r' == ', ' != '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r'std::sin\(', 'std::cos('), (r'std::cos\(', 'std::sin('), (r'std::fabs\(', '('), (r'std::abs\(', '('),
       (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \? ', ' ?!'), (r'if \(', 'if (!('), (r' < ', ' > '), (r' > ', ' < '), (r'\bx\b', 'y'), (r'\by\b', 'x'), (r'\[0\]', '[1]'), (r'\[1\]', '[2]'), (r'\[2\]', '[1]')]


def mutants(f, n):
    s = open(SRC + '/' + f).read()
    ok = code_spans(s)
    c = []
    for m in re.finditer(r'(?<![\w.])(\d+\.\d*(?:[eE][+-]?\d+)?f?|\d+)(?![\w.])', s):
        if ok[m.start()]:
            c.append(('num', m.span(), None))
    for a, b in OPS:
        for m in re.finditer(a, s):
            if ok[m.start()] and ok[m.end() - 1]:
                c.append(('op', m.span(), b))
    for m in re.finditer(r'^[ \t]+[\w.\[\]>-]+ [-+*]?= [^;{}]*;|^[ \t]+\w+\([^;{}]*\);', s, re.M):
        if ok[m.end() - 1] and 'return' not in m.group(0):
            c.append(('del', m.span(), ';'))
    nums = [x for x in c if x[0] == 'num']
    rest = [x for x in c if x[0] != 'num']
    random.shuffle(nums)
    random.shuffle(rest)
    pick = rest[:n] + nums[:max(3, n // 2)]
    random.shuffle(pick)
    for k, (a, b), new in pick:
        if k == 'num':
            new = bump(s[a:b])
            if new is None or new == s[a:b]:
                continue
        if new == ' ?!':
            new = ' ? !'
            continue
        if new == 'if (!(':
            # negate the whole condition
            i = b
            d = 1
            while d and i < len(s):
                d += {'(': 1, ')': -1}.get(s[i], 0)
                i += 1
            t = s[:a] + 'if (!(' + s[b:i - 1] + '))' + s[i:]
        else:
            t = s[:a] + new + s[b:]
        ln = s.count('\n', 0, a)
        yield f, ln + 1, s.split('\n')[ln + (1 if s[a] == '\n' else 0)].strip(), t.split('\n')[ln].strip(), t


def try_one(a):
    i, (f, ln, old, new, t) = a
    d = W + '/m%d' % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/src')
    for x in os.listdir(SRC):
        os.symlink(SRC + '/' + x, d + '/src/' + x)
    os.unlink(d + '/src/' + f)
    open(d + '/src/' + f, 'w').write(t)
    r = sh('g++', '-std=c++17', '-O1', '-w', '-c', d + '/src/' + f, '-o', d + '/m.o')
    if r.returncode:
        return None
    objs = [W + '/base/obj/' + x for x in os.listdir(W + '/base/obj') if x != f[:-3] + '.o']
    ts = [W + '/base/' + x for x in os.listdir(W + '/base') if x.endswith('.o')]
    if sh('g++', '-o', d + '/t', d + '/m.o', *objs, *ts).returncode:
        return None
    try:
        r = sh('timeout', '20', d + '/t')
    except Exception:
        return None
    if r.returncode or 'PASSED' not in r.stdout:
        return None
    os.unlink(d + '/t')
    return d, f, ln, old, new


def main():
    pid, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 and sys.argv[3].isdigit() else 1
    random.seed(seed)
    files = [os.path.basename(x) for x in [p for p in catalog.P if p['id'] == pid][0]['anchors']['files']]
    if '-f' in sys.argv:
        files = sys.argv[sys.argv.index('-f') + 1].split(',')
    prep()
    allm = [m for f in files for m in mutants(f, 30)]
    random.shuffle(allm)
    surv = []
    with ThreadPoolExecutor(8) as ex:
        for k in range(0, len(allm), 24):
            if len(surv) >= n:
                break
            surv += [x for x in ex.map(try_one, list(enumerate(allm[k:k + 24], k))) if x]
    # spread over files
    byf = {}
    for x in surv:
        byf.setdefault(x[1], []).append(x)
    sel = []
    while len(sel) < n and any(byf.values()):
        for f in list(byf):
            if byf[f] and len(sel) < n:
                sel.append(byf[f].pop())
    for d, f, ln, old, new in sel:
        r = sh('bash', V + '/check.sh', pid, 'quick', '--no-evidence', '--procs', os.environ.get('MUT_PROCS', '8'), '--limit', os.environ.get('MUT_LIMIT', '300'), env=dict(os.environ, SLV_REPO=d))
        v = [l for l in r.stdout.split('\n') if l.startswith('  harness')]
        st = 'caught' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode
        print('%s %s %s:%d | %s  ==>  %s | %s %s' % (pid, st, f, ln, old, new, v[0] if v else '', r.stdout.strip().split('\n')[-1][-90:] if r.returncode != 1 else ''), flush=True)
    for x in os.listdir(W):
        if x.startswith('m'):
            shutil.rmtree(os.path.join(W, x))


main()
