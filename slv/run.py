"""python3-vt -m slv.run ID [--tier quick|thorough] [--only substr] [--replay file] [-v]"""
import argparse, json, os, sys, time, importlib, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from slv import build, engine, props
from slv.harness import Image

VERIF = engine.VERIF
COMMON = [
    'Encoding: the LLVM IR clang produces from the working tree (-O0 + mem2reg), executed symbolically over every feasible branch; integers are '
    'mathematical with overflow, range, bounds, initialisation and division obligations at every operation (so wrap-around is an error, not a model).',
    'Floating-point arithmetic and libm are interpreted as exact real arithmetic unless a harness says bit-precise; claims carry an explicit tolerance '
    'that is far above accumulated rounding, and every counterexample is replayed on the compiled double/float code before being reported.',
    'Trusted: clang/opt lowering, the IR interpreter in slv/, z3, and the harness specifications.',
]


def known():
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))['findings'] if k.get('state') != 'fixed']


def match(k, pid, hname, v):
    return k['property'] == pid and k['harness'] == hname and k['claim'] in v['claim'] and \
        all(str(v['inputs'].get(a)) == str(b) for a, b in k.get('inputs', {}).items())


def jd(o):
    try:
        return float(o)
    except Exception:
        return str(o)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--procs', type=int, default=8)
    ap.add_argument('--limit', type=int, default=None)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        b = build.build()
    except build.BuildError as e:
        print('ERROR: /repo does not build: %s' % e)
        return 3
    img = Image(b)
    tb = time.time() - t0
    mod = importlib.import_module('slv.props.' + props.MODULES[a.id])
    spec = mod.PROPS[a.id]
    hs = spec['harnesses'](tier)
    if a.replay:
        r = json.load(open(a.replay))
        h = [x for x in hs if x.name == r['harness']]
        if not h:
            h = [x for x in spec['harnesses']('thorough') if x.name == r['harness']]
        if h[0].custom is not None:
            print('replay of a custom harness: re-running it')
            out = engine.run_harness(img, h[0], tier, seed)
            print(json.dumps(out['violations'], indent=1, default=jd))
            return 1 if out['violations'] else 0
        c = engine.confirm(img, h[0], r['inputs']) or engine.interp_confirm(img, h[0], r['inputs'])
        print('inputs', r['inputs'])
        print('reproduced:' if c else 'not reproduced', c)
        return 1 if c else 0
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    limit = a.limit or (780 if tier == 'quick' else 7200)
    ks = known()
    res = engine.run_all(img, hs, tier, seed, a.procs, limit,
                         final=lambda r: any(not any(match(k, a.id, r['name'], v) for k in ks) for v in r['violations']))
    rc = 0
    rdir = os.path.join(VERIF, 'evidence', 'replay', a.id)
    shutil.rmtree(rdir, ignore_errors=True)
    nviol = 0
    for r in res:
        if a.v:
            print('-- %s: paths %d obl %d discharged %d via %s unknown %d viol %d q %d solver %.1fs wall %.1fs %s' % (
                r['name'], r['paths'], r['obligations'], r['discharged'], r['via'], len(r['unknown']), len(r['violations']),
                r['queries'], r['solver_s'], r['wall_s'], ('sliced %d' % len(r['sliced'])) if r['sliced'] else ''))
            for n in r['notes'][:5]:
                print('     note', n)
            for n in r['sliced'][:5]:
                print('     sliced', n)
        for v in r['violations']:
            kk = [k for k in ks if match(k, a.id, r['name'], v)]
            if kk:
                print('KNOWN-FINDING: property=%s %s' % (a.id, kk[0]['what']))
                continue
            nviol += 1
            os.makedirs(rdir, exist_ok=True)
            f = os.path.join(rdir, '%s_%d.json' % (r['name'].replace('/', '_').replace(' ', '_'), nviol))
            json.dump(dict(property=a.id, harness=r['name'], claim=v['claim'], failures=v['failures'], inputs=v['inputs'], how=v['how']),
                      open(f, 'w'), indent=1, default=jd)
            print('VIOLATION property=%s replay=%s' % (a.id, f))
            print('  harness %s: %s' % (r['name'], v['claim']))
            for x in v['failures'][:3]:
                print('    ' + str(x)[:300])
            print('    inputs %s' % json.dumps(v['inputs'], default=jd)[:600])
            rc = 1
    unk = [(r['name'], u) for r in res for u in r['unknown']]
    if unk:
        for n, u in unk[:20]:
            print('UNDECIDED property=%s harness=%s %s' % (a.id, n, u[:400]))
    tot = lambda k: sum(r.get(k, 0) or 0 for r in res)
    # undecided obligations are not violations: they are listed and counted in the evidence as not covered; a run that
    # decided nothing at all gives no answer
    if unk and rc == 0 and tot('discharged') == 0:
        rc = 2
    fns = sorted(set(f for r in res for f in r['functions']))
    via = {}
    for r in res:
        for k, n in r['via'].items():
            via[k] = via.get(k, 0) + n
    ev = dict(property=a.id, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=COMMON + spec.get('assume', []),
              coverage=dict(
                  explanation='Bounded symbolic execution of the code\'s own LLVM IR with SMT-discharged obligations: %d harnesses, %d paths, '
                              '%d obligations (%d discharged), %d solver queries, %.1f s of solver time. %s' % (
                                  len(res), tot('paths'), tot('obligations'), tot('discharged'), tot('queries'), tot('solver_s'), spec.get('claim', '')),
                  obligations=tot('obligations'), discharged=tot('discharged'), solver_queries=tot('queries'),
                  solver_seconds=round(tot('solver_s'), 2), paths=tot('paths'), infeasible_paths=tot('infeasible'), discharged_by=via,
                  functions_encoded=fns, build_s=round(tb, 2), source_hash=build.tree_hash(), undecided=len(unk),
                  harnesses=[dict(name=r['name'], bounds=r['bounds'], paths=r['paths'], obligations=r['obligations'], discharged=r['discharged'],
                                  queries=r['queries'], solver_s=r['solver_s'], wall_s=r['wall_s'], verdicts=r.get('verdicts'),
                                  weakened_to_slices=r['sliced'], witness=r['witness'], notes=r['notes'][:3]) for r in res]))
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', a.id + '.json'), 'w'), indent=1, default=jd)
    print('%s %s: %d harnesses, %d paths, %d/%d obligations discharged, %d queries, %.1f s solver, %.1f s wall -> %s' % (
        a.id, tier, len(res), tot('paths'), tot('discharged'), tot('obligations'), tot('queries'), tot('solver_s'), time.time() - t0,
        {0: 'HOLDS (within bounds)' + (' except %d undecided' % len(unk) if unk else ''), 1: 'VIOLATED', 2: 'INCONCLUSIVE'}[rc]))
    return rc


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
