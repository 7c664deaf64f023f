"""development aid: time each obligation of one harness"""
import sys, time, importlib
from . import build, engine, props, smt
from .harness import Image, Explorer
sys.setrecursionlimit(20000)
pid, hn = sys.argv[1:3]
lim = float(sys.argv[3]) if len(sys.argv) > 3 else 60
b = build.build(); img = Image(b)
mod = importlib.import_module('slv.props.' + props.MODULES[pid])
h = [x for x in mod.PROPS[pid]['harnesses']('quick') if x.name == hn][0]
t0 = time.time()
o0 = smt.check
def chk(cs, tmo, *a, **k):
    t1 = time.time(); r = o0(cs, tmo, *a, **k)
    dt = time.time() - t1
    if dt > 1: print('   slow query %.1fs %s tmo %s' % (dt, r[0], tmo))
    return r
smt.check = chk
ex = Explorer(img, h.fn, expand=h.expand, unify=h.unify, max_paths=h.max_paths, nan_check=h.nan_check, prune=h.prune, prune_ms=h.prune_ms, wall=lim, maxterms=h.maxterms)
ex.run()
print('explored', ex.paths, 'inf', ex.infeasible, 'complete', ex.complete, ex.notes, 'obl', len(ex.obligations), '%.1fs' % (time.time() - t0))
for o in ex.obligations:
    t1 = time.time()
    st, via, Zc, m = engine.decide(o, ex, h.tmo, h.nra)
    dt = time.time() - t1
    if dt > 0.5 or st != 'unsat':
        print('%.2fs %s %s %s' % (dt, st, via, o['name']), len(o['pc']))
        if st != 'unsat' and '-m' in sys.argv and m is not None:
            print('    ', smt.model_inputs(Zc, m, ex.inputs))
    if time.time() - t0 > 3 * lim: break
