"""development aid: largest |code - specification| over random concrete inputs, per claim (to choose ctol)"""
import sys, random
sys.path.insert(0, __file__.rsplit('/', 2)[0])
import importlib
from slv import build, props
from slv import harness as hh
pid, hn, n = sys.argv[1], sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 200
m = importlib.import_module('slv.props.' + props.MODULES[pid])
img = hh.Image(build.build())
mx = {}
C = [c for c in vars(hh).values() if isinstance(c, type) and 'vals' in getattr(c.__init__, '__code__', type('x', (), {'co_varnames': ()})).co_varnames][0]
def close(self, name, a, b, tol, ctol=None):
    mx[name] = max(mx.get(name, (0, 0)), (abs(a - b), ctol if ctol is not None else tol))
C.close = close
for h in m.PROPS[pid]['harnesses']('quick'):
    if hn in h.name:
        mx.clear()
        for i in range(n):
            try:
                h.fn(C(img, {}, random.Random(i)))
            except Exception as e:
                if 'ssum' not in type(e).__name__ and 'Skip' not in type(e).__name__: print(type(e), e)
        print(h.name, {k: '%.1e/%.1e' % v for k, v in mx.items()})
