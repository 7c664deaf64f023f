"""Deciding obligations, replaying counterexamples, running a property's harnesses, writing evidence."""
import os, sys, time, json, math, random, signal, pickle, select, traceback, multiprocessing as mp
from fractions import Fraction
import z3
from . import term as t
from .term import T, isc
from .real import NF, TooBig
from . import smt, build
from .harness import (Image, Explorer, SymE, Ctl, ConcE, concrete, Infeasible, UndefOut, offsets)
from .exec import Unsupported, Bound, PathEnd, UNDEF

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class H:
    """one harness: fn(E), plus exploration options"""

    def __init__(self, name, fn, expand=True, unify=1e-13, max_paths=4000, nan_check=False, prune=True, tmo=20000, kinds=None,
                 bounds='', search=1500, slices=True, max_steps=6000000, wall=500, tier=None, prune_ms=400, smoke=20, maxterms=60000,
                 custom=None, fresh=False, nra=True, weight=1):
        self.__dict__.update(locals())
        del self.__dict__['self']


# ------------------------------------------------------------------------------------------------ obligations
def pc_subst(pc, nf0):
    """equalities var == const implied by the path condition"""
    s = {}
    for c in pc:
        if isinstance(c, T) and c.op == 'feq':
            for a, b in (c.a, c.a[::-1]):
                if isinstance(a, T) and a.op == 'var':
                    if isc(b):
                        s[a.a[0]] = t.frac(b)
                    elif b.op == 'fc':
                        s[a.a[0]] = Fraction(b.a[0])
    return s


def substituted(pc, ex):
    """a normal form that knows the equalities of the path condition, or None"""
    sub = pc_subst(pc, ex.nf)
    zs = smt.zero_terms(pc)
    if not sub and not zs:
        return None
    n2 = NF(**ex.opts)
    n2.subst = sub
    for x in ex.cuts:
        try:
            n2.cut(x)
        except (ValueError, ZeroDivisionError, TooBig):
            pass
    if zs and not n2.assume_zero(zs) and not sub:
        return None
    return n2


def lra(nf, r, tol, tmo):
    """|num/den| <= tol with monomials as independent bounded variables (sound over-approximation)"""
    num, den = r
    dmin = 1.0
    for pid, e in den:
        lo, hi = nf.pinterval(nf.plist[pid])
        if lo <= 0 <= hi:
            if num:
                return 'sat'
            break
        dmin *= min(abs(lo), abs(hi)) ** e
    cs, ts = [], []
    for i, (m, c) in enumerate(num.items()):
        if m == ():
            ts.append(smt.zq(c))
            continue
        lo, hi = nf.minterval(m)
        if math.isinf(lo) or math.isinf(hi):
            return 'sat'
        v = z3.Real('m%d' % i)
        cs += [v >= smt.zf(lo), v <= smt.zf(hi)]
        ts.append(smt.zq(c) * v)
    e = z3.Sum(ts) if ts else z3.RealVal(0)
    b = smt.zq(tol * Fraction(dmin)) if num else smt.zq(tol)
    cs.append(z3.Or(e > b, e < -b))
    return smt.check(cs, tmo, want_model=False)[0]


class ZL(smt.Z):
    """linear relaxation: every monomial is an independent bounded unknown"""
    def zmono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atomvar(self.nf.atoms[m[0][0]])
        return self.zmono_lin(m)

    def define(self, at, v):
        if at.kind == 'sqrt' or at.kind == 'abs':
            self.side.append(v >= 0)
        elif at.kind not in ('cos', 'sin', 'cbrt'):
            super().define(at, v)


def linear(ob, ex):
    """the goal from the path condition, both linear over their monomials"""
    try:
        Zc = ZL(ex.nf)
        cs = [z3.Not(Zc.zbool(ob['goal']))]
        for c in ob['pc']:
            try:
                cs.append(Zc.zbool(c))
            except (ValueError, ZeroDivisionError, TooBig, RecursionError):
                pass
        return smt.check(cs + Zc.side, 800, want_model=False)[0]
    except (ValueError, ZeroDivisionError, TooBig, RecursionError):
        return 'unknown'


def decide(ob, ex, tmo, nra=True, quick=False):
    """-> (status, via, Zctx, model)   status in unsat / sat / unknown; quick: only the cheap linear rungs ('more' if they do not settle it)"""
    kind = ob['kind']
    pc = ob['pc']
    if kind == 'triv':
        smt.STATS['queries'] += 1
        smt.STATS['unsat'] += 1
        return 'unsat', 'identity', None, None
    if kind in ('close', 'angle'):
        if ob['a'] is ob['b']:
            smt.STATS['queries'] += 1
            smt.STATS['unsat'] += 1
            return 'unsat', 'identity', None, None
        nfs = [ex.nf]
        n2 = substituted(pc, ex)
        if n2:
            nfs.append(n2)
        last = None
        for nf in nfs:
            try:
                a, b = nf.nf(ob['a']), nf.nf(ob['b'])
                d = nf.rsub(a, b)
                if kind == 'close':
                    goals = [(d, ob['tol'])]
                else:
                    s, c = nf.sincos(d)
                    goals = [(s, ob['tol']), (nf.rsub(nf.rconst(Fraction(1)), c), ob['tol'])]
            except (ValueError, ZeroDivisionError, TooBig, Unsupported, RecursionError, KeyError) as e:
                last = ('unknown', 'normal form: %s' % (type(e).__name__ + ' ' + str(e)), None, None)
                continue
            if all(lra(nf, g, tol, tmo) == 'unsat' for g, tol in goals):
                return 'unsat', 'lra', None, None
            last = (nf, goals)
        if not isinstance(last[0], NF):
            # path infeasible?
            return last
        nf, goals = last
        if not nra:
            return 'unknown', 'nra off', None, None
        if quick:
            return 'more', None, None, None
        try:
            Zc = smt.Z(nf)
            gs = []
            for g, tol in goals:
                n = Zc.zpoly(g[0])
                dp = Zc.zpoly(nf.denpoly(g[1])) if g[1] else z3.RealVal(1)
                tz = smt.zq(tol)
                if g[1]:
                    gs.append(z3.Or(n * n > tz * tz * dp * dp))
                    Zc.side.append(dp != 0)
                else:
                    gs.append(z3.Or(n > tz, n < -tz))
            goal = z3.Or(gs)
            if pc:
                Zq = smt.Z(nf)
                pq = Zq.zpc(pc)
                if smt.check(pq + Zq.side, 1000, want_model=False)[0] == 'unsat':
                    return 'unsat', 'infeasible path', None, None
            r, m = smt.check(Zc.side + [goal], tmo // 2)
            if r == 'unsat':
                return 'unsat', 'nra', None, None
            pcz = Zc.zpc(pc)
            r, m = smt.check(pcz + Zc.side + [goal], tmo)
            if r == 'unsat':
                return 'unsat', 'nra+pc', None, None
            return r, 'nra', Zc, m
        except (ValueError, ZeroDivisionError, TooBig, RecursionError) as e:
            return 'unknown', 'smt translation: %s' % e, None, None
    # boolean goals
    if linear(ob, ex) == 'unsat':
        return 'unsat', 'lra', None, None
    if quick:
        return 'more', None, None, None
    nfs = [ex.nf]
    n2 = substituted(pc, ex)
    if n2:
        nfs.insert(0, n2)
    res = ('unknown', 'no attempt', None, None)
    for nf in nfs:
        try:
            Zc = smt.Z(nf)
            g = z3.Not(Zc.zbool(ob['goal']))
            side0 = list(Zc.side)
            if pc:
                rel = Zc.zpc(pc)
            else:
                rel = []
            r, m = smt.check(rel + Zc.side + [g], tmo)
            if r == 'unsat':
                return 'unsat', 'smt', None, None
            if r == 'unknown':
                r2, _ = smt.check(side0 + [g], tmo // 2)
                if r2 == 'unsat':
                    return 'unsat', 'smt-nopc', None, None
            if res[0] != 'sat':
                res = (r, 'smt', Zc, m)
        except (ValueError, ZeroDivisionError, TooBig, RecursionError) as e:
            if res[0] == 'unknown' and res[2] is None:
                res = ('unknown', 'smt translation: %s' % e, None, None)
    return res


def decide_hard(o, ex, tmo, nra):
    """the expensive rungs in a child process (solvers do not always honour their time limit): -> (status, via, candidate inputs or None)"""
    def go():
        q0 = dict(smt.STATS)
        st, via, Zc, m = decide(o, ex, tmo, nra)
        cand = None
        if st != 'unsat':
            if m is not None:
                try:
                    cand = smt.model_inputs(Zc, m, ex.inputs)
                except Exception:
                    pass
            if cand is None:
                try:
                    Z2 = smt.Z(ex.nf)
                    r, m2 = smt.check(Z2.zpc(o['pc']) + Z2.side, tmo // 2)
                    if r == 'sat':
                        cand = smt.model_inputs(Z2, m2, ex.inputs)
                    elif r == 'unsat':
                        st, via = 'unsat', 'infeasible path'
                except Exception:
                    pass
        return st, via, cand, {k: smt.STATS[k] - q0[k] for k in q0}
    st, v = in_child(go, 4 * tmo / 1000 + 20)
    if st != 'ok':
        smt.STATS['queries'] += 1
        smt.STATS['unknown'] += 1
        return 'unknown', 'solver %s' % st, None
    for k, n in v[3].items():
        smt.STATS[k] += n
    return v[:3]


# ------------------------------------------------------------------------------------------------ replay in a child process
def in_child(fun, timeout):
    """run fun() in a forked child; returns ('ok', value) / ('died', signal) / ('timeout', None)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            v = fun()
            b = pickle.dumps(v)
            with os.fdopen(w, 'wb') as f:
                f.write(b)
            os._exit(0)
        except BaseException as e:
            try:
                os.write(w, pickle.dumps(('EXC', repr(e) + traceback.format_exc()[-800:])))
            except Exception:
                pass
            os._exit(3)
    os.close(w)
    buf = b''
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return 'timeout', None
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return 'died', os.WTERMSIG(st)
    try:
        v = pickle.loads(buf)
    except Exception:
        return 'died', st
    if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == 'EXC':
        return 'exc', v[1]
    return 'ok', v


def confirm(img, h, vals, timeout=20):
    """does the real compiled code violate the harness at these inputs? -> (list of failures, used) or None"""
    st, v = in_child(lambda: concrete(img, h.fn, vals, random.Random(7), fresh=h.fresh), timeout)
    if st == 'ok':
        fails, used, n = v
        return (fails, used) if fails else None
    if st == 'died':
        return (['real code aborted or crashed (signal %s)' % v], vals)
    if st == 'timeout':
        return (['real code did not return within %d s' % timeout], vals)
    return None


def interp_confirm(img, h, vals):
    """replay in the IR interpreter with concrete inputs (for undefined behaviour that leaves no trace in the optimised build)"""
    def go():
        ex = Explorer(img, None, prune=False)
        c = Ctl(ex, [])
        E = SymE(ex, c)

        def real(name, lo, hi, f32=False):
            v = float(vals.get(name, 0.0))
            v = min(max(v, float(lo)), float(hi))
            return t.f32(v) if f32 else v
        E.real = real
        E.int = lambda name, lo, hi: min(max(int(vals.get(name, 0)), lo), hi)
        E.bool = lambda name: bool(vals.get(name, False))
        try:
            h.fn(E)
        except (PathEnd, Infeasible, UndefOut):
            pass
        return [o['name'] for o in c.obl if o['kind'] in ('ub',) and o['goal'] is False]
    st, v = in_child(go, 60)
    return v if st == 'ok' and v else None


def random_search(img, h, base, seed, n, limit_s):
    """look for concrete inputs violating the harness, around `base` first; only used to turn a solver
    'sat'/'unknown' verdict into a concrete, replayable counterexample"""
    def go():
        rnd = random.Random(seed)
        end = time.time() + limit_s
        for i in range(n):
            if time.time() > end:
                break
            vals = {}
            if base and i % 2 == 0:
                for k, v in base.items():
                    x = rnd.random()
                    if x < 0.7:
                        vals[k] = v
                    elif x < 0.85 and isinstance(v, float):
                        vals[k] = v * (1 + rnd.uniform(-1, 1) * 10 ** rnd.uniform(-6, -1)) + rnd.uniform(-1, 1) * 10 ** rnd.uniform(-8, -2)
            fails, used, nc = concrete(img, h.fn, vals, rnd, fresh=h.fresh)
            if fails:
                return fails, used
        return None
    st, v = in_child(go, limit_s + 20)
    return v if st == 'ok' else (['real code crashed or hung in search (%s %s)' % (st, v)], base) if st in ('died',) else None


def slices(ex, ob, seed, tmo):
    """last rung: decide the obligation on input slices (all but one input fixed); every slice must be unsat"""
    rnd = random.Random(seed)
    reals = [n for n, v in ex.inputs.items() if v.ty in ('f64', 'f32')]
    if not reals:
        return False, 0
    pcv = set()
    okn = 0
    for i in range(12):
        free = reals[i % len(reals)]
        sub = {}
        for n in reals:
            if n == free:
                continue
            v = ex.inputs[n]
            lo, hi = float(v.lo), float(v.hi)
            sub[n] = Fraction(rnd.uniform(lo, hi))
        nf = NF(**ex.opts)
        nf.subst = sub
        ex2 = type('X', (), {})()
        ex2.nf, ex2.opts = nf, ex.opts
        saved = pc_subst
        ob2 = dict(ob)
        r = decide_in(ob2, ex2, tmo)
        if r == 'unsat':
            okn += 1
        elif r == 'sat':
            return False, okn
    return okn >= 6, okn


def decide_in(ob, ex, tmo):
    """decide within the given (already substituted) normal form"""
    try:
        if ob['kind'] in ('close', 'angle'):
            nf = ex.nf
            d = nf.rsub(nf.nf(ob['a']), nf.nf(ob['b']))
            goals = [(d, ob['tol'])]
            if ob['kind'] == 'angle':
                s, c = nf.sincos(d)
                goals = [(s, ob['tol']), (nf.rsub(nf.rconst(Fraction(1)), c), ob['tol'])]
            if all(lra(nf, g, tol, tmo) == 'unsat' for g, tol in goals):
                return 'unsat'
            Zc = smt.Z(nf)
            gs = []
            for g, tol in goals:
                n = Zc.zpoly(g[0])
                dp = Zc.zpoly(nf.denpoly(g[1])) if g[1] else z3.RealVal(1)
                tz = smt.zq(tol)
                gs.append(n * n > tz * tz * dp * dp)
                if g[1]:
                    Zc.side.append(dp != 0)
            pcz = Zc.zpc(ob['pc'])
            return smt.check(pcz + Zc.side + [z3.Or(gs)], tmo, want_model=False)[0]
        Zc = smt.Z(ex.nf)
        g = z3.Not(Zc.zbool(ob['goal']))
        pcz = Zc.zpc(ob['pc'])
        return smt.check(pcz + Zc.side + [g], tmo, want_model=False)[0]
    except (ValueError, ZeroDivisionError, TooBig, RecursionError):
        return 'unknown'


# ------------------------------------------------------------------------------------------------ one harness
def run_harness(img, h, tier, seed):
    t0 = time.time()
    for k in smt.STATS:
        smt.STATS[k] = 0
    out = dict(name=h.name, bounds=h.bounds, paths=0, infeasible=0, obligations=0, discharged=0, unknown=[], violations=[], notes=[],
               functions=[], via={}, sliced=[], status='ok', witness=None)
    try:
        # non-vacuity: the harness reaches its claims on the real code (also: the real code satisfies them there)
        rnd = random.Random(seed)

        def smoke():
            good = 0
            for i in range(h.smoke * 10):
                f, used, n = concrete(img, h.fn, {}, rnd, fresh=h.fresh)
                if f:
                    return ('fail', f, used)
                if f is not None and n:
                    good += 1
                    w = used
                    if good >= h.smoke:
                        break
            return ('ok', good, w if good else None)
        if h.custom is None:
            st, v = in_child(smoke, 60)
            if st == 'ok' and v[0] == 'fail':
                # keep going symbolically, but remember: a concrete violation of the real code
                c = confirm(img, h, v[2])
                if c:
                    out['violations'].append(dict(claim=c[0][0], failures=c[0][:6], inputs=c[1], how='witness run on the real code'))
                    interim(out)
            elif st == 'ok':
                out['witness'] = v[2]
                if not v[1]:
                    out['notes'].append('no concrete witness reached a claim (random inputs)')
            elif st == 'died':
                out['violations'].append(dict(claim='real code crashes on witness inputs', failures=['signal %s' % v], inputs={}, how='witness run'))
            elif st == 'timeout':
                out['notes'].append('witness run timed out')
            else:
                out['notes'].append('witness run: %s' % (v,))
        if h.custom is not None:
            h.custom(img, h, tier, seed, out)
        else:
            symbolic(img, h, tier, seed, out)
    except (Unsupported, Bound) as e:
        out['status'] = 'unsupported'
        out['notes'].append('%s: %s' % (type(e).__name__, e))
        out['unknown'].append('encoding: %s' % e)
    except Exception as e:
        out['status'] = 'error'
        out['notes'].append(traceback.format_exc()[-1500:])
        out['unknown'].append('error: %r' % e)
    out['queries'] = smt.STATS['queries']
    out['solver_s'] = round(smt.STATS['time'], 3)
    out['verdicts'] = {k: smt.STATS[k] for k in ('unsat', 'sat', 'unknown')}
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def interim(out):
    """tell the parent what has been established so far (it counts even if this worker is stopped later)"""
    if _G.get('pipe') is not None and os.getpid() == _G['pid']:
        r = dict(out)
        r.setdefault('queries', 0)
        r['queries'], r['solver_s'] = smt.STATS['queries'], round(smt.STATS['time'], 3)
        r['verdicts'] = {k: smt.STATS[k] for k in ('unsat', 'sat', 'unknown')}
        r['wall_s'] = 0
        r['unknown'] = list(out['unknown']) + ['interrupted: rest of the harness']
        _G['pipe'].send(('interim', r))


def symbolic(img, h, tier, seed, out):
    t0 = time.time()
    early = False
    ex = Explorer(img, h.fn, expand=h.expand, unify=h.unify, max_paths=h.max_paths, nan_check=h.nan_check, prune=h.prune,
                  max_steps=h.max_steps, wall=h.wall, prune_ms=h.prune_ms, maxterms=h.maxterms)
    ex.run()
    out['paths'], out['infeasible'] = ex.paths, ex.infeasible
    out['functions'] = sorted(img.demangle.get(k, k) for k in ex.calls)
    out['steps'] = ex.steps
    out['notes'] += ex.notes
    if not ex.complete:
        out['unknown'].append('exploration incomplete: ' + '; '.join(ex.notes))
    obs = ex.obligations
    seen = set()
    uniq = []
    for o in obs:
        if o['kind'] == 'nan' and not h.nan_check:
            continue
        k = (o['kind'], o['name'], tuple(c.id for c in o['pc']), getattr(o.get('goal'), 'id', o.get('goal')),
             getattr(o.get('a'), 'id', o.get('a')), getattr(o.get('b'), 'id', o.get('b')))
        if k in seen:
            continue
        seen.add(k)
        uniq.append(o)
    out['obligations'] = len(uniq)
    if ex.paths == 0 or not any(o['kind'] in ('claim', 'close', 'angle', 'triv') for o in uniq):
        out['unknown'].append('vacuous: no path reached a claim')
    tried = set()
    nviol = 0
    nunk = 0
    for o in uniq:
        if nviol >= 3 or (nviol and time.time() - t0 > 40):
            out['notes'].append('stopped: violations established')
            break
        tmo = h.tmo if nunk < 6 else h.tmo // 4
        st, via, Zc, m = decide(o, ex, tmo, h.nra, quick=True)
        viol = None
        cand = None
        if st == 'more':
            if o['kind'] in ('claim', 'close', 'angle') and not early:
                # before the first expensive query: a short look for concrete inputs that violate the harness
                early = True
                got = random_search(img, h, None, seed, 400, 3)
                if got:
                    viol = dict(claim=got[0][0].split(':')[0], failures=got[0][:6], inputs=got[1], how='replay on the compiled real code (search)')
            if viol is None:
                st, via, cand = decide_hard(o, ex, tmo, h.nra)
        if st == 'unsat':
            out['discharged'] += 1
            out['via'][via] = out['via'].get(via, 0) + 1
            continue
        if viol is not None:
            out['violations'].append(viol)
            interim(out)
            nviol += 1
            continue
        nunk += 1
        cands = [cand] if cand is not None else []
        for c in cands:
            if o['kind'] == 'ub':
                got = interp_confirm(img, h, c)
                if got:
                    viol = dict(claim=got[0], failures=got[:4], inputs=c, how='concrete replay of the IR of the real code')
                    break
            got = confirm(img, h, c)
            if got:
                viol = dict(claim=o['name'], failures=got[0][:6], inputs=got[1], how='replay on the compiled real code')
                break
        if viol is None and o['kind'] != 'nan':
            got = random_search(img, h, cands[0] if cands else None, seed, h.search, 20 if tier == 'quick' else 60)
            if got:
                viol = dict(claim=o['name'], failures=got[0][:6], inputs=got[1], how='replay on the compiled real code (search)')
        if viol is not None:
            out['violations'].append(viol)
            interim(out)
            nviol += 1
            continue
        # last rung
        if h.slices and o['kind'] != 'ub':
            sc, sv = in_child(lambda: slices(ex, o, seed, 4000), 100)
            okk, nsl = sv if sc == 'ok' else (False, 0)
            if okk:
                out['sliced'].append('%s (%d slices)' % (o['name'], nsl))
                out['discharged'] += 1
                out['via']['slices'] = out['via'].get('slices', 0) + 1
                continue
        out['unknown'].append('%s: solver %s (%s)' % (o['name'], st, via))
    # reachability: at least one explored path has a satisfiable condition
    if out['witness'] is None and ex.paths:
        for o in uniq[:20]:
            try:
                Z2 = smt.Z(ex.nf)
                r, m2 = smt.check(Z2.zpc(o['pc']) + Z2.side, 5000)
                if r == 'sat':
                    out['witness'] = {k: str(v) for k, v in smt.model_inputs(Z2, m2, ex.inputs).items()}
                    break
            except Exception:
                pass


def _work(a):
    img, h, tier, seed = a
    sys.setrecursionlimit(20000)
    return run_harness(img, h, tier, seed)


_G = {}


def _work_i(i):
    img, hs, tier, seed = _G['a']
    sys.setrecursionlimit(20000)
    return run_harness(img, hs[i], tier, seed)


def run_all(img, hs, tier, seed, procs=8, limit=780, final=None):
    """run harnesses in forked workers; a harness that exceeds the remaining time is reported unknown; final(result): the run may end early"""
    _G['a'] = (img, hs, tier, seed)
    img.lib()
    order = sorted(range(len(hs)), key=lambda i: -hs[i].weight)
    ctx = mp.get_context('fork')
    res = {}
    t0 = time.time()
    running, part = {}, {}
    queue = list(order)
    while queue or running:
        while queue and len(running) < procs:
            i = queue.pop(0)
            pr, pw = ctx.Pipe(False)

            def target(i=i, pw=pw):
                try:
                    os.setpgrp()
                    _G['pipe'], _G['pid'] = pw, os.getpid()
                    r = _work_i(i)
                except BaseException as e:
                    r = dict(name=hs[i].name, status='error', notes=[traceback.format_exc()[-1500:]], unknown=['error %r' % e], violations=[],
                             obligations=0, discharged=0, paths=0, functions=[], queries=0, solver_s=0, bounds=hs[i].bounds, wall_s=0,
                             sliced=[], via={}, witness=None, infeasible=0, verdicts={})
                pw.send(r)
                pw.close()
            p = ctx.Process(target=target)
            p.start()
            pw.close()
            running[i] = (p, pr)
        done = []
        for i, (p, pr) in running.items():
            if pr.poll(0.02):
                try:
                    got = pr.recv()
                    if isinstance(got, tuple):
                        part[i] = got[1]
                        if final and final(got[1]):
                            limit = min(limit, time.time() - t0 + 20)
                        continue
                    res[i] = got
                except EOFError:
                    res[i] = part.get(i)
                p.join()
                done.append(i)
            elif not p.is_alive() and not pr.poll(0.05):
                res[i] = part.get(i)
                done.append(i)
            elif time.time() - t0 > limit:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.kill()
                p.join()
                res[i] = part.get(i)
                done.append(i)
        for i in done:
            del running[i]
        if final and any(res[i] and final(res[i]) for i in done):
            limit = min(limit, time.time() - t0 + 20)      # a violation is established: the rest gets a little more time only
        for i in done:
            if res[i] is None:
                res[i] = dict(name=hs[i].name, status='error', notes=['worker died or out of time'], unknown=['no result'], violations=[],
                              obligations=0, discharged=0, paths=0, functions=[], queries=0, solver_s=0, bounds=hs[i].bounds, wall_s=0,
                              sliced=[], via={}, witness=None, infeasible=0, verdicts={})
        if time.time() - t0 > limit:
            for i in queue:
                res[i] = dict(name=hs[i].name, status='error', notes=['not started: out of time'], unknown=['no result'], violations=[],
                              obligations=0, discharged=0, paths=0, functions=[], queries=0, solver_s=0, bounds=hs[i].bounds, wall_s=0,
                              sliced=[], via={}, witness=None, infeasible=0, verdicts={})
            queue = []
    return [res[i] for i in range(len(hs))]
