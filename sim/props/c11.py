"""C11: functions of time sampled while schemes and integrators are built; the function is part of the simulation."""
import _thread
import builtins
import casadi as cs
import numpy as np
from casadi_extras.collocation import CollocationIntegrator, CollocationScheme, collocationIntegrator
from .. import core
from .. import models as Mo
from ..core import Violation, clean, gen_sched, how_long, how_many, judging, run_clients
from .c10 import PARTS, evaluate, near, text

LEVEL = 'fault_enumeration'
RULE = ('A run draws shared models with time-dependent parameters and shared functions (pure, counting their calls, yielding to '
        'other clients, building another scheme inside a call) that raise or return something unusable at a planned call; 1-6 '
        'clients build schemes and integrators with them and build again; the calls each build made are compared with the '
        'collocation times, the values with the equations; non-trivial: at least one build with a function judged.')
RUNS = {'quick': 16000, 'thorough': 160000}
MIN_RUNS = 2000
STUB = ['the function of time supplied by the caller']
RAISES = ['ValueError', 'StopIteration', 'IndexError', 'KeyError', 'TypeError', 'AttributeError', 'AssertionError', 'MemoryError', 'KeyboardInterrupt', 'RuntimeError',
          'ZeroDivisionError', 'NotImplementedError', 'OSError']
WRONG = ['none', 'text', 'long', 'short', 'row', 'nest', 'empty']


def gen_build(rng, nm, nf):
    q = {'k': rng.choice(['scheme', 'scheme', 'scheme', 'int']), 'm': rng.randrange(nm), 'f': rng.randrange(nf), 't': Mo.gen_grid(rng, rng.choice([1, 2, 2, 3, 4]) if rng.random() > 0.03 else rng.randint(5, 12)),
         'np': rng.random() < 0.6, 'o': rng.choice([1, 2, 2, 3, 4]) if rng.random() > 0.04 else rng.randint(5, 7), 'me': rng.choice(['legendre', 'radau']), 'seed': rng.randrange(1 << 30)}
    if q['k'] == 'scheme':
        q.update(par=rng.choice(['serial', 'unroll', 'inline']), ex=rng.random() < 0.5, rep=rng.random() < 0.3)
    else:
        q['t'] = q['t'][:3]
        q['o'] = min(q['o'], 3)
    return q


def gen(rng):
    models = [Mo.gen_model(rng, tdp=rng.choice([1, 1, 2, 3])) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.1:
        models[0]['ntdp'] = 0
    funs = [{'seed': rng.randrange(100), 'state': rng.random() < 0.5, 'as': rng.choice(['DM', 'np', 'col', 'list', 'MX', 'num']), 'yield': rng.random() < 0.8}
            for _ in range(rng.choice([1, 1, 2]))]
    nc = how_many(rng, [1, 2, 2, 3])
    faulty = rng.random() < 0.55
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for _ in range(how_long(rng, 1, 4 if nc == 1 else 2, nc, 5)):
            q = gen_build(rng, len(models), len(funs))
            r = rng.random()
            n = (len(q['t']) - 1) * q['o']
            if rng.random() < 0.15:
                q['inner'] = {'at': rng.randint(1, n), 'b': gen_build(rng, len(models), len(funs))}
            if faulty and r < 0.55:
                b = dict(q)
                if rng.random() < 0.5:
                    b['fail'] = {'at': rng.randint(1, n), 'exc': rng.choice(RAISES)}
                else:
                    b['fail'] = {'at': rng.randint(1, n), 'wrong': rng.choice(WRONG)}
                    if rng.random() < 0.3:
                        b['fail']['to'] = n
                ops.append(b)
            elif faulty and r < 0.85:
                faults.append({'client': c, 'op': len(ops), 'n': int(2 ** rng.uniform(0, 11)) if rng.random() < 0.5 else rng.randint(1, 110),
                               'kind': rng.choice(['interrupt', 'memory'])})
                ops.append(q)
            if not faulty or rng.random() < 0.8:
                ops.append(dict(q))
        clients.append(ops)
    return {'cfg': {'models': models, 'funs': funs}, 'scenario': 'faulty' if faulty else 'plain', 'clients': clients,
            'sched': gen_sched(rng, nc), 'gran': 'opcode' if rng.random() < 0.1 else 'line', 'faults': faults}


BUILTIN = {n: getattr(builtins, n) for n in RAISES}


class Build(object):
    """One construction in progress: the calls it made."""

    def __init__(self, op, who, nested):
        self.op, self.who, self.nested = op, who, nested
        self.times, self.vals = [], []
        self.failed = self.inner_failed = False
        self.obj = None


class World(object):
    def __init__(self, cfg):
        self.mods = [Mo.Model(m) for m in cfg['models']]
        self.daes = [m.dae() for m in self.mods]
        self.funs = cfg['funs']
        self.count = [0] * len(self.funs)
        self.stack = {}         # thread -> builds in progress, innermost last
        self.builds = []
        self.fobj = [self.make(i) for i in range(len(self.funs))]

    def make(self, i):
        d = self.funs[i]

        def fun(t):
            b = (self.stack.get(_thread.get_ident()) or [None])[-1]
            if b is None:
                raise Violation('calls', 'the function of time is called outside of a construction')
            m = self.mods[b.op['m']].m
            n = m['ntdp']
            b.times.append(float(t))
            k = len(b.times)
            if d['yield'] and core.CURRENT is not None:
                core.CURRENT.external_point('fun')
            inner = b.op.get('inner')
            if inner and inner['at'] == k:
                self.build(inner['b'], b.who)
            self.count[i] += 1
            v = [float(np.sin(t * (j + 1) + d['seed'])) + (0.01 * self.count[i] if d['state'] else 0) for j in range(n)]
            b.vals.append(v)
            f = b.op.get('fail')
            if f and f['at'] <= k <= f.get('to', f['at']):
                b.failed = True
                if 'exc' in f:
                    raise BUILTIN[f['exc']]('planned failure of the function of time')
                return wrong(f['wrong'], v)
            if d['as'] == 'num' and n == 1:
                return v[0]
            if d['as'] == 'np':
                return np.array(v)
            if d['as'] == 'col':
                return np.array(v).reshape(-1, 1)
            if d['as'] == 'list' and n:
                return v
            if d['as'] == 'MX':
                return cs.MX(cs.DM(v))
            return cs.DM(v)
        return fun

    def build(self, op, who):
        s = self.stack.setdefault(_thread.get_ident(), [])
        b = Build(op, who, bool(s))
        self.builds.append(b)
        s.append(b)
        try:
            dae, f = self.daes[op['m']], self.fobj[op['f']]
            t = np.array(op['t']) if op['np'] else list(op['t'])
            if op['k'] == 'scheme':
                b.obj = CollocationScheme(dae, t, op['o'], op['me'], op['par'], tdp_fun=f, expand=op['ex'], repeat_param=op['rep'])
            elif op['seed'] % 2:
                b.obj = CollocationIntegrator('I', dae, t, op['o'], op['me'], f)
            else:
                b.obj = collocationIntegrator('I', dae, t, op['o'], op['me'], f)
        finally:
            s.pop()
            if s and b.obj is None:
                s[-1].inner_failed = True
        return b


def wrong(kind, v):
    n = len(v)
    if kind == 'none':
        return None
    if kind == 'text':
        return 'later'
    if kind == 'short' and n > 1:
        return cs.DM(v[:-1])
    if kind == 'row' and n > 1:
        return cs.DM(v).T
    if kind == 'empty' and n > 0:
        return []
    if kind == 'nest':
        return [None] * max(n, 1)
    return np.array(v + [0.5])


def judge_calls(b, complete):
    tc = Mo.ref_points(b.op['t'], b.op['o'], b.op['me'])
    got = np.array(b.times)
    if len(got) > len(tc):
        return 'called %d times for %d collocation points' % (len(got), len(tc))
    want = tc[:len(got)]
    if not np.all(np.abs(got - want) <= 1e-12 * (1 + np.abs(want))):
        return 'called at %s, expected %s' % (text(got), text(want))
    if complete and len(got) != len(tc):
        return 'called %d times for %d collocation points' % (len(got), len(tc))


def judge_object(W, b, x, seed):
    """the built object uses the values the function returned"""
    op = b.op
    mod = W.mods[op['m']]
    m = mod.m
    N, M = len(op['t']) - 1, op['o']
    tdp = np.array(b.vals).T.reshape(m['ntdp'], N * M)
    if op['k'] == 'scheme':
        w = Mo.draw_point(mod, N, M, op['rep'], seed)
        v = evaluate(x, w)
        r = Mo.ref_scheme(mod, op['t'], M, op['me'], tdp, w, op['rep'])
        for k in PARTS + ('X', 'quad', 'q', 'Q'):
            if not near(v[k], r[k]):
                return '%s is %s, expected %s' % (k, text(v[k]), text(r[k]))
        return None
    w = Mo.draw_point(mod, N, M, False, seed)
    w['x'] *= 0.2
    args = dict(x0=cs.DM(w['x'][:, 0]), z0=cs.DM.zeros(m['nz']), u=cs.DM(w['u']), p=cs.DM(w['p']))
    try:
        out = {k: np.array(v.full()) for k, v in x(**args).items()}
    except RuntimeError as e:
        if 'rootfinder process failed' in str(e) and (m['nl'] or Mo.near_singular(mod, op['t'], M, op['me'], w['u'], w['p'])):
            return None       # Newton's method does not converge from here
        return 'cannot be evaluated: %s' % clean(e)
    if not np.all(np.isfinite(out['x'])):
        return None       # the equations have no solution here
    r = Mo.ref_scheme(mod, op['t'], M, op['me'], tdp, dict(w, x=out['x'], K=out['K'], Z=out['Z']))
    scale = 1 + max(np.abs(out['K']).max(), np.abs(out['x']).max())
    for k in ('collocation', 'continuity'):
        if r[k].size and np.abs(r[k]).max() > 1e-6 * scale:
            return '%s of the solution is %s' % (k, text(r[k]))
    for k in ('X', 'Q'):
        if not near(out[k], r[k]):
            return '%s is %s, expected %s' % (k, text(out[k]), text(r[k]))


def run(plan, ctr):
    W = World(plan['cfg'])

    def execute(op, ci, k):
        W.stack[_thread.get_ident()] = []
        b = W.build(op, (ci, k))
        return [b.times, b.vals]

    sched, hist = run_clients(plan, execute)
    fired = {(h['client'], h['op']): h['fired'] for h in hist}
    judged = 0
    for b in W.builds:
        who = dict(client=b.who[0], op=b.who[1])
        ok = b.obj is not None
        if not ok and not b.failed and not b.inner_failed and not fired[b.who]:
            h = [h for h in hist if (h['client'], h['op']) == b.who][0]
            raise Violation('error', 'building a %s raised %s: %s' % (b.op['k'], h.get('root'), h.get('emsg')), **who)
        if ok and (b.failed or b.inner_failed):
            raise Violation('accepted', 'a %s was built although the function of time failed: %s' % (b.op['k'], b.op.get('fail')), **who)
        e = judge_calls(b, ok)
        if e:
            raise Violation('calls', 'building a %s: function %s' % (b.op['k'], e), **who)
        if not ok:
            ctr['function failed' if b.failed else 'build cancelled'] += 1
            continue
        with judging(**who):
            e = judge_object(W, b, b.obj, b.op['seed'])
        if e:
            raise Violation('value', 'the built %s: %s' % (b.op['k'], e), **who)
        if len(b.times) != (len(b.op['t']) - 1) * b.op['o']:
            raise Violation('calls', 'the function was called again when the %s was used' % b.op['k'], **who)
        judged += 1
        ctr['built ' + b.op['k']] += 1
        if b.nested:
            ctr['built inside a call'] += 1
    return sched, hist, judged >= 1
