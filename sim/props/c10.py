"""C10: collocation schemes built, evaluated, cancelled and failed side by side, judged by the defining formulas."""
import _thread
import casadi as cs
import numpy as np
from casadi_extras.collocation import CollocationScheme
from .. import core
from .. import models as Mo
from .. import refcol as C
from ..core import Violation, clean, gen_sched, how_long, how_many, judging, run_clients

LEVEL = 'fault_enumeration'
RULE = ('A run draws shared models (semi-explicit, implicit, or with a callback that records and fails as planned) and 1-6 clients '
        'that build schemes with drawn grids, orders, methods and options and evaluate their own and each other\'s equations, '
        'states, quadratures and trajectories; builds are cancelled or refused and model evaluations fail in between; every '
        'number is compared with the defining formulas in numpy; non-trivial: at least two schemes or model functions judged.')
RUNS = {'quick': 12000, 'thorough': 120000}
MIN_RUNS = 2000
STUB = ['model callbacks (record, yield and fail as planned)']
ARGS = ('x', 'z', 'u', 'p', 't', 'tdp')
PARTS = ('collocation', 'continuity', 'param')


def gen_spec(rng, models):
    k = rng.randrange(len(models))
    n = rng.choice([1, 1, 2, 2, 3, 4]) if rng.random() > 0.03 else rng.randint(5, 12)
    s = {'m': k, 't': Mo.gen_grid(rng, n), 'np': rng.random() < 0.6, 'o': rng.choice([1, 2, 2, 3, 4]) if rng.random() > 0.04 else rng.randint(5, 7), 'me': rng.choice(['legendre', 'radau']),
         'par': rng.choice(['serial', 'serial', 'unroll', 'inline']), 'ex': rng.random() < 0.5 and not models[k]['cb'],
         'rep': rng.random() < 0.35, 'ts': rng.randrange(100), 'tf': rng.choice(['DM', 'np', 'MX'])}
    return s


def gen_read(rng, models):
    r = rng.random()
    q = {'s': rng.randrange(1 << 16), 'seed': rng.randrange(1 << 30)}
    if r < 0.35:
        q.update(k='eval')
    elif r < 0.55:
        what = ['K', 'x', 'Z', 'U', 'u', 'p', 'eq', 'q']
        rng.shuffle(what)
        q.update(k='combine', what=what[:rng.randint(1, 8)])
    elif r < 0.65:
        q.update(k='evalX')
    elif r < 0.75:
        q.update(k='traj', at=[rng.random() for _ in range(3)])
    elif r < 0.82:
        q.update(k='shape')
    else:
        m = rng.randrange(len(models))
        ins = ['x', 'z', 'u', 'p', 't', 'tdp']
        if models[m]['kind'] == 'semi':
            outs = ['ode', 'alg', 'quad']
            if rng.random() < 0.5:
                ins.append('xdot')
                outs = ['dae', 'quad']
        else:
            ins.append('xdot')
            outs = ['dae', 'quad']
        rng.shuffle(ins)
        rng.shuffle(outs)
        q.update(k='fun', m=m, ins=ins, outs=outs[:rng.randint(1, len(outs))])
    return q


def gen(rng):
    models = []
    for _ in range(rng.choice([1, 1, 2])):
        m = Mo.gen_model(rng)
        m['cb'] = rng.random() < 0.35
        models.append(m)
    first = [gen_spec(rng, models) for _ in range(rng.choice([0, 1, 1]))]
    nc = how_many(rng, [1, 2, 2, 3])
    faulty = rng.random() < 0.5
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for _ in range(how_long(rng, 1, 5 if nc == 1 else 3 if nc < 4 else 2, nc, 5)):
            q = {'k': 'build', 'spec': gen_spec(rng, models), 'seed': rng.randrange(1 << 30)} if rng.random() < 0.5 else gen_read(rng, models)
            r = rng.random()
            if faulty and r < 0.2:
                b = dict(q, bad=rng.choice(['method', 'tdp', 'order', 'model', 'expand'] if q['k'] == 'build' else ['name', 'size']))
                ops.append(b)
            elif faulty and r < 0.45:
                faults.append({'client': c, 'op': len(ops), 'n': int(2 ** rng.uniform(0, 11)) if rng.random() < 0.7 else rng.randint(1, 80),
                               'kind': rng.choice(['interrupt', 'memory'])})
                ops.append(q)
            elif faulty and r < 0.75 and any(m['cb'] for m in models):
                ops.append(dict(q, fail=rng.randint(1, rng.choice([1, 4, 12]))))
            if not faulty or rng.random() < 0.8:
                ops.append(dict(q))
            if q['k'] == 'fun' and rng.random() < 0.5:
                q = dict(q, ins=rng.sample(q['ins'], len(q['ins'])), outs=rng.sample(q['outs'], len(q['outs'])))
                ops.append(q)
        clients.append(ops)
    return {'cfg': {'models': models, 'first': first}, 'scenario': 'faulty' if faulty else 'plain', 'clients': clients,
            'sched': gen_sched(rng, nc), 'gran': 'opcode' if rng.random() < 0.1 else 'line', 'faults': faults}


# -- models ----------------------------------------------------------------------------

class ModelFailed(Exception):
    pass


class Call(cs.Callback):
    """Right-hand side evaluated in Python: records its arguments, yields, fails as planned."""

    def __init__(self, mod):
        cs.Callback.__init__(self)
        self.mod = mod
        self.now = {}       # per thread: [calls, fail at]
        self.construct('rhs', {})

    def get_n_in(self):
        return 6

    def get_n_out(self):
        return 1

    def get_sparsity_in(self, i):
        return cs.Sparsity.dense(self.mod.n[ARGS[i]], 1)

    def get_sparsity_out(self, i):
        return cs.Sparsity.dense(self.mod.m['nx'], 1)

    def eval(self, a):
        v = {k: np.array(x.full()) for k, x in zip(ARGS, a)}
        st = self.now.get(_thread.get_ident())
        if st is not None:
            st[0].append(v)
            if core.CURRENT is not None:
                core.CURRENT.external_point('model')
            if len(st[0]) == st[1]:
                st[2] = True
                raise ModelFailed('model evaluation failed as planned')
        return [cs.DM(self.mod.parts(v, np.sin, lambda c, x: c @ x)[0])]


class World(object):
    def __init__(self, cfg):
        self.mods, self.daes, self.calls = [], [], []
        for m in cfg['models']:
            mod = Mo.Model(m)
            cb = Call(mod) if m['cb'] else None
            self.mods.append(mod)
            self.calls.append(cb)
            self.daes.append(mod.dae((lambda v, cb=cb: cb(*[v[k] for k in ARGS])) if cb else None))
        self.pool = []      # (spec, scheme)
        for s in cfg['first']:
            self.pool.append((s, self.build(s)))

    def tdp(self, s, ti):
        n = self.mods[s['m']].m['ntdp']
        return [float(np.sin(ti * (j + 1) + s['ts'])) for j in range(n)]

    def build(self, s, bad=None):
        n = self.mods[s['m']].m['ntdp']
        conv = {'DM': cs.DM, 'np': np.array, 'MX': lambda v: cs.MX(cs.DM(v))}[s['tf']]
        f = (lambda ti: conv(self.tdp(s, ti))) if n else None
        dae, order, me, ex = self.daes[s['m']], s['o'], s['me'], s['ex']
        if bad == 'method':
            me = 'gauss'
        elif bad == 'order':
            order = 'two'
        elif bad == 'tdp':
            f = None if n else (lambda ti: cs.DM([1.0, ti]))
        elif bad == 'model':
            dae = None
        elif bad == 'expand':
            ex = True
        t = np.array(s['t']) if s['np'] else list(s['t'])
        if s['rep']:
            return CollocationScheme(dae, t, order, method=me, parallelization=s['par'], tdp_fun=f, expand=ex, repeat_param=True)
        return CollocationScheme(dae, t, order, me, s['par'], f, ex)

    def ref(self, s, w):
        mod = self.mods[s['m']]
        tc = Mo.ref_points(s['t'], s['o'], s['me'])
        tdp = np.array([self.tdp(s, ti) for ti in tc]).T.reshape(mod.m['ntdp'], len(tc))
        r = Mo.ref_scheme(mod, s['t'], s['o'], s['me'], tdp, w, s['rep'])
        r['tdp'] = tdp
        return r

    def draw(self, s, seed):
        return Mo.draw_point(self.mods[s['m']], len(s['t']) - 1, s['o'], s['rep'], seed)


def values(sch, outs, w):
    """the expressions outs of a scheme at the numbers w"""
    f = cs.Function('f', [sch.x, sch.K, sch.Z, sch.u, sch.p], outs)
    r = f.call([cs.DM(w[k]) for k in ('x', 'K', 'Z', 'u', 'p')])
    return [np.array(v.full()) for v in r]


WANT = ('X', 'quad', 'q', 'Q', 'U')


def evaluate(sch, w):
    names = list(PARTS) + list(WANT)
    v = values(sch, [sch.eq[k] for k in PARTS] + [getattr(sch, k) for k in WANT] + [cs.MX(sch.eq.cat)], w)
    d = dict(zip(names, v))
    d['eqcat'] = v[-1]
    d['tc'] = np.array(sch.tc, float)
    return d


def op_run(W, op):
    k, bad = op['k'], op.get('bad')
    if k == 'build':
        sch = W.build(op['spec'], bad)
        if bad == 'expand' and not W.mods[op['spec']['m']].m['cb']:
            bad = None
        if bad is None:
            W.pool.append((op['spec'], sch))
        return {'spec': op['spec'], 'v': evaluate(sch, W.draw(op['spec'], op['seed']))}
    if k == 'fun':
        mod, dae = W.mods[op['m']], W.daes[op['m']]
        if 'xdot' in op['ins']:
            dae = dae.makeImplicit()
        f = dae.createFunction('f', op['ins'] + (['w'] if bad else []), op['outs'])
        w = fun_args(mod, op['seed'])
        return {'v': [np.array(v.full()) for v in f.call([cs.DM(w[a]) for a in op['ins']])], 'io': [f.name_in(), f.name_out()],
                'n': [dae.nx, dae.nz, dae.nu, dae.np, dae.ntdp, dae.nq]}
    if not W.pool:
        return None
    spec, sch = W.pool[op['s'] % len(W.pool)]
    w = W.draw(spec, op['seed'])
    out = {'spec': spec}
    if k == 'eval':
        out['v'] = evaluate(sch, w)
    elif k == 'combine':
        s = sch.combine(op['what'] + (['t'] if bad else []))
        out['keys'] = list(s.keys())
        v = values(sch, [cs.MX(s[n]) if n != 'eq' else cs.vec(cs.MX(s[n])) for n in op['what']] + [cs.MX(s.cat)], w)
        out['v'] = v
    elif k == 'evalX':
        x = w['x'][:, :-1] if bad else w['x']
        out['v'] = np.array(sch.evalX(cs.DM(x), cs.DM(w['K'])).full())
    elif k == 'traj':
        K = w['K'][:, :-1] if bad else w['K']
        p = sch.piecewisePolyX(cs.DM(w['x']), cs.DM(K))
        out['v'] = [np.array(p(ti, side)) for ti, side in traj_times(spec, op['at'])]
    else:
        out['v'] = [np.array(sch.t, float), sch.numTotalCollocationPoints, np.array(sch.tc, float), np.array(cs.DM(sch.butcher.A)),
                    np.array(cs.DM(sch.butcher.b)), np.array(cs.DM(sch.butcher.c)),
                    [sch.x.shape, sch.K.shape, sch.xdot.shape, sch.Z.shape, sch.u.shape, sch.p.shape]]
    return out


def fun_args(mod, seed):
    g = np.random.Generator(np.random.PCG64(seed))
    return {k: g.uniform(-2, 2, (n, 1)) for k, n in list(mod.n.items()) + [('xdot', mod.m['nx'])]}


def traj_times(spec, at):
    t = spec['t']
    c = C.points(spec['o'], spec['me'])
    out = []
    for n in range(len(t) - 1):
        h = t[n + 1] - t[n]
        out += [(t[n], 'right'), (t[n + 1], 'left')] + [(t[n] + h * a, 'right') for a in at] + [(t[n] + h * float(c[0]), 'left')]
    return out


# -- judging ---------------------------------------------------------------------------

def near(got, want):
    got, want = np.asarray(got), np.asarray(want)
    if got.size == 0 and want.size == 0:
        return True
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= 1e-8 * (1 + np.abs(want).max())))


def vec(a):
    return np.asarray(a).reshape(-1, 1, order='F')


def judge_eval(W, spec, seed, v):
    w = W.draw(spec, seed)
    r = W.ref(spec, w)
    for k in list(PARTS) + list(WANT):
        if not near(v[k], r[k]):
            return k, v[k], r[k]
    want = np.vstack([vec(r[k]) for k in PARTS])
    if not near(v['eqcat'], want):
        return 'eq', v['eqcat'], want
    if not near(v['tc'], r['tc']):
        return 'tc', v['tc'], r['tc']


def judge(W, op, out):
    k = op['k']
    if k == 'fun':
        mod = W.mods[op['m']]
        w = fun_args(mod, op['seed'])
        m = mod.m
        if out['n'] != [m['nx'], m['nz'], m['nu'], m['np'], m['ntdp'], m['nq']]:
            return 'sizes', out['n'], m
        if out['io'] != [op['ins'], op['outs']]:
            return 'names', out['io'], [op['ins'], op['outs']]
        rhs, alg, quad = mod.parts(w, np.sin, lambda c, x: c @ x)
        dae = mod.residual(w['xdot'], w)[0]
        ref = {'ode': rhs, 'alg': alg if m['nz'] else np.zeros((0, 1)), 'quad': quad if m['nq'] else np.zeros((0, 1)), 'dae': dae}
        for n, v in zip(op['outs'], out['v']):
            if not near(v, ref[n]):
                return n, v, ref[n]
        return None
    spec = out['spec']
    if k in ('build', 'eval'):
        return judge_eval(W, spec, op['seed'], out['v'])
    w = W.draw(spec, op['seed'])
    r = W.ref(spec, w)
    if k == 'evalX':
        return None if near(out['v'], r['X']) else ('X', out['v'], r['X'])
    if k == 'combine':
        if out['keys'] != op['what']:
            return 'keys', out['keys'], op['what']
        src = dict(w, U=r['U'], q=r['q'], eq=np.vstack([vec(r[n]) for n in PARTS]))
        for n, v in zip(op['what'], out['v']):
            if not near(v, src[n]):
                return n, v, src[n]
        want = np.vstack([vec(src[n]) for n in op['what']])
        return None if near(out['v'][-1], want) else ('cat', out['v'][-1], want)
    N, M = len(spec['t']) - 1, spec['o']
    c = C.points(M, spec['me'])
    if k == 'traj':
        tau = np.append(0, c)
        for (ti, side), v in zip(traj_times(spec, op['at']), out['v']):
            t = np.array(spec['t'])
            n = int(np.sum(t <= ti)) - 1 if side == 'right' else int(np.sum(t < ti)) - 1
            n = min(max(n, 0), N - 1)
            nodes = np.hstack([w['x'][:, n:n + 1], r['X'][:, n * M:(n + 1) * M]])
            want = nodes @ C.lagrange(tau, [(ti - t[n]) / (t[n + 1] - t[n])]).T
            if not near(v, want):
                return 'trajectory at %r from the %s' % (ti, side), v, want
        return None
    m = W.mods[spec['m']].m
    t, n, tc, A, b, cc, shapes = out['v']
    want = [(m['nx'], N + 1), (m['nx'], N * M), (m['nx'], N * M), (m['nz'], N * M), (m['nu'], N), (m['np'], N * M if spec['rep'] else 1)]
    if n != N * M or not np.array_equal(t, spec['t']) or [tuple(x) for x in shapes] != want:
        return 'shape', [t, n, shapes], [spec['t'], N * M, want]
    if not near(tc, r['tc']):
        return 'tc', tc, r['tc']
    if not near(A, C.lagrange_int(c, c)) or not near(b.ravel(), C.lagrange_int(c, [1.0])[0]) or not near(cc.ravel(), c):
        return 'tableau', [A, b, cc], c


def judge_calls(W, op, spec, calls):
    """the model was asked at the collocation points and nowhere else"""
    w = W.draw(spec, op['seed'])
    r = W.ref(spec, w)
    M = spec['o']
    want = []
    for j in range(len(r['tc'])):
        want.append({'x': r['X'][:, j:j + 1], 'z': w['Z'][:, j:j + 1], 'u': w['u'][:, j // M:j // M + 1], 'p': w['p'][:, j:j + 1] if spec['rep'] else w['p'],
                     't': r['tc'][j:j + 1][None, :], 'tdp': r['tdp'][:, j:j + 1]})
    seen = set()
    for c in calls:
        hit = [j for j, v in enumerate(want) if all(near(c[a], v[a]) for a in ARGS)]
        if not hit:
            return 'asked at %s' % {a: c[a].ravel().tolist() for a in ARGS}
        seen.update(hit)
    if len(seen) != len(want):
        return 'never asked at the times %s' % [float(r['tc'][j]) for j in range(len(want)) if j not in seen]


def text(x):
    return np.array2string(np.asarray(x), threshold=8).replace('\n', '') if isinstance(x, np.ndarray) else str(x)


def run(plan, ctr):
    W = World(plan['cfg'])
    asked = {}

    def execute(op, ci, k):
        me = _thread.get_ident()
        st = [[], op.get('fail', 0), False]
        for cb in W.calls:
            if cb:
                cb.now[me] = st
        try:
            return op_run(W, op)
        finally:
            asked[ci, k] = st
            for cb in W.calls:
                if cb:
                    cb.now.pop(me, None)

    sched, hist = run_clients(plan, execute)
    judged = 0
    for h in hist:
        op = plan['clients'][h['client']][h['op']]
        who = dict(client=h['client'], op=h['op'])
        calls, _, failed = asked[h['client'], h['op']]
        bad = op.get('bad')
        if bad == 'expand' and not W.mods[op['spec']['m']].m['cb']:
            bad = None
        if h['out'] == 'exc':
            if not bad and not h['fired'] and not failed:
                raise Violation('error', '%s raised %s: %s' % (op['k'], h['root'], h['emsg']), **who)
            ctr['model failed' if failed else 'refused' if bad else 'cancelled'] += 1
            continue
        if h['val'] is None:
            continue
        if failed:
            raise Violation('lost', '%s returned normally although the model failed' % op['k'], **who)
        if bad:
            if op['k'] in ('build', 'fun', 'combine'):
                raise Violation('accepted', '%s with wrong argument (%s) returned normally' % (op['k'], bad), **who)
            continue
        with judging(**who):
            e = judge(W, op, h['val'])
        if e:
            raise Violation('value', '%s: %s is %s, expected %s' % (op['k'], e[0], text(e[1]), text(e[2])), **who)
        judged += 1
        ctr['answer ' + op['k']] += 1
        if op['k'] in ('build', 'eval') and W.mods[h['val']['spec']['m']].m['cb']:
            e = judge_calls(W, op, h['val']['spec'], calls)
            if e:
                raise Violation('calls', 'model of client %d operation %d %s' % (h['client'], h['op'], e), **who)
            ctr['model calls judged'] += len(calls)
    for i, (spec, sch) in enumerate(W.pool):
        try:
            e = judge_eval(W, spec, i, evaluate(sch, W.draw(spec, i)))
        except Exception as x:
            raise Violation('error', 'afterwards scheme %d raised %s: %s' % (i, type(x).__name__, clean(x)))
        if e:
            raise Violation('changed', 'afterwards scheme %d: %s is %s, expected %s' % (i, e[0], text(e[1]), text(e[2])))
        judged += 1
    return sched, hist, judged >= 2
