"""C08: shared integrators called by many clients, with failing, non-converging and cancelled calls in between."""
import casadi as cs
import numpy as np
from casadi_extras.collocation import CollocationIntegrator, collocationIntegrator
from .. import models as Mo
from .. import refcol as C
from ..core import Violation, clean, gen_sched, how_long, how_many, judging, run_clients
from .c10 import near, text

LEVEL = 'fault_enumeration'
RULE = ('A run draws shared integrators (models with inputs, parameters, algebraic states, quadratures, time-dependent parameters; '
        'uneven grids) and 1-6 clients that build further ones and call them by name, by position, symbolically or for a '
        'trajectory, repeat earlier arguments, edit what they were given, ask for the impossible, pass wrong sizes or are '
        'cancelled; each answer is put into the collocation equations evaluated in numpy and equal arguments must give equal bits; '
        'non-trivial: at least three answers judged.')
RUNS = {'quick': 10000, 'thorough': 100000}
MIN_RUNS = 2000


def gen_spec(rng):
    m = dict(Mo.gen_model(rng), fx=0.4)
    if rng.random() < 0.3:      # an algebraic equation z^2 = a + p which has no solution for some p
        m.update(nz=1, np=max(m['np'], 1), root=True)
    return {'m': m, 't': Mo.gen_grid(rng, rng.choice([1, 1, 2, 2, 3, 4]) if rng.random() > 0.03 else rng.randint(5, 12)), 'np': rng.random() < 0.6, 'o': rng.choice([1, 2, 2, 3]) if rng.random() > 0.05 else rng.randint(4, 6),
            'me': rng.choice(['legendre', 'radau']), 'ts': rng.randrange(100)}


def gen(rng):
    specs = [gen_spec(rng) for _ in range(rng.choice([1, 1, 2]))]
    nc = how_many(rng, [1, 2, 2, 3])
    faulty = rng.random() < 0.5
    pts = [rng.randrange(1 << 30) for _ in range(rng.choice([2, 3]) if rng.random() > 0.06 else 20)]      # few argument sets, so that they recur
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for _ in range(how_long(rng, 2, 8 if nc == 1 else 5 if nc < 4 else 3, nc, 5)):
            if rng.random() < 0.06:
                q = {'k': 'build', 'spec': gen_spec(rng), 'pt': rng.choice(pts)}
                if rng.random() < 0.4 and len(specs) > 1:
                    q['spec'] = dict(q['spec'], m=specs[0]['m'])
            else:
                q = {'k': rng.choice(['traj', 'traj', 'traj', 'kw', 'kw', 'pos', 'sym']), 's': rng.randrange(1 << 16), 'pt': rng.choice(pts)}
            if rng.random() < 0.15:
                q['edit'] = True
            r = rng.random()
            if faulty and r < 0.3:
                bad = rng.choice(['size', 'nan', 'noroot', 'name', 'inf', 'noroot', 'type'])
                ops.append(dict(q, bad='size' if bad == 'type' and q['k'] == 'sym' else bad))
            elif faulty and r < 0.5:
                faults.append({'client': c, 'op': len(ops), 'n': int(2 ** rng.uniform(0, 8)) if rng.random() < 0.6 else rng.randint(1, 40),
                               'kind': rng.choice(['interrupt', 'memory'])})
                ops.append(q)
            if not faulty or rng.random() < 0.8:
                ops.append(dict(q))
        clients.append(ops)
    return {'cfg': {'specs': specs}, 'scenario': 'faulty' if faulty else 'plain', 'clients': clients, 'sched': gen_sched(rng, nc),
            'gran': 'opcode' if rng.random() < 0.15 else 'line', 'faults': faults}


class RootModel(Mo.Model):
    """algebraic equation with a square: solvable only for large enough p"""

    def parts(self, v, sin, dot):
        rhs, alg, quad = super().parts(v, sin, dot)
        if self.m.get('root'):
            alg = v['z'] ** 2 - 1.5 - v['p'][0] - 0.05 * sin(v['x'][0])
        return rhs, alg, quad


class Shared(object):
    """an integrator with its specification and the answers it gave"""

    def __init__(self, spec, w):
        self.spec = spec
        self.mod = RootModel(spec['m'])
        m = spec['m']
        tdp = (lambda ti: cs.DM(self.tdp(ti))) if m['ntdp'] else None
        t = np.array(spec['t']) if spec['np'] else list(spec['t'])
        make = CollocationIntegrator if spec['ts'] % 2 else collocationIntegrator
        self.x = make('I', self.mod.dae(), t, spec['o'], spec['me'], tdp)

    def tdp(self, ti):
        return [float(np.sin(ti * (j + 1) + self.spec['ts'])) for j in range(self.mod.m['ntdp'])]

    def args(self, pt, bad=None):
        m = self.mod.m
        N = len(self.spec['t']) - 1
        g = np.random.Generator(np.random.PCG64([pt, m['seed']]))
        a = {'x0': g.uniform(-1, 1, m['nx']), 'z0': g.uniform(0.5, 1.5, m['nz']), 'u': g.uniform(-1, 1, (m['nu'], N)), 'p': g.uniform(0, 1, m['np'])}
        if bad == 'nan':
            a['x0'][0] = np.nan
        elif bad == 'inf':
            a['x0'][-1] = np.inf
        elif bad == 'noroot' and m['np']:
            a['p'][0] = -9.0
        elif bad == 'size':
            a['x0'] = np.append(np.append(a['x0'], 1.0), 2.0)
        return a


def call(sh, op):
    """one call; returns {output: numpy array} plus trajectory values"""
    a = sh.args(op['pt'], op.get('bad'))
    A = {'x0': cs.DM(a['x0']) if op['pt'] % 2 else a['x0'], 'z0': cs.DM(a['z0']), 'u': cs.DM(a['u']), 'p': cs.DM(a['p'])}
    if op.get('bad') == 'name':
        A['q0'] = cs.DM(1)
    elif op.get('bad') == 'type':
        A['x0'] = 'origin'
    k = op['k']
    if k in ('traj', 'build'):
        out = sh.x.integrate(**A)
    elif k == 'kw':
        out = sh.x(**A)
    elif k == 'pos':
        r = sh.x(*[A[n] for n in ('x0', 'z0', 'u', 'p')] + ([1] if op.get('bad') == 'name' else []))
        out = dict(zip(sh.x.name_out(), r))
    else:
        x0, u = cs.MX.sym('x0', sh.mod.m['nx']), cs.MX.sym('u', a['u'].shape[0], a['u'].shape[1])
        r = sh.x(**dict(A, x0=x0, u=u))
        names = sh.x.name_out()
        f = cs.Function('f', [x0, u], [r[n] for n in names])
        out = dict(zip(names, f.call([cs.DM(a['x0']), cs.DM(a['u'])])))
    v = {n: np.array(cs.DM(out[n]).full()) for n in ('xf', 'qf', 'X', 'Z', 'Q', 'x', 'K', 'tc')}
    tr = out.get('x_traj')
    if tr is not None:
        v['traj'] = [np.array(tr(ti, side)) for ti, side in traj_times(sh.spec)]
    if op.get('edit'):
        for n in ('x', 'K', 'X', 'Z', 'Q', 'xf', 'qf'):
            if out[n].numel():
                out[n][0] = 99.0
    return v, (None if op.get('edit') else out)


def traj_times(spec):
    t = spec['t']
    c = C.points(spec['o'], spec['me'])
    out = []
    for n in range(len(t) - 1):
        h = t[n + 1] - t[n]
        out += [(t[n], 'right'), (t[n + 1], 'left'), (t[n] + 0.37 * h, 'right'), (t[n] + h * float(c[0]), 'left')]
    return out


def judge(sh, op, v):
    a = sh.args(op['pt'])
    m, spec = sh.mod.m, sh.spec
    N, M = len(spec['t']) - 1, spec['o']
    tc = Mo.ref_points(spec['t'], M, spec['me'])
    shapes = {'xf': (m['nx'], N), 'qf': (m['nq'], 1), 'X': (m['nx'], N * M), 'Z': (m['nz'], N * M), 'Q': (m['nq'], N * M), 'x': (m['nx'], N + 1), 'K': (m['nx'], N * M)}
    for k, s in shapes.items():
        if v[k].shape != s and (v[k].size or s[0]):
            return 'shape of %s is %s, expected %s' % (k, v[k].shape, s)
    if not near(v['tc'].ravel(), tc):
        return 'tc is %s, expected %s' % (text(v['tc']), text(tc))
    tdp = np.array([sh.tdp(ti) for ti in tc]).T.reshape(m['ntdp'], len(tc))
    w = {'x': v['x'], 'K': v['K'], 'Z': v['Z'].reshape(m['nz'], N * M), 'u': a['u'], 'p': a['p'].reshape(-1, 1)}
    r = Mo.ref_scheme(sh.mod, spec['t'], M, spec['me'], tdp, w)
    scale = 1 + max([np.abs(q).max() for q in w.values() if q.size])
    start = np.abs(v['x'][:, 0] - a['x0']).max()
    if not start <= 1e-7 * scale:
        return 'the initial state is %s, asked for %s' % (text(v['x'][:, 0]), text(a['x0']))
    for k in ('collocation', 'continuity'):
        if r[k].size and not np.abs(r[k]).max() <= 1e-6 * scale * scale:
            return 'residual of the %s equations is %s' % (k, text(r[k]))
    if not near(v['xf'], v['x'][:, 1:]):
        return 'xf is %s, node states are %s' % (text(v['xf']), text(v['x']))
    for k, ref in (('X', r['X']), ('Q', r['Q']), ('qf', r['q'][:, -1:])):
        if not near(v[k], ref):
            return '%s is %s, expected %s' % (k, text(v[k]), text(ref))
    if 'traj' in v:
        tau = np.append(0, C.points(M, spec['me']))
        t = np.array(spec['t'])
        for (ti, side), got in zip(traj_times(spec), v['traj']):
            n = int(np.sum(t <= ti)) - 1 if side == 'right' else int(np.sum(t < ti)) - 1
            n = min(max(n, 0), N - 1)
            nodes = np.hstack([v['x'][:, n:n + 1], v['X'][:, n * M:(n + 1) * M]])
            want = nodes @ C.lagrange(tau, [(ti - t[n]) / (t[n + 1] - t[n])]).T
            if not near(got, want):
                return 'trajectory at %r from the %s is %s, expected %s' % (ti, side, text(got), text(want))


def bits(v):
    return [(k, v[k].tobytes()) for k in sorted(v) if k not in ('traj', 'tc')]


def may_diverge(sh, op):
    """may Newton's method fail for these equations?  Always if they are nonlinear, else if nearly singular"""
    m, spec = sh.mod.m, sh.spec
    if m['nl'] or m.get('root'):
        return True
    a = sh.args(op['pt'])
    return Mo.near_singular(sh.mod, spec['t'], spec['o'], spec['me'], a['u'], a['p'])


def run(plan, ctr):
    pool = [Shared(s, None) for s in plan['cfg']['specs']]
    outs, used = [], {}

    def execute(op, ci, k):
        if op['k'] == 'build':
            sh = Shared(op['spec'], None)
            pool.append(sh)
        else:
            sh = pool[op['s'] % len(pool)]
        used[ci, k] = sh
        v, out = call(sh, op)
        outs.append((sh, op, v, out))
        return [sh, v]

    sched, hist = run_clients(plan, execute)
    judged, seen = 0, {}
    for h in hist:
        op = plan['clients'][h['client']][h['op']]
        who = dict(client=h['client'], op=h['op'])
        bad = op.get('bad')
        if h['out'] == 'exc':
            sh = used.get((h['client'], h['op']))
            diverged = sh is not None and 'rootfinder.cpp' in h['emsg']
            if not bad and not h['fired'] and not (diverged and may_diverge(sh, op)):
                raise Violation('error', '%s raised %s: %s' % (op['k'], h['root'], h['emsg']), **who)
            if diverged and not bad and seen.setdefault((pool.index(sh), op['pt'], op['k'] == 'sym'), None) is not None:
                raise Violation('drift', '%s of integrator %d failed for arguments that had a solution before' % (op['k'], pool.index(sh)), **who)
            ctr['not converged' if diverged else 'refused' if bad else 'cancelled'] += 1
            continue
        sh, v = h['val']
        h['val'] = [pool.index(sh), v]
        if bad in ('size', 'type', 'name'):
            raise Violation('accepted', '%s with wrong argument (%s) returned normally' % (op['k'], bad), **who)
        if bad and not np.all(np.isfinite(v['x'])) or bad in ('nan', 'inf'):
            ctr['no number'] += 1
            continue
        if bad == 'noroot':
            if sh.mod.m.get('root'):
                raise Violation('value', '%s returned a solution of equations that have none: %s' % (op['k'], text(v['Z'])), **who)
            continue
        with judging(**who):
            e = judge(sh, op, v)
        if e:
            raise Violation('value', '%s: %s' % (op['k'], e), **who)
        judged += 1
        ctr['answer ' + op['k']] += 1
        key = (pool.index(sh), op['pt'], op['k'] == 'sym')
        b = bits(v)
        if seen.setdefault(key, b) != b:
            raise Violation('drift', '%s of integrator %d gave other numbers than the same arguments before' % (op['k'], key[0]), **who)
    # answers handed out stay as they were
    for sh, op, v, out in outs:
        if out is None:
            continue
        for n in ('xf', 'qf', 'X', 'Z', 'Q', 'x', 'K'):
            if np.array(cs.DM(out[n]).full()).tobytes() != v[n].tobytes():
                raise Violation('changed', 'output %s of an earlier call (%s) changed to %s' % (n, op['k'], text(np.array(out[n].full()))))
        tr = out.get('x_traj')
        if tr is not None and any(np.array(tr(ti, side)).tobytes() != q.tobytes() for (ti, side), q in zip(traj_times(sh.spec), v['traj'])):
            raise Violation('changed', 'the trajectory of an earlier call (%s) changed' % op['k'])
    # afterwards earlier arguments give the earlier answers
    for (i, pt, sym), b in sorted(seen.items(), key=lambda kv: kv[0]):
        if b is None:
            continue
        op = {'k': 'sym' if sym else 'traj', 'pt': pt}
        try:
            v, _ = call(pool[i], op)
        except Exception as e:
            raise Violation('error', 'afterwards integrator %d raised %s: %s' % (i, type(e).__name__, clean(e)))
        if bits(v) != b:
            raise Violation('drift', 'afterwards integrator %d gave other numbers than the same arguments before' % i)
    return sched, hist, judged >= 3
