"""C09: shared piecewise polynomials, interpolators and trajectories queried by many clients."""
import casadi as cs
import numpy as np
import casadi_extras as ce
from casadi_extras.collocation import PiecewisePoly, PolynomialBasis, Pdq, collocationPoints, barycentricInterpolator
from .. import refcol as C
from ..core import Violation, clean, gen_sched, how_long, how_many, judging, run_clients

LEVEL = 'fault_enumeration'
RULE = ('A run draws shared piecewise polynomials (discontinuous, uneven grids, sharing a basis), interpolators of each '
        'continuity and system trajectories, and 1-6 clients that evaluate, sample, differentiate and extract polynomials at '
        'drawn points (boundaries, next to boundaries, nodes, outside), edit what they were given, ask wrongly or are '
        'cancelled; every answer is compared with a reference evaluation of the node data; non-trivial: at least three '
        'queries answered.')
RUNS = {'quick': 24000, 'thorough': 240000}
MIN_RUNS = 4000


def gen_grid(rng, n):
    t = [rng.choice([0.0, 0.0, round(rng.uniform(-3, 3), 3)])]
    for _ in range(n):
        t.append(t[-1] + rng.choice([1.0, 0.5, 0.1, round(rng.uniform(0.05, 2.5), 4), rng.uniform(0.02, 3)]))
    return t


def gen_obj(rng):
    n = rng.choice([1, 2, 2, 3, 4]) if rng.random() > 0.05 else rng.randint(5, 16)
    t = gen_grid(rng, n)
    rows = rng.choice([1, 2, 3])
    r = rng.random()
    if r < 0.5:
        b = {'o': rng.randint(0, 5), 'm': rng.choice(['chebyshev', 'legendre', 'radau'])}
        if b['o'] == 0:
            b['m'] = 'chebyshev'
        o = {'k': 'pp', 't': t, 'np': rng.random() < 0.7, 'basis': b, 'rows': rows, 'seed': rng.randrange(1 << 30)}
        if rng.random() < 0.2:
            o['flat'] = [[rng.randrange(4), rng.randrange(6)] for _ in range(rng.randint(1, 3))]
        elif rng.random() < 0.15:
            o['like'] = [[rng.randrange(4), rng.randrange(3), rng.choice([None, rng.randrange(6)])] for _ in range(rng.randint(1, 4))]
        return o
    o = {'t': t, 'np': rng.random() < 0.7, 'o': rng.randint(1, 5), 'm': rng.choice(['chebyshev', 'radau']), 'rows': rows, 'seed': rng.randrange(1 << 30)}
    if r < 0.8:
        o.update(k='pdq', c=rng.choice(['both', 'left', 'right']))
    else:
        o.update(k='traj')
    return o


def nodes(o):
    """nodes of one interval on [0, 1]"""
    if o['k'] == 'pp':
        if o['basis']['o'] == 0:
            return np.array([0.0])
        p = C.points(o['basis']['o'], o['basis']['m'])
        return p if o['basis']['m'] == 'chebyshev' else np.append(0, p)
    p = C.points(o['o'], o['m'])
    return p if o['m'] == 'chebyshev' else np.append(0, p)


def gen_times(rng, o):
    t = o['t']
    tau = nodes(o)
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5]) if rng.random() > 0.04 else rng.randint(6, 60)):
        i = rng.randrange(len(t) - 1)
        h = t[i + 1] - t[i]
        r = rng.random()
        if r < 0.3:
            out.append(rng.choice(t))
        elif r < 0.42:
            b = rng.choice(t)
            out.append(float(np.nextafter(b, rng.choice([-1e9, 1e9]))))
        elif r < 0.55:
            out.append(float(t[i] + h * rng.choice(list(tau))))
        elif r < 0.9:
            out.append(t[i] + h * rng.random())
        else:
            out.append(rng.choice([t[0] - rng.uniform(0, 0.4) * (t[1] - t[0]), t[-1] + rng.uniform(0, 0.4) * (t[-1] - t[-2])]))
    return {'t': out if len(out) > 1 else out[0], 'as': rng.choice(['np', 'list'])}


def gen_query(rng, o, k):
    q = {'s': k}
    r = rng.random()
    if o['k'] == 'pp':
        if r < 0.45:
            q.update(k='call', at=gen_times(rng, o), c=rng.choice(['left', 'right', None]))
        elif r < 0.6:
            h = min(b - a for a, b in zip(o['t'], o['t'][1:]))
            q.update(k='disc', step=rng.choice([h, h / 2, h / 3, h / rng.randint(1, 12), rng.uniform(h / 9, 2 * h), 0.1, 10.0]))
            if (o['t'][-1] - o['t'][0]) / q['step'] > 200:
                q['step'] = h / 3
        elif r < 0.75:
            q.update(k='deriv', at=gen_times(rng, o), c=rng.choice(['left', 'right', None]), n=rng.choice([1, 1, 1, 2]))
        elif r < 0.94:
            i = rng.randrange(len(o['t']) - 1)
            if rng.random() < 0.4:
                q.update(k='bary', n=i, at=gen_times(rng, o))
            elif rng.random() < 0.4:
                q.update(k='im', at=[rng.choice(list(map(float, nodes(o)))) if rng.random() < 0.2 else rng.uniform(-0.2, 1.2) for _ in range(rng.randint(1, 4))])
            else:
                q.update(k='poly', n=i, s=k, at=[rng.random() * (o['t'][i + 1] - o['t'][i]) for _ in range(3)])
        else:
            q.update(k='shape')
    elif o['k'] == 'pdq':
        if r < 0.7:
            q.update(k='call', at=gen_times(rng, o))
        elif r < 0.8:
            q.update(k='pder')
        elif r < 0.86:
            q.update(k='pint')
        elif r < 0.92:
            q.update(k='pexp')
        else:
            q.update(k='pnew', c=rng.choice(['both', 'left', 'right']), at=gen_times(rng, o))
    else:
        q.update(k=rng.choice(['state', 'algState', 'input', 'input', 'time']), at=gen_times(rng, o))
    return q


def gen(rng):
    objs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        o = gen_obj(rng)
        if objs and objs[-1]['k'] == 'pp' == o['k'] and rng.random() < 0.6:
            o['basis'] = objs[-1]['basis']
            o['share'] = True
        objs.append(o)
    nc = how_many(rng, [1, 2, 2, 3])
    faulty = rng.random() < 0.45
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for _ in range(how_long(rng, 2, 10 if nc == 1 else 6, nc)):
            k = rng.randrange(len(objs))
            q = gen_query(rng, objs[k], k)
            if rng.random() < 0.15:
                q['iso'] = True
            if faulty and rng.random() < 0.25:
                q['bad'] = rng.choice(['arg', 'nan', 'type'])
                ops.append(q)
                q = dict(q)
                del q['bad']
            elif faulty and rng.random() < 0.5:
                faults.append({'client': c, 'op': len(ops), 'n': int(2 ** rng.uniform(0, 9)) if rng.random() < 0.5 else rng.randint(1, 60),
                               'kind': rng.choice(['interrupt', 'memory'])})
                ops.append(q)
                if rng.random() < 0.3:
                    continue
                q = dict(q)
            ops.append(q)
        clients.append(ops)
    return {'cfg': {'objs': objs}, 'scenario': 'faulty' if faulty else 'plain', 'clients': clients,
            'sched': gen_sched(rng, nc), 'gran': 'opcode' if rng.random() < 0.15 else 'line', 'faults': faults}


# -- the objects and their node data ---------------------------------------------------

class Thing(object):
    def __init__(self, d, prev):
        self.d = d
        t = np.array(d['t']) if d['np'] else list(d['t'])
        self.t = np.array(d['t'])
        self.tau = nodes(d)
        g = np.random.Generator(np.random.PCG64(d['seed']))
        N, n = len(self.t) - 1, len(self.tau)
        if d['k'] == 'pp':
            self.coef = [g.uniform(-10, 10, (d['rows'], n)) for _ in range(N)]
            for i, r in d.get('flat', []):      # pieces of a lower degree than the basis allows
                self.coef[i % N][r % d['rows'], :] = 0.0 if r < 3 else 4.0
            for i, r, u in d.get('like', []):   # equal rows and pieces, single basis polynomials
                c = self.coef[i % N]
                c[r % d['rows'], :] = (c[0] if r else self.coef[0][0]) if u is None else np.eye(n)[u % n]
            b = d['basis']
            self.basis = prev.basis if d.get('share') and prev is not None else PolynomialBasis(collocationPoints(b['o'], b['m']))
            self.x = PiecewisePoly(t, [c.copy() for c in self.coef], self.basis)
            return
        M = n - 1
        self.pdq = Pdq(t, d['o'], d['m'])
        self.cols = M * N
        self.full = g.uniform(-10, 10, (d['rows'], M * N + 1))      # values at every collocation point
        self.part = g.uniform(-10, 10, (d['rows'], M * N))
        self.part2 = g.uniform(-10, 10, (d['rows'], M * N))
        if d['k'] == 'pdq':
            self.x = self.pdq.interpolator(d['c'])
            self.data = (self.full if d['c'] == 'both' else self.part).copy()
        else:
            self.x = ce.SystemTrajectory(self.full.copy(), self.part.copy(), self.part2.copy(), self.pdq)

    # reference values: node positions and values of interval i
    def piece(self, i, what):
        M = len(self.tau) - 1
        if self.d['k'] == 'pp':
            return self.tau, self.coef[i]
        if what == 'both':
            return self.tau, self.full[:, i * M:(i + 1) * M + 1]
        data = self.part2 if what == 'input' else self.part
        if what == 'left':
            return self.tau[1:], data[:, i * M:(i + 1) * M]
        return self.tau[:-1], data[:, i * M:(i + 1) * M]

    def value(self, times, side, what='', der=0):
        """(values, scale) at the given times, by the reference"""
        vs, sc = [], []
        N = len(self.t) - 1
        for ti in np.atleast_1d(times):
            i = int(np.sum(self.t <= ti)) - 1 if side == 'right' else int(np.sum(self.t < ti)) - 1
            i = min(max(i, 0), N - 1)
            v, s = self.at(i, ti - self.t[i], what, der)
            vs.append(v)
            sc.append(s)
        return np.hstack(vs), np.hstack(sc)

    def at(self, i, off, what='', der=0):
        h = self.t[i + 1] - self.t[i]
        tau, c = self.piece(i, what)
        s = np.atleast_1d(off) / h
        if der == 2:
            D = C.lagrange_der(tau, tau) / h
            L = C.lagrange_der(tau, s) @ D / h
        else:
            L = C.lagrange_der(tau, s) / h if der else C.lagrange(tau, s)
        return c @ L.T, np.abs(c) @ np.abs(L.T)


def times(at, bad):
    if bad == 'nan':
        return float('nan')
    if bad == 'type':
        return 'soon'
    t = at['t']
    if isinstance(t, list) and at['as'] == 'np':
        return np.array(t)
    return t


def inside(th, i, at):
    """the given times, folded into interval i"""
    a, h = th.t[i], th.t[i + 1] - th.t[i]
    t = np.atleast_1d(at['t'])
    return dict(at, t=[float(a + (x - a) % h) for x in t])


def ask(th, q):
    k, x, bad = q['k'], th.x, q.get('bad')
    if k == 'call':
        t = times(q['at'], bad)
        if th.d['k'] == 'pp':
            if bad == 'arg':
                return x(t, 'middle')
            return x(t) if q['c'] is None else x(t, q['c'])
        return x(th.data[:, :-1] if bad == 'arg' else th.data, t)
    if k == 'deriv':
        d = x.derivative()
        if q['n'] == 2:
            d = d.derivative()
        t = times(q['at'], bad)
        return d(t, 'middle') if bad == 'arg' else d(t) if q['c'] is None else d(t, q['c'])
    if k == 'disc':
        return list(x.discretize('wide' if bad else q['step']))
    if k == 'poly':
        ps = x.poly('first' if bad == 'type' else len(th.t) + 3 if bad else q['n'])
        v = np.array([[float(p(s)) for s in q['at']] for p in ps])
        if q.get('iso'):
            for p in ps:
                p.coef[...] = 77.0
        return v
    if k == 'im':
        return th.basis.interpolationMatrix('soon' if bad else q['at'])
    if k == 'bary':
        i = q['n']
        f = barycentricInterpolator(th.t[i] + (th.t[i + 1] - th.t[i]) * th.tau)
        return f(th.coef[i].copy(), times(inside(th, i, q['at']), bad))
    if k == 'shape':
        return [np.array(x.intervals, float), x.numIntervals]
    if k == 'pder':
        return np.array(cs.evalf(th.pdq.derivative(cs.DM(th.full[:, :-1] if bad else th.full))).full())
    if k == 'pint':
        return np.array(cs.evalf(th.pdq.integral(cs.MX(cs.DM(th.part[:, :-1] if bad else th.part)))).full())
    if k == 'pexp':
        u = cs.DM(th.full[:, :len(th.t) - 1 + (1 if bad else 0)])
        return np.array(th.pdq.expandInput(u).full())
    if k == 'pnew':
        f = th.pdq.interpolator('none' if bad == 'arg' else q['c'])
        return f((th.full if q['c'] == 'both' else th.part).copy(), times(q['at'], bad))
    if k == 'time':
        return np.array(x.time, float)
    return getattr(x, k)(times(q['at'], bad))


def execute_on(th, q):
    r = ask(th, q)
    if isinstance(r, list):
        out = [np.array(a) if isinstance(a, np.ndarray) else a for a in r]
    else:
        out = np.array(r)
    if q.get('iso') and q['k'] not in ('time', 'shape', 'im'):
        for a in r if isinstance(r, list) else [r]:
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = -55.0
    return out


def must_reject(q):
    """an argument the library promises to refuse"""
    return q.get('bad') == 'arg' and q['k'] in ('call', 'deriv', 'pnew', 'pexp')


def check(th, q, v):
    """None or what is wrong with the answer v"""
    k = q['k']
    if k in ('call', 'deriv', 'pnew', 'state', 'algState', 'input'):
        side, what, der = 'right', '', 0
        if th.d['k'] == 'pp':
            side = q['c'] or 'right'
            der = q['n'] if k == 'deriv' else 0
        else:
            what = q['c'] if k == 'pnew' else th.d['c'] if k == 'call' else {'state': 'both', 'algState': 'right', 'input': 'input'}[k]
            side = 'left' if what == 'left' else 'right'
        want, sc = th.value(q['at']['t'], side, what, der)
        if C.close(v, want, sc):
            return None
        if what == 'both' and np.shape(v) == np.shape(want):
            # continuous: either neighbour's formula, next to the boundary
            return None if np.all(np.abs(v - want) <= 1e-6 * (1 + sc)) else off(v, want)
        return off(v, want)
    if k == 'disc':
        return check_disc(th, q['step'], v)
    if k == 'poly':
        want, sc = th.at(q['n'], np.array(q['at']))
        return None if C.close(v, want, sc, 1e-6) else off(v, want)
    if k == 'im':
        want = C.lagrange(th.tau, np.array(q['at']))
        return None if C.close(v, want, 1 + np.abs(want)) else off(v, want)
    if k == 'bary':
        want, sc = th.at(q['n'], np.array(inside(th, q['n'], q['at'])['t']) - th.t[q['n']])
        return None if C.close(v, want, sc) else off(v, want)
    if k == 'shape':
        return None if v[1] == len(th.t) - 1 and np.array_equal(v[0], th.t) else off(v[0], th.t)
    if k == 'time':
        return None if np.array_equal(v, th.t) else off(v, th.t)
    M, N = len(th.tau) - 1, len(th.t) - 1
    h = np.diff(th.t)
    if k == 'pder':
        D = C.lagrange_der(th.tau, th.tau[:-1])
        want = np.hstack([th.full[:, i * M:(i + 1) * M + 1] @ D.T / h[i] for i in range(N)])
        return None if C.close(v, want, 100 / h.min()) else off(v, want)
    if k == 'pint':
        if v.shape != th.part.shape:
            return 'shape %s' % (v.shape,)
        y = np.hstack([np.zeros((v.shape[0], 1)), v])
        D = C.lagrange_der(th.tau, th.tau[:-1])
        back = np.hstack([y[:, i * M:(i + 1) * M + 1] @ D.T / h[i] for i in range(N)])
        return None if C.close(back, th.part, 100 / h.min()) else off(back, th.part)
    want = np.repeat(th.full[:, :N], M, axis=1)
    return None if np.array_equal(v, want) else off(v, want)


def off(v, want):
    return 'got %s, expected %s' % (np.array2string(np.asarray(v), threshold=8).replace('\n', ''), np.array2string(np.asarray(want), threshold=8).replace('\n', ''))


def check_disc(th, step, v):
    x, y = v
    if x.ndim != 1 or y.ndim != 2 or y.shape != (th.d['rows'], len(x)):
        return 'shapes %s %s' % (x.shape, y.shape)
    eps = 1e-9 * (1 + np.abs(th.t).max())
    k = 0
    for i in range(len(th.t) - 1):
        a, b = th.t[i], th.t[i + 1]
        first = k
        if k >= len(x) or abs(x[k] - a) > eps:
            return 'no sample at the beginning of interval %d' % i
        while k < len(x) and x[k] < b - eps:
            k += 1
        if k >= len(x) or abs(x[k] - b) > eps:
            return 'no sample at the end of interval %d' % i
        # several samples may lie within rounding of the end
        while i == len(th.t) - 2 and k + 1 < len(x) and abs(x[k + 1] - b) <= eps:
            k += 1
        if i < len(th.t) - 2:
            while k + 2 < len(x) and abs(x[k + 2] - b) <= eps:
                k += 1
        seg = x[first:k + 1]
        if np.any(np.diff(seg) < 0):
            return 'samples of interval %d not in order' % i
        if np.any(np.diff(seg) > step * (1 + 1e-9) + eps):
            return 'step %g larger than %g' % (np.diff(seg).max(), step)
        want, sc = th.at(i, seg - a)
        if not C.close(y[:, first:k + 1], want, sc, 1e-6):
            return 'interval %d: %s' % (i, off(y[:, first:k + 1], want))
        k += 1
    return None if k == len(x) else '%d samples beyond the last interval' % (len(x) - k)


def run(plan, ctr):
    things = []
    for d in plan['cfg']['objs']:
        things.append(Thing(d, things[-1] if things else None))
    sched, hist = run_clients(plan, lambda op, ci, k: execute_on(things[op['s']], op))
    answered = 0
    for h in hist:
        op = plan['clients'][h['client']][h['op']]
        who = dict(client=h['client'], op=h['op'])
        if h['out'] == 'exc':
            if not op.get('bad') and not h['fired']:
                raise Violation('error', '%s raised %s: %s' % (op['k'], h['root'], h['emsg']), **who)
            ctr['rejected' if op.get('bad') else 'cancelled'] += 1
            continue
        if op.get('bad'):
            if must_reject(op):
                raise Violation('accepted', '%s with a wrong argument returned normally' % op['k'], **who)
            continue
        with judging(**who):
            e = check(things[op['s']], op, h['val'])
        if e:
            raise Violation('value', '%s of object %d: %s' % ({k: v for k, v in op.items() if k != 's'}, op['s'], e), **who)
        answered += 1
        ctr['answer ' + op['k']] += 1
    # afterwards every object still answers
    for i, th in enumerate(things):
        t = list(th.t) + [(a + b) / 2 for a, b in zip(th.t, th.t[1:])]
        at = {'t': [float(a) for a in t], 'as': 'np'}
        qs = {'pp': [{'k': 'call', 'at': at, 'c': 'left'}, {'k': 'call', 'at': at, 'c': None}, {'k': 'deriv', 'at': at, 'c': None, 'n': 1},
                     {'k': 'poly', 'n': 0, 'at': [0.0, (th.t[1] - th.t[0]) / 3]}],
              'pdq': [{'k': 'call', 'at': at}, {'k': 'pder'}],
              'traj': [{'k': 'state', 'at': at}, {'k': 'algState', 'at': at}, {'k': 'input', 'at': at}, {'k': 'time'}]}[th.d['k']]
        for q in qs:
            try:
                v = execute_on(th, q)
            except Exception as e:
                raise Violation('error', 'afterwards %s of object %d raised %s: %s' % (q['k'], i, type(e).__name__, clean(e)))
            e = check(th, q, v)
            if e:
                raise Violation('changed', 'afterwards %s of object %d: %s' % (q['k'], i, e))
    return sched, hist, answered >= 3
