"""C12: every public operation, run undisturbed on a twin and disturbed, possibly again and again, on the objects judged."""
import casadi as cs
import numpy as np
import casadi_extras as ce
from casadi_extras import inequality as iq
from .. import build as B, genstruct as G, refstruct as R
from .. import models as Mo
from ..core import Violation, gen_sched, judging, run_clients
from . import c01, c05, c06, c07, c08, c09, c10

LEVEL = 'fault_enumeration'
RULE = ('A run draws a world of declarations and values, of inequalities, of trajectories or of models with schemes and integrators, '
        'and 1-2 clients with operations on it; every operation is run undisturbed on a twin world, then on the world itself, '
        'cancelled or failing at drawn instants (spread over the operation, or swept through it), then repeated undisturbed; '
        'results are compared with their types; non-trivial: a disturbance fired and the operation was repeated.')
RUNS = {'quick': 16000, 'thorough': 120000}
MIN_RUNS = 2500


# -- worlds: gen(rng) -> cfg and a source of operations; class with do(op) and wrong(op, result) ---------------

def exact(x, env=None):
    """a result with all its types, comparable"""
    if isinstance(x, (cs.DM, cs.SX, cs.MX)):
        t = type(x).__name__
        v = x
        if not isinstance(x, cs.DM):
            if env is not None:
                v = cs.Function('f', [env[0]], [x])(env[1])
            else:
                v = cs.evalf(x) if isinstance(x, cs.MX) else cs.DM(x)
        return [t, x.shape, x.nnz(), np.array(v.full()).tobytes()]
    if isinstance(x, np.ndarray):
        return ['array', str(x.dtype), x.shape, x.tobytes()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [exact(y, env) for y in x]
    if isinstance(x, dict):
        return [type(x).__name__] + [[k, exact(v, env)] for k, v in x.items()]
    if x is None or isinstance(x, (str, bool, int, float, np.generic)):
        return [type(x).__name__, repr(x)]
    if hasattr(x, 'cat') and hasattr(x, 'keys'):
        return [type(x).__name__, list(x.keys()), x.size, exact(x.cat, env)]
    return [type(x).__name__]


def ask(l, q, vec):
    """c05.ask with the results as they come"""
    w = q['w']
    st = l.struct
    if w == 'canon':
        return st.canonicalIndices(extraMode=q['m'])
    if w == 'labels':
        return st.labels(extraMode=q['m'])
    if w == 'one':
        return [st.getCanonicalIndex(q['c'], extraMode=q['m']), st.getLabel(q['c'], extraMode=q['m'])]
    if w == 'size':
        return [l.size, l.keys()]
    if w == 'f':
        return l.f[B.py_index(q['ix'])]
    if w == 'i':
        return l.i[B.py_index(q['ix'])]
    if w == 'use':
        idx = st.getCanonicalIndex(q['c'], extraMode=q['m'])
        v = l(cs.DM(vec))
        got = v[idx]
        v[idx] = -7
        return [got, v.cat, l.f[idx]]
    if w == 'read':
        return l(cs.DM(vec))[B.py_index(q['ix'])]
    if not hasattr(l, 'cat'):
        return ce.struct_SX(l, data=cs.SX(cs.DM(vec)))[B.py_index(q['ix'])]
    return l[B.py_index(q['ix'])]


def normal(l, q, r, vec):
    """the result of ask as c05.expect has it"""
    w = q['w']
    if w == 'use':
        return [float(r[0]), B.flat(r[1]).tolist(), c05.plain(r[2])]
    if w in ('i', 'read'):
        return B.num(r)
    if w == 'sym':
        return B.num(r, (l.cat, cs.DM(vec)) if hasattr(l, 'cat') else None)
    return c05.plain(r)


class Structs(object):
    @staticmethod
    def gen(rng):
        subs = []
        for _ in range(rng.choice([0, 1, 1])):
            s, _ = G.spec_for(rng, max_size=8, depth=rng.choice([0, 1]), max_items=3, top=False)
            subs.append({'spec': s, 'kind': rng.choice(['SX', 'MX', 'S'])})
        decls, roots = [], []
        while len(decls) < rng.choice([1, 1, 2]):
            s = G.gen_spec(rng, max_items=rng.choice([2, 3, 4]))
            c05.share(rng, s, subs)
            r = R.RStruct(s)
            if r.size <= 40:
                k = rng.choice(['DM', 'DM', 'SX', 'MX', 'VC' if c01.vc_ok(r) else 'MX'])
                decls.append({'spec': s, 'kind': rng.choice(['SX', 'MX', 'S']), 'value': k})
                roots.append(r)
        vals = G.Values()

        def op():
            j = rng.randrange(len(decls))
            r = roots[j]
            if subs and rng.random() < 0.08:
                return {'k': 'sub', 'd': rng.randrange(len(subs)), 'q': [{'w': 'size'}, {'w': 'canon', 'm': 1}]}
            k = rng.choice(['decl', 'decl', 'q', 'q', 'build', 'build', 'get', 'get', 'set', 'view', 'prefix', 'text', 'mk'])
            o = {'k': k, 'd': j}
            if k in ('decl', 'q'):
                o['q'] = [c05.gen_query(rng, r) for _ in range(rng.randint(1, 2))]
                if k == 'decl' and rng.random() < 0.1:
                    o['bad'] = True
            elif k == 'build':
                o = c07.gen_build(rng, decls[j]['spec'], r, vals, j)
            elif k in ('get', 'set'):
                if not r.size:
                    return {'k': 'text', 'd': j}
                if k == 'get':
                    o['ix'] = c01.gen_get(rng, r)
                else:
                    o['ix'], o['v'] = c01.gen_set(rng, r, vals, decls[j]['value'])
                    if rng.random() < 0.2:
                        o['v'] = G.spoil_payload(rng, o['v'])
            elif k == 'view':
                o['v'] = rng.choice(['repeated', 'squared', 'product', 'squared_repeated'])
                o['as_'] = rng.choice(['DM', 'DM', 'SX', 'MX', 'zero', 'float', 'misfit'])
                o['n'] = rng.randint(1, 3)
                if r.size:
                    o['ix'] = [['i', 0]] + G.gen_path(rng, r) if o['v'] == 'repeated' else None
            elif k == 'prefix':
                o['pre'] = c06.prefixes(rng, r)
            return o
        return {'subs': subs, 'decls': decls}, op

    def __init__(self, cfg):
        self.cfg = cfg
        self.pool = [B.mk_layout(s['spec'], s['kind']) for s in cfg['subs']]
        self.roots = [R.RStruct(d['spec']) for d in cfg['decls']]
        self.vecs = [[100.0 + i for i in range(r.size)] for r in self.roots]
        self.made = [B.mk_layout(d['spec'], d['kind'], self.pool) for d in cfg['decls']]
        self.vals = [self.value(j) for j in range(len(self.made))]

    def value(self, j):
        return B.mk_value(self.made[j], self.cfg['decls'][j]['value'], self.vecs[j], self.roots[j])

    def do(self, op):
        j, k = op['d'], op['k']
        if k == 'sub':
            return [ask(self.pool[j], q, []) for q in op['q']]
        d, l, root, vec = self.cfg['decls'][j], self.made[j], self.roots[j], self.vecs[j]
        if k == 'decl':
            if op.get('bad'):
                return ce.struct(B.mk_items(d['spec'], self.pool) + [object()])
            l = B.mk_layout(d['spec'], d['kind'], self.pool)
        if k in ('decl', 'q'):
            return [l, [ask(l, q, vec) for q in op['q']]]
        if k == 'build':
            if op['form'] == 'expr':
                return {'SX': ce.struct_SX, 'MXm': ce.struct_MX_mutable, 'MX': ce.struct_MX}[op['as_']](c07.exprs(op, root))
            if op['form'] == 'none':
                return l()
            data = c07.supply(op, l, root)
            return l.parseMatrix(data) if op['form'] == 'split' else l(data)
        if k == 'get':
            return self.vals[j][B.py_index(op['ix'])]
        if k == 'set':
            v = self.value(j)
            v[B.py_index(op['ix'])] = B.py_payload(op['v'], d['value'])
            return v
        if k == 'mk':
            return self.value(j)
        if k == 'text':
            v = self.vals[j]
            return [str(l), str(l.struct), str(v), str(l.prefix), [str(x) for x in l.struct.entries]]
        if k == 'prefix':
            p = l(cs.DM(vec) if vec else cs.DM(0, 1)).prefix[B.py_index(op['pre'])]
            return [type(p).__name__, str(p), p.cat if hasattr(p, 'cat') else None]
        n, kind = root.size, op['v']
        m = op['n']
        other = self.made[m % len(self.made)]
        rows, cols = n, {'repeated': n * m if m == 2 else m, 'squared': n, 'product': other.size, 'squared_repeated': n * m}[kind]
        if op['as_'] == 'zero':
            data = 0
        elif op['as_'] == 'float':
            data = 2.5
        else:
            if op['as_'] == 'misfit':
                rows += 1
            data = cs.DM(np.arange(rows * cols, dtype=float).reshape(rows, cols)) if rows * cols else cs.DM(rows, cols)
            data = {'SX': cs.SX, 'MX': cs.MX}.get(op['as_'], cs.DM)(data)
        v = l.product(other, data) if kind == 'product' else getattr(l, kind)(data)
        out = [type(v).__name__, v]
        if op.get('ix') and op['as_'] not in ('zero', 'float'):
            out.append(v[B.py_index(op['ix'])])
        return out

    def exact(self, op, r):
        if op['k'] in ('decl', 'q'):
            l, vec = r[0], self.vecs[op['d']]
            env = (l.cat, cs.DM(vec)) if hasattr(l, 'cat') else None
            return [type(l).__name__] + [exact(x, env if q['w'] == 'sym' else None) for q, x in zip(op['q'], r[1])]
        return exact(r)

    def final(self):
        out = []
        for l, v, vec in zip(self.made, self.vals, self.vecs):
            out += [exact(ask(l, q, vec)) for q in ({'w': 'size'}, {'w': 'canon', 'm': 2}, {'w': 'labels', 'm': 1})] + [exact(v), str(l), exact(l(4.0))]
        for l in self.pool:
            out += [exact(ask(l, q, [])) for q in ({'w': 'size'}, {'w': 'labels', 'm': 2})] + [exact(l(1.0))]
        return out

    def wrong(self, op, r):
        if op['k'] in ('decl', 'q') and not op.get('bad'):
            for q, x in zip(op['q'], r[1]):
                got = normal(r[0], q, x, self.vecs[op['d']])
                want = c05.expect(self.roots[op['d']], q, self.vecs[op['d']])
                if not c05.same(want, got):
                    return '%s: got %s, the declaration says %s' % (q, str(got)[:200], str(want)[:200])


class Bounds(object):
    """inequalities"""

    @staticmethod
    def gen(rng):
        parts = []
        for i in range(rng.randint(1, 4)):
            sh = rng.choice([[1, 1], [2, 1], [3, 1], [0, 1], [2, 2], [1, 3]])
            n = sh[0] * sh[1]
            b = {'sh': sh, 'var': rng.random() < 0.4, 'x': rng.randrange(3)}
            for w in ('lb', 'ub', 'nominal'):
                r = rng.random()
                if r < 0.3:
                    b[w] = None
                else:
                    b[w] = [round(rng.uniform(-9, 9), 3) if rng.random() < 0.9 else float('inf') for _ in range(n)]
                    b[w + '_as'] = rng.choice(['DM', 'np', 'list'] + (['num'] if n == 1 else []) + (['struct'] if sh[1] == 1 and n else []))
            parts.append(b)

        def op():
            k = rng.choice(['make', 'make', 'list', 'list', 'dict', 'dict', 'numel', 'default'])
            o = {'k': k}
            if k in ('make', 'numel'):
                o['i'] = rng.randrange(len(parts))
                if k == 'make' and rng.random() < 0.15:
                    o['bad'] = rng.choice(['lb', 'ub', 'nominal'])
            elif k in ('list', 'dict'):
                o['of'] = [rng.randrange(len(parts)) for _ in range(rng.randint(0 if k == 'list' else 1, 4))]
                if rng.random() < 0.4:
                    o['fresh'] = True
            return o
        return {'parts': parts}, op

    def __init__(self, cfg):
        self.parts = cfg['parts']
        self.sym = cs.MX.sym('s', 4)
        self.made = [self.make(i) for i in range(len(self.parts))]
        self.full = [self.make(i, full=True) for i in range(len(self.parts))]

    def arg(self, b, w, bad=None):
        v, sh, as_ = b[w], b['sh'], b.get(w + '_as')
        if bad == w:
            return cs.DM.ones(sh[0] + 1, sh[1] + 1)
        if v is None:
            return None
        a = np.array(v).reshape(sh, order='F')
        if as_ == 'struct':
            return ce.struct([ce.entry('a', shape=sh[0])])(cs.DM(a))
        if as_ == 'num':
            return v[0]
        if as_ == 'list' and sh[1] == 1 and v:
            return list(v)
        return a if as_ == 'np' and a.size else cs.DM(a) if a.size else cs.DM(*sh)

    def make(self, i, bad=None, full=False):
        b = self.parts[i]
        kw = {w: self.arg(b, w, bad) for w in ('lb', 'ub', 'nominal')}
        kw = {w: v for w, v in kw.items() if v is not None}
        if b['var'] or full and 'nominal' not in kw:
            n = kw.get('nominal', cs.DM.zeros(*b['sh']))
            kw['nominal'] = n if hasattr(n, 'shape') else cs.DM(n)
        if b['var']:
            return iq.BoundedVariable('v%d' % i, **kw)
        n = b['sh'][0] * b['sh'][1]
        e = cs.reshape(cs.repmat(self.sym[b['x']], n, 1) * cs.DM(range(1, n + 1)), *b['sh']) if n else cs.MX(*b['sh'])
        return iq.Inequality(e, **kw)

    def do(self, op):
        k = op['k']
        if k == 'default':
            return [iq.Inequality(), iq.BoundedVariable()]
        if k == 'numel':
            return self.made[op['i']].numel()
        if k == 'make':
            return self.make(op['i'], op.get('bad'))
        p = [self.make(i, full=True) if op.get('fresh') else self.full[i] for i in op['of']]
        if k == 'dict':
            return [iq.vertcat({'k%d' % n: x for n, x in enumerate(p)}), p]
        return [iq.vertcat(p), p]

    def exact(self, op, r):
        parts = self.full
        if op['k'] in ('list', 'dict'):
            r, parts = r[0], r[1]
        if isinstance(r, iq.Inequality):
            return self.show(r, parts)
        if isinstance(r, list):
            return [self.show(x, []) for x in r]
        return exact(r)

    def final(self):
        return [self.show(x, self.made) for x in self.made] + [self.show(x, self.full) for x in self.full] + [self.exact({'k': 'default'}, self.do({'k': 'default'}))]

    def show(self, r, parts):
        own = []
        for x in list(parts) + [r]:
            if isinstance(x, iq.BoundedVariable) and x.expr.is_symbolic() and not any(cs.is_equal(x.expr, y) for y in own):
                own.append(x.expr)
        e = r.expr
        text = []
        if isinstance(e, cs.DM):
            e = cs.MX(e)
        elif not isinstance(e, cs.MX):
            text = [type(e).__name__, list(e.keys()), e.size]
            e = cs.MX(e.cat)
        if isinstance(r, iq.BoundedVariable):
            text = [e.is_symbolic() and e.name()]
        ins = [self.sym] + own
        v = cs.Function('f', ins, [e]).call([cs.DM(range(1, 5))] + [cs.DM.ones(y.shape) * (n + 2) for n, y in enumerate(own)])[0]
        out = [type(r).__name__, type(r.expr).__name__, text, exact(v), exact(r.lb), exact(r.ub), exact(r.nominal), r.numel()]
        for b in (r.lb, r.ub, r.nominal):
            if hasattr(b, 'keys'):
                out.append([[n, exact(b[n])] for n in b.keys()])
        return out

    def wrong(self, op, r):
        """bounds and nominal values by the definition"""
        if op['k'] == 'make' and not op.get('bad'):
            b, sh = self.parts[op['i']], self.parts[op['i']]['sh']
            for w, dflt in (('lb', -np.inf), ('ub', np.inf), ('nominal', 0.0 if b['var'] else None)):
                got = getattr(r, w)
                if b[w] is None and dflt is None:
                    if got is not None:
                        return '%s is %s, none was given' % (w, got)
                    continue
                want = np.full(sh, dflt) if b[w] is None else np.array(b[w]).reshape(sh, order='F')
                got = B.num(cs.DM(got))
                if got.shape != want.shape or not np.array_equal(got, want):
                    return '%s is %s, expected %s' % (w, got.tolist(), want.tolist())
        elif op['k'] in ('list', 'dict') and op['of']:
            r, p = r
            for w in ('lb', 'ub', 'nominal'):
                want = np.concatenate([B.flat(cs.DM(getattr(x, w))) for x in p])
                if op['k'] == 'list' and len({x.expr.shape[1] for x in p if x.expr.numel()}) > 1:
                    return 'unequal widths accepted'
                if op['k'] == 'list':
                    a = [B.num(cs.DM(getattr(x, w))) for x in p if x.expr.numel()]
                    want = np.vstack(a).flatten(order='F') if a else np.zeros(0)
                got = B.flat(cs.DM(getattr(r, w)))
                if got.shape != want.shape or not np.array_equal(got, want):
                    return '%s is %s, expected %s' % (w, got.tolist(), want.tolist())


class Curves(object):
    """piecewise polynomials, interpolators, trajectories"""

    @staticmethod
    def gen(rng):
        objs = [c09.gen_obj(rng) for _ in range(rng.choice([1, 2]))]

        def op():
            k = rng.randrange(len(objs))
            if rng.random() < 0.15:
                return {'k': 'new', 's': k}
            q = c09.gen_query(rng, objs[k], k)
            if rng.random() < 0.1:
                q['bad'] = 'arg'
            return q
        return {'objs': objs}, op

    def __init__(self, cfg):
        self.cfg = cfg
        self.things = [c09.Thing(d, None) for d in cfg['objs']]

    def do(self, op):
        if op['k'] == 'new':
            th = c09.Thing(self.cfg['objs'][op['s']], None)
            t = np.array([th.t[0], (th.t[0] + th.t[1]) / 2, th.t[-1]])
            return th.x(t) if th.d['k'] == 'pp' else th.x(th.data, t) if th.d['k'] == 'pdq' else th.x.state(t)
        return c09.ask(self.things[op['s']], op)

    def exact(self, op, r):
        return exact(r)

    def final(self):
        out = []
        for th in self.things:
            t = np.array(list(th.t) + [(a + b) / 2 for a, b in zip(th.t, th.t[1:])])
            if th.d['k'] == 'pp':
                out += [th.x(t), th.x(t, 'left'), th.x.derivative()(t)]
            elif th.d['k'] == 'pdq':
                out += [th.x(th.data, t), th.pdq.derivative(cs.DM(th.full))]
            else:
                out += [th.x.state(t), th.x.algState(t), th.x.input(t)]
        return exact(out)

    def wrong(self, op, r):
        if op['k'] == 'new' or op.get('bad'):
            return None
        return c09.check(self.things[op['s']], op, r if isinstance(r, list) else np.array(r))


class Schemes(object):
    """models, collocation schemes, integrators"""

    @staticmethod
    def gen(rng):
        models = [dict(Mo.gen_model(rng), cb=False) for _ in range(rng.choice([1, 1, 2]))]
        first = [c10.gen_spec(rng, models)]
        ints = [c08.gen_spec(rng) for _ in range(rng.choice([0, 1]))]

        def op():
            r = rng.random()
            if ints and r < 0.35:
                return {'k': 'int', 'q': {'k': rng.choice(['traj', 'traj', 'kw', 'pos', 'sym']), 'pt': rng.randrange(1 << 30)}}
            if r < 0.45:
                return {'k': 'newint', 'spec': c08.gen_spec(rng), 'q': {'k': 'traj', 'pt': rng.randrange(1 << 30)}}
            if r < 0.75:
                return {'k': 'build', 'spec': c10.gen_spec(rng, models), 'seed': rng.randrange(1 << 30)}
            q = c10.gen_read(rng, models)
            if rng.random() < 0.1:
                q['bad'] = 'name'
            return q
        return {'models': models, 'first': first, 'ints': ints}, op

    def __init__(self, cfg):
        self.w = c10.World(cfg)
        self.ints = [c08.Shared(s, None) for s in cfg['ints']]

    def do(self, op):
        k, W = op['k'], self.w
        if k == 'int':
            return self.call(self.ints[0], op['q'])
        if k == 'newint':
            return self.call(c08.Shared(op['spec'], None), op['q'])
        if k == 'build':
            return W.build(op['spec'])
        if k == 'fun':
            dae = W.daes[op['m']]
            if 'xdot' in op['ins']:
                dae = dae.makeImplicit()
            return [dae.createFunction('f', op['ins'] + (['w'] if op.get('bad') else []), op['outs']), dae]
        spec, sch = W.pool[0]
        w = W.draw(spec, op['seed'])
        if k == 'eval':
            return [sch.eq[n] for n in c10.PARTS] + [getattr(sch, n) for n in c10.WANT] + [sch.eq.cat, sch.tc]
        if k == 'combine':
            s = sch.combine(op['what'] + (['t'] if op.get('bad') else []))
            return [s, [s[n] for n in op['what']], s.cat]
        if k == 'evalX':
            return sch.evalX(cs.DM(w['x']), cs.DM(w['K']))
        if k == 'traj':
            p = sch.piecewisePolyX(cs.DM(w['x']), cs.DM(w['K']))
            return [p(ti, side) for ti, side in c10.traj_times(spec, op['at'])]
        return [sch.t, sch.numTotalCollocationPoints, sch.tc, sch.butcher.A, sch.butcher.b, sch.butcher.c,
                [x.shape for x in (sch.x, sch.K, sch.xdot, sch.Z, sch.u, sch.p)]]

    def call(self, sh, q):
        """an integrator called, the results as they come"""
        a = {n: cs.DM(v) for n, v in sh.args(q['pt']).items()}
        if q['k'] == 'traj':
            out = sh.x.integrate(**a)
            return [sh, out, [out['x_traj'](ti, side) for ti, side in c08.traj_times(sh.spec)]]
        if q['k'] == 'kw':
            return [sh, sh.x(**a)]
        if q['k'] == 'pos':
            return [sh, dict(zip(sh.x.name_out(), sh.x(*[a[n] for n in ('x0', 'z0', 'u', 'p')])))]
        x0 = cs.MX.sym('x0', a['x0'].shape)
        return [sh, sh.x(**dict(a, x0=x0)), x0]

    def numbers(self, op, r):
        """what was returned, as numbers, in the form c08 and c10 judge"""
        k, W = op['k'], self.w
        if k in ('int', 'newint'):
            sh, q = r[0], op['q']
            out = {n: v for n, v in r[1].items() if n != 'x_traj'}
            if q['k'] == 'sym':
                names = sorted(out)
                f = cs.Function('f', [r[2]], [out[n] for n in names])
                out = dict(zip(names, f.call([cs.DM(sh.args(q['pt'])['x0'])])))
            v = {n: np.array(cs.DM(x).full()) for n, x in out.items()}
            if q['k'] == 'traj':
                v['traj'] = [np.array(x) for x in r[2]]
            return v
        if k == 'build':
            return {'spec': op['spec'], 'v': c10.evaluate(r, W.draw(op['spec'], op['seed']))}
        if k == 'fun':
            f, dae = r
            w = c10.fun_args(W.mods[op['m']], op['seed'])
            return {'v': [np.array(v.full()) for v in f.call([cs.DM(w[a]) for a in op['ins']])], 'io': [f.name_in(), f.name_out()],
                    'n': [dae.nx, dae.nz, dae.nu, dae.np, dae.ntdp, dae.nq]}
        spec, sch = W.pool[0]
        w = W.draw(spec, op['seed'])
        out = {'spec': spec}
        if k == 'eval':
            v = c10.values(sch, [cs.MX(x) for x in r[:-1]], w)
            out['v'] = dict(zip(list(c10.PARTS) + list(c10.WANT) + ['eqcat'], v), tc=np.array(r[-1], float))
        elif k == 'combine':
            out['keys'] = list(r[0].keys())
            out['v'] = c10.values(sch, [cs.MX(x) if n != 'eq' else cs.vec(cs.MX(x)) for n, x in zip(op['what'], r[1])] + [cs.MX(r[2])], w)
        elif k == 'evalX':
            out['v'] = np.array(r.full())
        elif k == 'traj':
            out['v'] = [np.array(x) for x in r]
        else:
            out['v'] = [np.array(r[0], float), r[1], np.array(r[2], float)] + [np.array(cs.DM(x)) for x in r[3:6]] + [r[6]]
        return out

    def types(self, x):
        if isinstance(x, (list, tuple)):
            return [type(x).__name__] + [self.types(y) for y in x]
        if isinstance(x, dict):
            return [[k, self.types(v)] for k, v in x.items()]
        return [type(x).__name__, getattr(x, 'shape', None)]

    def exact(self, op, r):
        return [self.types(r), exact({k: v for k, v in self.numbers(op, r).items() if k != 'spec'})]

    def final(self):
        out = [c10.evaluate(sch, self.w.draw(spec, 1)) for spec, sch in self.w.pool]
        for sh in self.ints:
            try:
                out.append(c08.call(sh, {'k': 'kw', 'pt': 1})[0])
            except RuntimeError as e:
                out.append(type(e).__name__)
        return exact(out)

    def wrong(self, op, r):
        if op.get('bad') or op['k'] == 'newint':
            return None
        v = self.numbers(op, r)
        if op['k'] == 'int':
            return c08.judge(self.ints[0], op['q'], v)
        e = c10.judge(self.w, op, v)
        return e and '%s is %s, expected %s' % (e[0], c10.text(e[1]), c10.text(e[2]))


WORLDS = {'structs': Structs, 'bounds': Bounds, 'curves': Curves, 'schemes': Schemes}


def gen(rng):
    w = rng.choice(['structs', 'structs', 'structs', 'bounds', 'bounds', 'curves', 'schemes'])
    cfg, draw = WORLDS[w].gen(rng)
    nc = rng.choice([1, 1, 1, 2])
    fine = rng.random() < 0.15
    after = rng.random() < 0.25         # the twin after the world, so that it warms nothing up
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for _ in range(rng.randint(1, 3 if w == 'schemes' else 4)):
            op = draw()
            r = rng.random()
            tries = 0 if r < 0.15 else 1 if r < 0.5 else rng.randint(2, 4) if r < 0.85 or fine else rng.randint(5, 12)
            base = rng.random()
            by = rng.choice(['time', 'place', 'place'])
            kind = rng.choice(['interrupt', 'memory', None])
            for i in range(tries):
                f = {'client': c, 'op': len(ops), 'kind': kind or rng.choice(['interrupt', 'memory'])}
                if after:
                    f['n'] = int(2 ** rng.uniform(0, 11)) if rng.random() < 0.5 else rng.randint(1, 150)
                else:       # thousandths of the operation, of the places it passes; swept through when there are many
                    f['n'] = 1
                    a = int(1000 * ((base + i / tries) % 1.0 if tries > 4 else rng.random()))
                    if by == 'time':
                        f['frac'] = a
                    else:
                        f['pick'] = [a, rng.choice([0, 0, rng.randrange(1000)])]
                faults.append(f)
                ops.append(op)
            ops.append(dict(op))
        clients.append(ops)
    return {'cfg': {'world': w, 'w': cfg, 'after': after}, 'scenario': w, 'clients': clients, 'sched': gen_sched(rng, nc),
            'gran': 'opcode' if fine else 'line', 'faults': faults}


def run(plan, ctr):
    cfg = plan['cfg']
    Wd = WORLDS[cfg['world']]

    def go(p):
        W = Wd(cfg['w'])
        sched, hist = run_clients(p, lambda op, ci, k: W.do(op), step_cap=3000000)
        return W, sched, hist

    def twin():
        return go(dict(plan, sched=[], faults=[], trace_log=False, site_log=True))

    def place(f):
        at = T[1].sites.get((f['client'], f['op']), {})
        if 'frac' in f:
            n = f['frac'] * sum(map(len, at.values())) // 1000
        elif at:
            visits = list(at.values())[f['pick'][0] * len(at) // 1000]
            n = visits[f['pick'][1] * len(visits) // 1000]
        else:
            n = 1
        return {'client': f['client'], 'op': f['op'], 'kind': f['kind'], 'n': max(n, 1)}

    T = None if cfg['after'] else twin()
    p = plan
    if T is not None:
        p = dict(plan, faults=[place(f) if 'frac' in f or 'pick' in f else f for f in plan['faults']])
    W, sched, hist = go(p)
    if T is None:
        T = twin()
    ref = {(h['client'], h['op']): h for h in T[2]}
    fired = repeated = 0
    hit = set()
    for h in hist:
        op = plan['clients'][h['client']][h['op']]
        who = dict(client=h['client'], op=h['op'])
        t = ref[h['client'], h['op']]
        what = '%s of the %s' % (op['k'], cfg['world'])
        if h['fired']:
            fired += 1
            hit.add((h['client'], repr(op)))
        elif (h['client'], repr(op)) in hit:
            repeated += 1
        if h['out'] == 'exc':
            if not h['fired']:
                if t['out'] == 'ok':
                    raise Violation('error', '%s raised %s: %s; it returns normally when undisturbed' % (what, h['root'], h['emsg']), **who)
                if t['root'] != h['root']:
                    raise Violation('error', '%s raised %s: %s; undisturbed %s: %s' % (what, h['root'], h['emsg'], t['root'], t['emsg']), **who)
            ctr['cancelled ' + op['k'] if h['fired'] else 'rejected'] += 1
            continue
        if t['out'] == 'exc':
            raise Violation('accepted', '%s returned normally; undisturbed it raises %s: %s' % (what, t['root'], t['emsg']), **who)
        with judging(**who):
            got, want = W.exact(op, h['val']), T[0].exact(op, t['val'])
        if got != want:
            raise Violation('different', '%s %s gave %s, undisturbed %s' % (what, 'hit by a fault' if h['fired'] else 'undisturbed', short(got, want), short(want, got)), **who)
        with judging(**who):
            e = W.wrong(op, h['val'])
        if e:
            raise Violation('value', '%s: %s' % (what, e), **who)
        h['val'] = got
        ctr['unharmed ' + op['k'] if h['fired'] else 'answer ' + op['k']] += 1
    a, b = W.final(), T[0].final()
    if a != b:
        raise Violation('damaged', 'afterwards the shared %s give %s, undisturbed %s' % (cfg['world'], short(a, b), short(b, a)))
    return sched, hist, fired > 0 and repeated > 0


def short(a, b):
    """the part of a that differs from b"""
    while isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        d = [i for i in range(len(a)) if a[i] != b[i]]
        if len(d) != 1:
            break
        a, b = a[d[0]], b[d[0]]
    return str(a)[:250]
