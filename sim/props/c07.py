"""C07: values built from data, by several builders of one declaration, cancelled or failing."""
import casadi as cs
import numpy as np
import casadi_extras as ce
from .. import build as B, genstruct as G, refstruct as R
from ..core import Violation, clean, gen_sched, how_long, how_many, run_clients
from ..structcheck import RAISES, user_error
from . import c02
from .c05 import same

LEVEL = 'fault_enumeration'
RULE = ('A run draws 1-2 declarations and 1-6 clients that build values from scalars, vectors, expressions, dictionaries, '
        'expression entries or data matrices, fitting and not fitting, some cancelled or failing in user data; every value '
        'built is read back completely at once and again at the end; non-trivial: at least two values were built.')
RUNS = {'quick': 32000, 'thorough': 200000}
MIN_RUNS = 3000


class Raising(dict):
    """a user dictionary that fails when one of its fields is taken"""
    bad = None
    live = raised = False

    def fail(self):
        if self.live:
            self.raised = True
            raise user_error(self.exc)

    def __getitem__(self, k):
        if k == self.bad:
            self.fail()
        return dict.__getitem__(self, k)

    def get(self, k, *d):
        return self[k] if k in self else dict.get(self, k, *d)

    def items(self):
        for k in self:
            yield k, self[k]

    def values(self):
        for k in self:
            yield self[k]


def simple(root):
    """fields that expression entries can describe"""
    return all(e.kind == 'leaf' and not e.symm and 0 not in e.rep and e.shape[0] * e.shape[1] > 0 for e in root.entries.values())


def splittable(root):
    return root.size > 0 and all(not e.rep and (e.sub is None or e.sub.size > 0) for e in root.entries.values())


def gen_build(rng, spec, root, vals, j):
    n = root.size
    op = {'k': 'build', 'd': j}
    r = rng.random()
    if r < 0.08:
        op.update(form='num', v=vals(), as_=rng.choice(['float', 'DM', 'np', 'np2', 'int']))
        if op['as_'] == 'int' and abs(op['v']) < 1e15:
            op['v'] = float(round(op['v']))
    elif r < 0.1:
        op.update(form='none')
    elif r < 0.42:
        op.update(form='vec', v=[vals() for _ in range(n)], as_=rng.choice(['list', 'np', 'np2', 'DM', 'MX', 'SX', 'sparse', 'struct', 'mxsym']))
        if op['as_'] == 'sparse':
            op['z'] = [k for k in range(n) if rng.random() < 0.4]
        if rng.random() < 0.2 and op['as_'] not in ('sparse', 'struct', 'mxsym'):
            m = rng.choice([n + 1, n - 1, 2 * n, n + 5])
            if m > 1 and m != n:
                op['v'] = [vals() for _ in range(m)]
            elif n > 1:
                op['as_'] = rng.choice(['row', 'wide'])
    elif r < 0.75:
        op.update(form='dict', v={k: G.gen_payload(rng, root, [['s', k]], vals, 'DM') for k in root.keys})
        q = rng.random()
        k = rng.choice(root.keys)
        if q < 0.1:
            del op['v'][k]
        elif q < 0.2:
            op['v']['extra'] = ['num', vals()]
        elif q < 0.25:
            op['v']['extra'] = op['v'].pop(k)
        elif q < 0.4:
            op['v'][k] = G.spoil_payload(rng, op['v'][k])
        elif q < 0.5:
            op['boom'] = [k, rng.choice(RAISES)]
    elif r < 0.88 and splittable(root):
        cols = rng.choice([1, 2, 3, 4]) if rng.random() > 0.1 else rng.randint(5, 40)
        rows = n if rng.random() < 0.8 else rng.choice([n + 1, max(1, n - 1), 1])
        op.update(form='split', rows=rows, cols=cols, v=[vals() for _ in range(rows * cols)], as_=rng.choice(['np', 'np', 'list']))
    elif simple(root):
        op.update(form='expr', v=[vals() for _ in range(n)], as_=rng.choice(['SX', 'MXm', 'MX']))
    else:
        op.update(form='vec', v=[vals() for _ in range(n)], as_='list')
    return op


class Bounds(G.Values):
    """some values are infinite, as in bounds"""

    def __init__(self, rng):
        G.Values.__init__(self)
        self.rng = rng

    def __call__(self):
        v = G.Values.__call__(self)
        return self.rng.choice([float('inf'), float('-inf')]) if self.rng.random() < 0.15 else v


def gen(rng):
    vals = Bounds(rng) if rng.random() < 0.1 else G.Values(rng=rng)
    decls, roots = [], []
    for _ in range(rng.choice([1, 1, 2])):
        kw = {'depth': 0, 'rich': False} if rng.random() < 0.25 else {}
        s, r = G.spec_for(rng, max_size=rng.choice([4, 12, 30]), max_items=rng.choice([2, 3, 4]), **kw)
        if rng.random() < 0.2:
            for it in s['items']:
                for d in it.get('group', [it]):
                    d['rep'] = []
            r = R.RStruct(s)
        decls.append({'spec': s, 'kind': rng.choice(['SX', 'MX', 'S'])})
        roots.append(r)
    nc = how_many(rng, [1, 2, 2, 3])
    faulty = rng.random() < 0.4
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for _ in range(how_long(rng, 1, 8 if nc == 1 else 4, nc)):
            j = rng.randrange(len(decls))
            op = gen_build(rng, decls[j]['spec'], roots[j], vals, j)
            if rng.random() < 0.25:
                op['edit'] = True
            if faulty and rng.random() < 0.5:
                n = c02.fault_point(rng) if rng.random() < 0.5 else int(2 ** rng.uniform(0, 11))
                faults.append({'client': c, 'op': len(ops), 'n': n, 'kind': rng.choice(['interrupt', 'memory'])})
            ops.append(op)
            if rng.random() < 0.15:
                ops.append(op)
        clients.append(ops)
    return {'cfg': {'decls': decls}, 'scenario': 'faulty' if faulty else 'plain', 'clients': clients,
            'sched': gen_sched(rng, nc), 'gran': 'opcode' if rng.random() < 0.15 else 'line', 'faults': faults}


def supply(op, layout, root):
    """the argument of the call and a way to tell whether it was changed"""
    f, a = op['form'], op.get('as_')
    if f == 'num':
        v = op['v']
        return {'float': v, 'int': int(v) if abs(v) < 1e300 else v, 'DM': cs.DM(v), 'np': np.float64(v), 'np2': np.array([[v]])}[a]
    if f == 'vec':
        v = op['v']
        d = cs.DM(v) if len(v) else cs.DM(0, 1)
        if a == 'list':
            return list(v) if v else d
        if a == 'np':
            return np.array(v) if v else d
        if a == 'np2':
            return np.array(v).reshape((-1, 1)) if v else d
        if a == 'row':
            return np.array(v).reshape((1, -1))
        if a == 'wide':
            return np.array([v, v]).T
        if a == 'sparse':
            rows = [k for k in range(len(v)) if k not in op['z']]
            return cs.DM(cs.Sparsity.triplet(len(v), 1, rows, [0] * len(rows)), [v[k] for k in rows])
        if a == 'struct':
            return ce.struct(B.mk_items(root.spec), **({} if B.order_arg(root.spec) is None else {'order': B.order_arg(root.spec)}))(d)
        return {'DM': d, 'MX': cs.MX(d), 'SX': cs.SX(d), 'mxsym': d}[a]
    if f == 'dict':
        d = Raising((k, B.py_payload(p)) for k, p in op['v'].items()) if op.get('boom') else {k: B.py_payload(p) for k, p in op['v'].items()}
        if op.get('boom'):
            d.bad, d.exc = op['boom']
        return d
    m = np.array(op['v']).reshape((op['rows'], op['cols']), order='F')
    return m if a == 'np' else m.tolist()


def exprs(op, root):
    """expression entries holding the numbers"""
    t = cs.SX if op['as_'] == 'SX' else cs.MX
    out = []
    for o in root.order:
        names = o if isinstance(o, tuple) else (o,)
        g = []
        for nm in names:
            e = root.entries[nm]

            def rec(dims, path):
                if dims:
                    return [rec(dims[1:], path + (i,)) for i in range(dims[0])]
                l = root.leafmap[(nm,) + path]
                sp = cs.Sparsity.triplet(e.shape[0], e.shape[1], [x[0] for x in e.nz], [x[1] for x in e.nz])
                return t(cs.DM(sp, [op['v'][f] for f in l.flats]))
            g.append(ce.entry(nm, expr=rec(list(e.rep), ())))
        out.append(tuple(g) if isinstance(o, tuple) else g[0])
    return out


def plainly(x):
    """comparable content of supplied data"""
    if isinstance(x, dict):
        return {k: plainly(dict.__getitem__(x, k)) for k in x}
    if isinstance(x, (list, tuple)):
        return [plainly(y) for y in x]
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (cs.DM, cs.SX, cs.MX)):
        return B.num(x)
    if isinstance(x, (float, int, np.floating)):
        return float(x)
    return None


def fits(op, root):
    """(vector of every element, None) or (None, reason for rejection)"""
    n = root.size
    f = op['form']
    if f == 'none':
        return [0.0] * n, None
    if f == 'num':
        return [float(op['v'])] * n, None
    if f == 'expr':
        return op['v'], None
    if f == 'vec':
        if op['as_'] in ('row', 'wide') or len(op['v']) != n:
            return None, 'size'
        return [0.0 if k in op.get('z', ()) else v for k, v in enumerate(op['v'])], None
    if f == 'dict':
        if set(op['v']) != set(root.keys):
            return None, 'keys'
        out = [None] * n
        for k in root.keys:
            groups, errs = R.assign(root, [['s', k]], op['v'][k])
            if errs:
                return None, errs[0]
            for g in groups:
                for c, v in g:
                    out[c] = v
        return out, None
    if op['rows'] != n:
        return None, 'rows'
    return op['v'], None


def readable(root):
    """fields that have an index (an empty nested structure has none)"""
    out = []
    for k in root.keys:
        try:
            R.get(root, [['s', k]])
            out.append(k)
        except R.ModelError:
            pass
    return out


def read(v, root):
    return [B.flat(v.cat), {k: B.num(v[k]) for k in readable(root)}, list(v.keys()), v.size, type(v.cat).__name__]


def run(plan, ctr):
    cfg = plan['cfg']
    roots = [R.RStruct(d['spec']) for d in cfg['decls']]
    layouts = [B.mk_layout(d['spec'], d['kind']) for d in cfg['decls']]
    built, swallowed = [], []

    def execute(op, ci, k):
        root, l = roots[op['d']], layouts[op['d']]
        f = op['form']
        if f == 'expr':
            e = exprs(op, root)
            v = {'SX': ce.struct_SX, 'MXm': ce.struct_MX_mutable, 'MX': ce.struct_MX}[op['as_']](e)
            data = before = None
        else:
            data = None if f == 'none' else supply(op, l, root)
            before = plainly(data)
            if f == 'split':
                r = l.parseMatrix(data)
                return [B.num(r), same_data(before, data)]
            if op.get('boom'):
                data.live = True
                v = l(data)
                data.live = False
                if data.raised:
                    swallowed.append(dict(client=ci, op=k))
            else:
                v = l() if f == 'none' else l(data)
        ok = same_data(before, data)
        r = read(v, root)
        # supplied CasADi objects may be shared with the value, copies of other data may not
        own = f in ('none', 'dict') or f in ('num', 'vec') and op['as_'] in ('float', 'int', 'np', 'np2', 'list')
        if op.get('edit') and root.size and own:
            c = len(built) % root.size
            v[l.struct.getCanonicalIndex(c, extraMode=2)] = -9.0
            ok = ok and same_data(before, data)
            built.append((op, v, c))
        else:
            built.append((op, v, None))
        return r + [ok]

    def same_data(before, data):
        return data is None or same(before, plainly(data))

    sched, hist = run_clients(plan, execute)

    def values(root, vec):
        def val(m):
            if isinstance(m, list):
                return [val(x) for x in m]
            return np.array([[vec[c] if c >= 0 else 0.0 for c in row] for row in m], dtype=float).reshape(m.shape)
        return val

    def wants(op, root, vec):
        f = values(root, vec)
        return [np.array(vec, dtype=float), {k: f(R.get(root, [['s', k]])) for k in readable(root)}, root.keys, root.size,
                {'MX': 'MX', 'SX': 'SX', 'MXm': 'MX'}.get(op.get('as_'), 'DM')]

    made = 0
    for who in swallowed:
        raise Violation('accepted', 'building from failing data returned normally', **who)
    for h in hist:
        op = plan['clients'][h['client']][h['op']]
        root = roots[op['d']]
        who = dict(client=h['client'], op=h['op'])
        vec, why = fits(op, root)
        what = 'building from %s' % {k: op[k] for k in op if k in ('form', 'as_')}
        if h['out'] == 'exc':
            if why is None and not h['fired'] and not op.get('boom'):
                raise Violation('error', '%s raised %s: %s' % (what, h['root'], h['emsg']), **who)
            ctr['cancelled builds' if why is None else 'rejected builds'] += 1
            continue
        if why is not None:
            raise Violation('accepted', '%s returned normally but must be rejected: %s' % (what, why), **who)
        if not h['val'][-1]:
            raise Violation('input', '%s changed the supplied data' % what, **who)
        if op['form'] == 'split':
            m = np.array(op['v']).reshape((op['rows'], op['cols']), order='F')
            want = [{k: np.hstack([values(root, m[:, c])(R.get(root, [['s', k]])) for c in range(op['cols'])]) for k in root.keys}]
        else:
            want = wants(op, root, vec)
        if not same(want, h['val'][:-1]):
            raise Violation('value', '%s gave %s instead of %s' % (what, str(h['val'][:-1])[:300], str(want)[:300]), **who)
        made += 1
        ctr['built ' + op['form']] += 1
    for op, v, c in built:
        vec, why = fits(op, roots[op['d']])
        if why is not None:
            continue
        vec = list(vec)
        if c is not None:
            vec[c] = -9.0
        got = read(v, roots[op['d']])
        want = wants(op, roots[op['d']], vec)
        if not same(want, got):
            raise Violation('foreign', 'a value built from %s later reads %s instead of %s' % (op['form'], str(got)[:300], str(want)[:300]))
    for l, r in zip(layouts, roots):
        if r.size and not same([np.array([5.0] * r.size)], [B.flat(l(5.0).cat)]):
            raise Violation('declaration', 'the declaration no longer builds values')
        if [list(l.keys()), l.size] != [r.keys, r.size]:
            raise Violation('declaration', 'the declaration changed')
    return sched, hist, made > 1
