"""C06: views of one matrix or structure, written and read by several clients."""
import casadi as cs
import numpy as np
from .. import build as B, genstruct as G, refstruct as R
from ..core import Violation, clean, gen_sched, how_long, how_many, run_clients
from ..structcheck import judge_shared, pretty
from . import c01, c02

LEVEL = 'fault_enumeration'
RULE = ('A run draws one matrix or structure and 1-3 views of it (prefix, repeated, squared, product, squared-repeated, of '
        'equal or different declarations), 1-6 clients that read and write through views and the matrix itself, failures as '
        'in C02 in some runs, and a preemption list; non-trivial: a write through one view and a read through another view '
        'or the matrix.')
RUNS = {'quick': 32000, 'thorough': 200000}
MIN_RUNS = 3000


def wrap(kind, spec, other, n):
    """the declaration behind a matrix view"""
    if kind == 'repeated':
        e = {'n': 't', 'k': 'struct', 'rep': [n], 'struct': spec}
    elif kind == 'squared':
        e = {'n': 't', 'k': 'ss', 'rep': [], 'ss': [spec, spec]}
    elif kind == 'product':
        e = {'n': 't', 'k': 'ss', 'rep': [], 'ss': [spec, other]}
    else:
        e = {'n': 't', 'k': 'ss', 'rep': [n], 'ss': [spec, spec]}
    return {'items': [e]}


def same_size(rng, size, tries=30):
    """another declaration with the given number of elements"""
    for _ in range(tries):
        s, r = G.spec_for(rng, max_size=size, min_size=size, depth=1, max_items=3)
        if r.size == size:
            return s
    k = rng.randint(1, size)
    items = [{'n': 'p', 'k': 'leaf', 'shape': ['int', k], 'rep': []}]
    if k < size:
        items.append({'n': 'q', 'k': 'leaf', 'shape': ['int', 1], 'rep': [size - k]})
    return {'items': items}


def prefixes(rng, root):
    """a valid prefix that stops at an entry, a repeat or a nested structure"""
    nm = rng.choice(root.keys)
    e = root.entries[nm]
    at = [['s', nm]]
    for n in e.rep:
        if n == 0 or rng.random() < 0.4:
            return at
        at.append(['i', rng.randint(-n, n - 1)])
    if e.sub is not None and e.sub.keys and rng.random() < 0.4:
        at.append(['s', rng.choice(e.sub.keys)])
    return at


def gen_view(rng, base):
    """one more view of the base"""
    if base['b'] == 'struct':
        return {'v': 'prefix', 'pre': prefixes(rng, R.RStruct(base['spec']))}
    k = base['b']
    d = {'v': k, 'spec': base['spec'], 'lkind': rng.choice(['SX', 'MX', 'S'])}
    if rng.random() < 0.3:
        d['spec'] = same_size(rng, base['rows'])
    if k == 'product':
        d['other'] = base['other'] if rng.random() < 0.7 else same_size(rng, base['cols'])
    if k == 'squared' and rng.random() < 0.4:
        d['v'] = rng.choice(['repeated', 'product', 'sqrep'])
        d['other'] = base['spec']
    if k == 'sqrep' and rng.random() < 0.3:
        d['v'] = 'repeated'
    if k == 'product' and rng.random() < 0.3:
        d['v'] = 'repeated'
    return d


def gen_base(rng, vals):
    b = rng.choice(['struct', 'repeated', 'repeated', 'squared', 'product', 'sqrep'])
    kind = rng.choice(['DM', 'DM', 'SX', 'MX'])
    if b == 'struct':
        spec, root = G.spec_for(rng, max_size=20, max_items=3)
        return {'b': b, 'kind': kind, 'spec': spec, 'init': [vals() for _ in range(root.size)], 'lkind': rng.choice(['SX', 'MX', 'S'])}
    while True:
        spec, root = G.spec_for(rng, max_size=6, max_items=3, depth=1)
        if root.size > 0:
            break
    d = {'b': b, 'kind': kind, 'spec': spec, 'rows': root.size, 'n': rng.choice([1, 2, 2, 3])}
    if b == 'product':
        d['other'] = G.spec_for(rng, max_size=5, max_items=2, depth=0)[0]
        d['cols'] = R.RStruct(d['other']).size
    else:
        d['cols'] = {'repeated': d['n'], 'squared': root.size, 'sqrep': root.size * d['n']}[b]
    d['init'] = [vals() for _ in range(d['rows'] * d['cols'])]
    return d


def view_root(base, d):
    if base['b'] == 'struct':
        return R.RStruct(base['spec'])
    n = base['cols'] if d['v'] == 'repeated' else base['cols'] // max(1, base['rows'])
    return R.RStruct(wrap(d['v'], d['spec'], d.get('other'), n))


def full_path(d, ix):
    return (d['pre'] if 'pre' in d else [['s', 't']]) + ix


def gen_ix(rng, root, d, for_set):
    """index relative to the view"""
    pre = full_path(d, [])
    e = root.entries[pre[0][1]]
    dims = list(e.rep)
    for a in pre[1:]:
        if a[0] == 'i':
            dims = dims[1:]
        else:
            e = e.sub.entries[a[1]]
            dims = list(e.rep)
    atoms = []
    for n in dims:
        if rng.random() < 0.2:
            return atoms
        atoms.append(G._dim_atom(rng, n))
    if e.sub is not None:
        if rng.random() < 0.25 or not e.sub.keys:
            return atoms
        return atoms + G.gen_path(rng, root, e.sub, for_set, True)
    x = G.gen_extra(rng, e, e.shape, for_set)
    if not x and e.ss is not None and min(e.shape) > 0 and rng.random() < 0.7:
        x = G.gen_extra(rng, e, e.shape, for_set) or [G._safe_axis(rng, n) for n in e.shape]
    return atoms + x


def gen_op(rng, base, views, roots, vals):
    r = rng.random()
    if base['b'] != 'struct' and r < 0.12:
        return {'k': 'mget'}
    if base['b'] != 'struct' and r < 0.2 and base['rows'] * base['cols']:
        return {'k': 'mset', 'r': rng.randrange(base['rows']), 'c': rng.randrange(base['cols']), 'x': vals()}
    s = rng.randrange(len(views))
    d = views[s]
    if r < 0.26:
        return {'k': 'vcast', 's': s}
    if d['v'] == 'whole':
        if r < 0.6:
            return {'k': 'get', 's': s, 'ix': c01.gen_get(rng, roots[s])}
        ix, v = c01.gen_set(rng, roots[s], vals, base['kind'])
        return {'k': 'set', 's': s, 'ix': ix, 'v': v}
    ix = gen_ix(rng, roots[s], d, r >= 0.6)
    if r < 0.6:
        return {'k': 'get', 's': s, 'ix': ix}
    return {'k': 'set', 's': s, 'ix': ix, 'v': G.gen_payload(rng, roots[s], full_path(d, ix), vals, base['kind'])}


def gen(rng):
    vals = G.Values(rng=rng)
    base = gen_base(rng, vals)
    nv = rng.choice([1, 2, 2, 3])
    views = [gen_view(rng, base) for _ in range(nv)]
    if base['b'] == 'struct':
        views.append({'v': 'whole', 'pre': []})
    roots = [view_root(base, d) for d in views]
    nc = how_many(rng, [1, 2, 2, 2, 3])
    n = how_long(rng, 2, 16, nc) if nc == 1 else rng.randint(1, 6 if nc < 4 else 3)
    style = None
    if nc > 1 and rng.random() < 0.5:      # short programs, mostly writes, switching often
        n, style = rng.choice([1, 1, 2, 3]), rng.choice(['window', 'window', 'window', 'dense', 'mixed'])
    faulty = rng.random() < 0.4
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for _ in range(n):
            op = safe_op(rng, base, views, roots, vals)
            while style and op['k'] not in ('set', 'mset') and rng.random() < 0.6:
                op = safe_op(rng, base, views, roots, vals)
            if faulty and op['k'] == 'set' and rng.random() < 0.5:
                if rng.random() < 0.5:
                    faults.append({'client': c, 'op': len(ops), 'n': c02.fault_point(rng), 'kind': rng.choice(['interrupt', 'memory'])})
                    ops.append(op)
                    if rng.random() < 0.5:
                        ops.append(op)
                    continue
                ops.append(dict(op, v=G.spoil_payload(rng, op['v'])))
                if rng.random() < 0.5:
                    continue
            ops.append(op)
        clients.append(ops)
    return {'cfg': {'base': base, 'views': views}, 'scenario': ('faulty ' if faulty else '') + base['b'], 'clients': clients,
            'sched': gen_sched(rng, nc, style), 'gran': 'opcode' if rng.random() < 0.2 else 'line', 'faults': faults}


def one_matrix(root, d):
    """a prefix naming a list of matrices or an empty structure cannot stand for one matrix"""
    try:
        return isinstance(R.get(root, d['pre']), np.ndarray)
    except R.ModelError:
        return False


def safe_op(rng, base, views, roots, vals):
    """an operation whose meaning the model knows"""
    while True:
        op = gen_op(rng, base, views, roots, vals)
        if op['k'] == 'vcast' and views[op['s']]['v'] == 'prefix':
            if not one_matrix(roots[op['s']], views[op['s']]):
                continue
        return op


class View(object):
    """A view with its model: same registers as the base, its own names."""

    def __init__(self, obj, root, d, kind):
        self.s, self.root, self.d, self.kind = obj, root, d, kind

    def model_ix(self, ix):
        return full_path(self.d, ix)


def make_base(base):
    v = cs.DM(base['init']) if base['init'] else cs.DM(0, 1)
    if base['b'] == 'struct':
        root = R.RStruct(base['spec'])
        return B.mk_value(B.mk_layout(base['spec'], base['lkind']), base['kind'], base['init'], root)
    m = cs.reshape(v, base['rows'], base['cols'])
    return {'DM': cs.DM, 'SX': cs.SX, 'MX': cs.MX}[base['kind']](m)


def make_view(base, m, d):
    if d['v'] == 'whole':
        return m
    if d['v'] == 'prefix':
        return m.prefix[B.py_index(d['pre'])]
    l = B.mk_layout(d['spec'], d['lkind'])
    if d['v'] == 'repeated':
        return l.repeated(m)
    if d['v'] == 'squared':
        return l.squared(m)
    if d['v'] == 'product':
        return l.product(B.mk_layout(d['other'], 'S'), m)
    return l.squared_repeated(m)


def run(plan, ctr):
    base, views = plan['cfg']['base'], plan['cfg']['views']
    m = make_base(base)
    objs = [View(make_view(base, m, d), view_root(base, d), d, base['kind']) for d in views]
    spec_m = None
    if base['b'] != 'struct':
        spec_m = np.arange(base['rows'] * base['cols']).reshape((base['rows'], base['cols']), order='F')

    def read_model(op):
        o = objs[op.get('s', 0)]
        if op['k'] == 'get':
            return R.get(o.root, o.model_ix(op['ix']))
        if op['k'] == 'mget':
            return spec_m
        if o.d['v'] == 'prefix':
            return R.get(o.root, o.d['pre'])
        if o.d['v'] == 'whole':
            return np.arange(o.root.size).reshape((-1, 1))
        return spec_m

    def execute(op, ci, k):
        o = objs[op.get('s', 0)]
        kk = op['k']
        if kk == 'get':
            return B.num(o.s[B.py_index(op['ix'])])
        if kk == 'set':
            o.s[B.py_index(op['ix'])] = B.py_payload(op['v'], base['kind'])
            return None
        if kk == 'mget':
            return B.num(m + 0)
        if kk == 'mset':
            m[op['r'], op['c']] = op['x']
            return None
        if kk == 'vcast':
            cols = read_model(op).shape[1]
            return B.num(cs.vertcat(o.s, cs.DM.ones(1, cols)))[:-1, :]
        raise KeyError(kk)

    sched, hist = run_clients(plan, execute)
    n = len(hist)
    c = 0
    final = [{'k': 'mget'}] if base['b'] != 'struct' else []
    for s, d in enumerate(views):
        if d['v'] == 'whole':
            final += [{'k': 'get', 's': s, 'ix': [['s', nm]]} for nm in objs[s].root.keys]
        else:
            final.append({'k': 'get', 's': s, 'ix': []})
            if d['v'] != 'prefix' or one_matrix(objs[s].root, d):
                final.append({'k': 'vcast', 's': s})
    for op in final:
        h = {'client': -1, 'op': c, 'opd': op, 'inv': sched.stamp(), 'fired': None}
        c += 1
        try:
            h['val'] = execute(op, -1, c)
            h['out'] = 'ok'
        except Exception as e:
            while e.__cause__ is not None:
                e = e.__cause__
            h.update(out='exc', root=type(e).__name__, emsg=clean(e))
        h['ret'] = sched.stamp()
        hist.append(h)

    def write_model(op):
        o = objs[op.get('s', 0)]
        if op['k'] == 'mset':
            return [[(int(spec_m[op['r'], op['c']]), op['x'])]], []
        return R.assign(o.root, o.model_ix(op['ix']), op['v'])

    def may_reject(op):
        """matrix views take only right-hand sides of the same pattern for fields with structural zeros"""
        if op['k'] != 'set' or views[op['s']]['v'] in ('prefix', 'whole'):
            return False
        return any(len(l.entry.nz) < l.entry.shape[0] * l.entry.shape[1] for l in objs[op['s']].root.leaves)

    owners = {tuple(o.root.owner) for o in objs}
    owner = list(owners)[0] if len(owners) == 1 and base['b'] == 'struct' else list(range(len(base['init'])))
    judge_shared(plan, hist, ctr, read_model, write_model, base['init'], owner,
                 lambda op: (views[op['s']]['v'] if 's' in op else 'matrix') + ' ' + pretty(op['ix']) if 'ix' in op else op['k'], may_reject)
    for d in views:
        ctr['view ' + d['v']] += 1
    ctr['kind ' + base['kind']] += 1
    wr = {h['client'] >= 0 and plan['clients'][h['client']][h['op']].get('s', 'm') for h in hist[:n]
          if plan['clients'][h['client']][h['op']]['k'] in ('set', 'mset') and h['out'] == 'ok'}
    return sched, hist[:n], bool(wr)
