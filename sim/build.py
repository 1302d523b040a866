"""Bridges between JSON plans, the code under test and plain numbers."""
import numpy as np
import casadi as cs
import casadi_extras as ce
from casadi_extras import structure3 as s3


def shape_arg(sh):
    if sh[0] == 'int':
        return sh[1]
    if sh[0] == 'tup':
        return tuple(sh[1:])
    sp = cs.Sparsity.triplet(sh[1], sh[2], [p[0] for p in sh[3]], [p[1] for p in sh[3]])
    return sp


def mk_entry(d, pool=None):
    kw = {}
    rep = d.get('rep', [])
    if rep:
        kw['repeat'] = rep[0] if len(rep) == 1 and not d.get('replist') else list(rep)
    if d['k'] == 'struct':
        shared = pool is not None and d.get('ref') is not None
        kw['struct'] = pool[d['ref']] if shared else mk_layout(d['struct'], d.get('skind', 'SX'), pool)
    elif d['k'] == 'ss':
        a = [x if isinstance(x, int) else mk_layout(x, 'SX') for x in d['ss']]
        kw['shapestruct'] = a[0] if len(a) == 1 else tuple(a)
    else:
        if not (d['shape'] == ['int', 1] and d.get('noshape')):
            kw['shape'] = shape_arg(d['shape'])
    if d.get('symm'):
        kw['type'] = 'symm'
    return ce.entry(d['n'], **kw)


def mk_items(spec, pool=None):
    out = []
    for it in spec['items']:
        if 'group' in it:
            out.append(tuple(mk_entry(e, pool) for e in it['group']))
        else:
            out.append(mk_entry(it, pool))
    return out


def order_arg(spec):
    o = spec.get('order')
    return None if o is None else [tuple(x) if isinstance(x, list) else x for x in o]


def mk_layout(spec, kind='SX', pool=None):
    items = mk_items(spec, pool)
    o = order_arg(spec)
    kw = {} if o is None else {'order': o}
    if kind == 'SX':
        return ce.struct_symSX(items, **kw)
    if kind == 'MX':
        return ce.struct_symMX(items, **kw)
    return ce.struct(items, **kw)


def mk_value(layout, kind, vec, root=None, sym=None):
    """A structure holding the given numbers (as expressions of sym if given)."""
    d = cs.DM(vec) if len(vec) else cs.DM(0, 1)
    if kind == 'DM':
        return layout(d)
    if kind == 'SX':
        return ce.struct_SX(layout, data=cs.SX(d) if sym is None else sym + 0)
    if kind == 'MX':
        return ce.struct_MX_mutable(layout, data=cs.MX(d) if sym is None else sym + 0)
    if kind == 'VC':
        s = ce.struct_MX(layout)
        src = cs.MX(d) if sym is None else sym + 0
        for nm in root.keys:
            s[nm] = _vc_init(root, nm, src)
        return s
    raise KeyError(kind)


def _vc_init(root, nm, src):
    e = root.entries[nm]

    def rec(dims, path):
        if dims:
            return [rec(dims[1:], path + (i,)) for i in range(dims[0])]
        l = root.leafmap.get((nm,) + path)
        if l is None:
            flats = [f for x in root.under((nm,) + path) for f in x.flats]
            sp = cs.Sparsity.dense(len(flats), 1)
        else:
            flats = l.flats
            sp = cs.Sparsity.triplet(e.shape[0], e.shape[1], [x[0] for x in e.nz], [x[1] for x in e.nz])
        return cs.MX(sp, src[flats]) if flats else cs.MX(sp, cs.MX(0, 1))
    return rec(list(e.rep), ())


PYFUNCS = {
    'first': lambda l: l[0],
    'last': lambda l: l[-1],
    'rev': lambda l: l[::-1],
    'hcat': lambda l: cs.horzcat(*l),
    'vcat': lambda l: cs.vertcat(*l),
    'T': lambda a: a.T,
    'id': lambda a: a,
}


def py_atom(a, hook=None):
    k = a[0]
    if k in ('s', 'ds'):
        return a[1]
    if k == 'i':
        return a[1]
    if k == 'sl':
        return slice(a[1], a[2], a[3])
    if k in ('l', 'names', 'dl'):
        return list(a[1])
    if k == '...':
        return Ellipsis
    if k == '{}':
        return {}
    if k == 'set':
        return set(a[1])
    if k == 'nd':
        return ce.nesteddict
    if k == 'fn':
        f = PYFUNCS[a[1]]
        if hook is None:
            return f

        def g(x):
            hook()
            return f(x)
        return g
    if k == 'ix':
        t = tuple(py_atom(x) for x in a[1])
        return ce.index[t]
    if k == 'ixf':
        t = tuple(py_atom(x) for x in a[1])
        return ce.indexf[t]
    raise KeyError(k)


def py_index(atoms, hook=None):
    t = tuple(py_atom(a, hook) for a in atoms)
    return t


def py_payload(p, kind='DM'):
    k = p[0]
    if k == 'num':
        return {'DM': lambda v: cs.DM(v), 'SX': lambda v: cs.SX(v), 'MX': lambda v: cs.MX(v)}[p[2]](p[1]) if len(p) > 2 else p[1]
    if k == 'mat':
        a = np.array(p[3], dtype=float).reshape((p[1], p[2]), order='F')
        st = p[4]
        if st == 'np':
            return a
        if st == 'np1':
            return a.flatten(order='F')
        d = cs.DM(p[1], p[2])
        d = cs.DM(a) if a.size else cs.DM(p[1], p[2])
        if st == 'own':
            return {'DM': d, 'SX': cs.SX(d), 'MX': cs.MX(d), 'VC': cs.MX(d)}[kind]
        return d
    if k == 'smat':
        sp = cs.Sparsity.triplet(p[1], p[2], [x[0] for x in p[3]], [x[1] for x in p[3]])
        d = cs.DM(sp, p[4])
        return cs.MX(d) if kind in ('MX', 'VC') else d
    if k == 'list':
        return [py_payload(q, kind) for q in p[1]]
    if k == 'dict':
        return {n: py_payload(q, kind) for n, q in p[1].items()}
    if k == 'rep':
        return ce.repeated(py_payload(p[1], kind))
    if k == 'bad':
        return {'str': 'abc', 'none': None, 'obj': object()}[p[1]]
    raise KeyError(k)


def num(x, env=None):
    """Normalise results of the code under test to nested lists/dicts of float arrays."""
    if isinstance(x, (list, tuple)):
        return [num(y, env) for y in x]
    if isinstance(x, dict):
        return {k: num(v, env) for k, v in x.items()}
    if isinstance(x, (cs.MX, cs.SX)):
        if env is None:
            x = cs.DM(x) if isinstance(x, cs.SX) and x.is_constant() else cs.evalf(x)
        else:
            x = cs.Function('f', [env[0]], [x])(env[1])
    if isinstance(x, cs.DM):
        return np.array(x.full(), dtype=float).reshape(x.shape)
    return x


def flat(m, env=None):
    """A matrix as a float column, column by column."""
    return num(m, env).flatten(order='F')
