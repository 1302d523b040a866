"""C05: the layout follows from the declaration, whatever happened before or happens meanwhile."""
import casadi as cs
import numpy as np
import casadi_extras as ce
from .. import build as B, genstruct as G, refstruct as R
from ..core import Violation, clean, gen_sched, how_long, how_many, judging, run_clients
from . import c02

LEVEL = 'fault_enumeration'
RULE = ('A run draws 1-3 declarations that may share nested structure objects, and 1-6 clients that declare them again, query '
        'layouts of shared declarations (sizes, keys, labels, canonical indices, flat positions, index matrices) and read and '
        'write values by them; some declarations are cancelled or fail and are repeated; every answer is compared with the '
        'reference layout; non-trivial: at least two queries or declarations answered.')
RUNS = {'quick': 24000, 'thorough': 160000}
MIN_RUNS = 3000


def share(rng, spec, subs):
    """let some fields of spec be the shared nested structures"""
    for it in spec['items']:
        for d in it.get('group', [it]):
            if subs and rng.random() < (0.7 if d['k'] == 'struct' else 0.15):
                k = rng.randrange(len(subs))
                n, rep = d['n'], d['rep']
                d.clear()
                d.update(n=n, k='struct', rep=rep, struct=subs[k]['spec'], ref=k)


def dense(root, ix):
    return all((c >= 0).all() for c in R.cells_of(R.get(root, ix, raw=True)))


def gen_query(rng, root):
    r = rng.random()
    if r < 0.2:
        return {'w': 'canon', 'm': rng.randint(0, 2)}
    if r < 0.35:
        return {'w': 'labels', 'm': rng.randint(0, 2)}
    if r < 0.45:
        return {'w': 'size'}
    ix = G.gen_path(rng, root)
    if any(a[0] == 'fn' for a in ix):
        ix = ix[:1]
    try:
        R.get(root, ix)
    except R.ModelError:
        return {'w': 'size'}      # an empty nested structure has no index
    if r < 0.6 and root.size and not any(a[0] in ('{}', 'nd', 'set') for a in ix) and dense(root, ix):
        return {'w': 'f', 'ix': ix}
    if r < 0.72 and root.size:
        return {'w': 'i', 'ix': ix}
    if r < 0.8 and root.size:
        return {'w': 'use', 'c': rng.randrange(root.size), 'm': rng.randint(1, 2)}
    if r < 0.9 and root.size:
        return {'w': 'read', 'ix': ix}
    if r < 0.95 and root.size:
        return {'w': 'sym', 'ix': ix}
    return {'w': 'one', 'c': rng.randint(0, max(0, root.size - 1)), 'm': rng.randint(0, 2)} if root.size else {'w': 'size'}


def gen(rng):
    subs = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        s, r = G.spec_for(rng, max_size=10, depth=rng.choice([0, 1]), max_items=3, top=False)
        subs.append({'spec': s, 'kind': rng.choice(['SX', 'MX', 'S'])})
    decls, roots = [], []
    large = rng.random() < 0.03
    while len(decls) < (rng.choice([1, 2, 3]) if rng.random() > 0.03 else 9):
        s = G.gen_spec(rng, max_items=rng.choice([2, 3, 5]) if not large else 9, wide=large)
        share(rng, s, subs)
        r = R.RStruct(s)
        if r.size <= (60 if not large else 300):
            decls.append({'spec': s, 'kind': rng.choice(['SX', 'MX', 'S'])})
            roots.append(r)
    fresh = bool(subs) and rng.random() < 0.5      # nested structures first used by the clients
    nc = how_many(rng, [1, 2, 2, 3])
    faulty = rng.random() < (0.7 if nc == 1 else 0.35)
    pd = rng.choice([0.35, 0.35, 0.9])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for _ in range(how_long(rng, 1, 5 if nc == 1 else 4, nc)):
            j = rng.randrange(len(decls))
            if rng.random() < pd:
                op = {'k': 'decl', 'd': j, 'q': [gen_query(rng, roots[j]) for _ in range(rng.randint(1, 2))]}
                if faulty and rng.random() < 0.2:
                    op['bad'] = True
            else:
                op = {'k': 'q', 'd': j, 'q': [gen_query(rng, roots[j])]}
            if faulty and rng.random() < 0.6:
                n = c02.fault_point(rng)
                if op['k'] == 'decl':
                    n = int(2 ** rng.uniform(0, 12)) if rng.random() < 0.4 else rng.randint(1, 60 * (4 + roots[j].size))
                faults.append({'client': c, 'op': len(ops), 'n': n, 'kind': rng.choice(['interrupt', 'memory'])})
                ops.append(op)
            if rng.random() < 0.7 or not ops:
                ops.append(dict(op, bad=False))
        clients.append(ops)
    return {'cfg': {'subs': subs, 'decls': decls, 'fresh': fresh}, 'scenario': 'faulty' if faulty else 'plain', 'clients': clients,
            'sched': gen_sched(rng, nc), 'gran': 'opcode' if rng.random() < 0.1 else 'line', 'faults': faults}


# -- asking the code under test ------------------------------------------------------

def plain(x):
    """indices and labels as plain python"""
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, (int, np.integer)):
        return int(x)
    return x


def ask(l, q, vec):
    w = q['w']
    st = l.struct
    if w == 'canon':
        return plain(st.canonicalIndices(extraMode=q['m']))
    if w == 'labels':
        return st.labels(extraMode=q['m'])
    if w == 'one':
        return [plain(st.getCanonicalIndex(q['c'], extraMode=q['m'])), st.getLabel(q['c'], extraMode=q['m'])]
    if w == 'size':
        return [l.size, list(l.keys())]
    if w == 'f':
        return plain(l.f[B.py_index(q['ix'])])
    if w == 'i':
        return B.num(l.i[B.py_index(q['ix'])])
    if w == 'use':
        idx = st.getCanonicalIndex(q['c'], extraMode=q['m'])
        v = l(cs.DM(vec))
        got = float(v[idx])
        v[idx] = -7
        return [got, B.flat(v.cat).tolist(), plain(l.f[idx])]
    if w == 'read':
        return B.num(l(cs.DM(vec))[B.py_index(q['ix'])])
    if w == 'sym':
        if not hasattr(l, 'cat'):
            return B.num(ce.struct_SX(l, data=cs.SX(cs.DM(vec)))[B.py_index(q['ix'])])
        return B.num(l[B.py_index(q['ix'])], (l.cat, cs.DM(vec)))
    raise KeyError(w)


# -- what the declaration says --------------------------------------------------------

def canon(root, c, m):
    l = root.leaves[root.owner[c]]
    i, j = l.entry.nz[c - l.off]
    return list(l.path) + ([] if m == 0 else [i + j * l.entry.shape[0]] if m == 1 else [i, j])


def label(t):
    return '[' + ','.join(map(str, t)) + ']'


def nested(m):
    if isinstance(m, list):
        return [nested(x) for x in m]
    if isinstance(m, dict):
        return {k: nested(v) for k, v in m.items()}
    return np.where(m < 0, 0, m).astype(float)


def expect(root, q, vec):
    w = q['w']
    n = root.size
    if w == 'canon':
        return [canon(root, c, q['m']) for c in range(n)]
    if w == 'labels':
        return [label(canon(root, c, q['m'])) for c in range(n)]
    if w == 'one':
        t = canon(root, q['c'], q['m'])
        return [t, label(t)]
    if w == 'size':
        return [n, root.keys]
    if w == 'f':
        return [int(x) for a in R.flat_cells(root, q['ix']) for x in a.flatten(order='F')]
    if w == 'i':
        return nested(R.get(root, q['ix'], raw=True))
    if w == 'use':
        after = list(vec)
        after[q['c']] = -7.0
        return [vec[q['c']], after, [q['c']]]
    def val(m):
        if isinstance(m, list):
            return [val(x) for x in m]
        if isinstance(m, dict):
            return {k: val(v) for k, v in m.items()}
        return np.array([[vec[c] if c >= 0 else 0.0 for c in row] for row in m]).reshape(m.shape)
    return val(R.get(root, q['ix']))


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and (a.size == b.size == 0 or a.shape == b.shape and (a == b).all())
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def run(plan, ctr):
    cfg = plan['cfg']
    pool = [B.mk_layout(s['spec'], s['kind']) for s in cfg['subs']]
    roots = [R.RStruct(d['spec']) for d in cfg['decls']]
    vecs = [[100.0 + i for i in range(r.size)] for r in roots]
    made = [B.mk_layout(d['spec'], d['kind'], None if cfg['fresh'] else pool) for d in cfg['decls']]

    def execute(op, ci, k):
        d = cfg['decls'][op['d']]
        if op['k'] == 'q':
            l = made[op['d']]
        elif op.get('bad'):
            ce.struct(B.mk_items(d['spec'], pool) + [object()])
            return 'accepted'
        else:
            l = B.mk_layout(d['spec'], d['kind'], pool)
        return [ask(l, q, vecs[op['d']]) for q in op['q']]

    sched, hist = run_clients(plan, execute)
    answered = 0

    def check(op, h, who):
        if op.get('bad'):
            if h['out'] == 'ok':
                raise Violation('accepted', 'an impossible declaration was accepted', **who)
            return 0
        if h['out'] == 'exc':
            if not h['fired']:
                raise Violation('error', '%s of declaration %d raised %s: %s' % (op['k'], op['d'], h['root'], h['emsg']), **who)
            ctr['cancelled ' + op['k']] += 1
            return 0
        for q, got in zip(op['q'], h['val']):
            want = expect(roots[op['d']], q, vecs[op['d']])
            if not same(want, got):
                raise Violation('layout', 'declaration %d, %s: got %s, the declaration says %s' % (op['d'], q, str(got)[:200], str(want)[:200]), **who)
            ctr['answer ' + q['w']] += 1
        return 1

    for h in hist:
        with judging(client=h['client'], op=h['op']):
            answered += check(plan['clients'][h['client']][h['op']], h, dict(client=h['client'], op=h['op']))
    # afterwards everything still answers, in the old declarations, the shared parts and new ones
    for j, d in enumerate(cfg['decls']):
        qs = [{'w': 'size'}, {'w': 'canon', 'm': 2}]
        for l in (made[j], B.mk_layout(d['spec'], d['kind'], pool)):
            try:
                h = {'out': 'ok', 'val': [ask(l, q, vecs[j]) for q in qs], 'fired': None}
            except Exception as e:
                h = {'out': 'exc', 'root': type(e).__name__, 'emsg': clean(e), 'fired': None}
            check({'k': 'final', 'd': j, 'q': qs}, h, {})
    for s, l in zip(cfg['subs'], pool):
        r = R.RStruct(s['spec'])
        for q in ({'w': 'size'}, {'w': 'labels', 'm': 1}):
            if not same(expect(r, q, []), ask(l, q, [])):
                raise Violation('layout', 'a shared nested structure changed')
    return sched, hist, answered > 1
