"""Seeded generators of structure declarations, power indices and right-hand sides."""
from . import refstruct as R

NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'x', 'y', 'z', 'pos', 'vel', 'q_1', 't']


def gen_leaf(rng, name, rich=True, wide=False):
    d = {'n': name, 'k': 'leaf', 'rep': []}
    r = rng.random()
    if wide and rng.random() < 0.4:
        n, m = rng.randint(4, 9), rng.randint(1, 8)
        if r < 0.4:
            d['shape'] = ['int', rng.randint(5, 70)]
        elif r < 0.6:
            d['shape'] = ['tup', n, m] if r < 0.5 else ['tup', m, n]
        elif r < 0.8 or not rich:
            cells = [[i, j] for i in range(n) for j in range(m)]
            d['shape'] = ['sp', n, m, sorted(rng.sample(cells, rng.randint(1, len(cells))))]
        else:
            d['shape'] = ['tup', n, n]
            d['symm'] = True
        return d
    if r < 0.25:
        d['shape'] = ['int', 1]
        if rng.random() < 0.5:
            d['noshape'] = True
    elif r < 0.5:
        d['shape'] = ['int', rng.randint(2, 4)]
    elif r < 0.55:
        d['shape'] = ['tup', rng.randint(1, 3)]
    elif r < 0.74:
        d['shape'] = ['tup', rng.randint(1, 3), rng.randint(1, 3)]
    elif r < 0.84:
        n, m = rng.randint(1, 3), rng.randint(1, 3)
        cells = [[i, j] for i in range(n) for j in range(m)]
        k = rng.randint(1, len(cells))
        d['shape'] = ['sp', n, m, sorted(rng.sample(cells, k))]
    elif r < 0.97 and rich:
        n = rng.choice([1, 2, 2, 3, 3])
        d['shape'] = ['tup', n, n]
        d['symm'] = True
    else:
        d['shape'] = ['int', rng.choice([0, 1, 2]) if rich else 2]
    return d


def gen_rep(rng, d, p=0.4, wide=False):
    if wide and rng.random() < 0.15:
        d['rep'] = rng.choice([[rng.randint(5, 14)], [rng.randint(2, 6), rng.randint(2, 5)], [rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)]])
    elif rng.random() < p:
        r = rng.random()
        if r < 0.65:
            d['rep'] = [rng.randint(1, 4)]
            if rng.random() < 0.3:
                d['replist'] = True
        elif r < 0.94:
            d['rep'] = [rng.randint(1, 3), rng.randint(1, 3)]
        else:
            d['rep'] = [rng.choice([0, 1])]
    return d


def gen_spec(rng, depth=2, rich=True, max_items=5, top=True, wide=False):
    names = rng.sample(NAMES, rng.randint(2 if top and rng.random() > 0.08 else 1, max_items))
    items = []
    flat = []
    i = 0
    while i < len(names):
        def one(nm):
            r = rng.random()
            if depth > 0 and r < (0.28 if not wide else 0.4):
                d = {'n': nm, 'k': 'struct', 'rep': [], 'struct': gen_spec(rng, depth - 1, rich, 3, False, wide),
                     'skind': rng.choice(['SX', 'MX', 'S'])}
            elif rich and depth > 0 and r < 0.38:
                a = gen_spec(rng, 0, False, 2, False)
                o = rng.random()
                ss = [a] if o < 0.25 else [a, gen_spec(rng, 0, False, 2, False)] if o < 0.6 else [a, a] if o < 0.8 else \
                    [a, rng.randint(1, 3)] if o < 0.9 else [rng.randint(1, 3), a]
                d = {'n': nm, 'k': 'ss', 'rep': [], 'ss': ss}
            else:
                d = gen_leaf(rng, nm, rich, wide)
            return gen_rep(rng, d, wide=wide)
        if i + 1 < len(names) and rng.random() < 0.22:
            k = min(len(names) - i, rng.choice([2, 2, 3]))
            g = [one(nm) for nm in names[i:i + k]]
            items.append({'group': g})
            flat += g
            i += k
        else:
            d = one(names[i])
            items.append(d)
            flat.append(d)
            i += 1
    spec = {'items': items}
    if rng.random() < 0.12 and not any('group' in it for it in items):
        o = [d['n'] for d in flat]
        rng.shuffle(o)
        if len(o) > 2 and rng.random() < 0.5:
            k = rng.randint(0, len(o) - 2)
            o = o[:k] + [[o[k], o[k + 1]]] + o[k + 2:]
        spec['order'] = o
    return spec


def spec_for(rng, max_size=48, min_size=1, **kw):
    if max_size >= 10 and kw.get('depth', 2) and rng.random() < 0.03:      # a large one
        max_size, kw = 300, dict(kw, depth=rng.choice([2, 3, 4]), max_items=rng.choice([3, 8, 14]), wide=True)
    for _ in range(50):
        s = gen_spec(rng, **kw)
        r = R.RStruct(s)
        if min_size <= r.size <= max_size:
            return s, r
    s = {'items': [{'n': 'a', 'k': 'leaf', 'shape': ['int', 2], 'rep': []}, {'n': 'b', 'k': 'leaf', 'shape': ['int', 1], 'rep': []}]}
    return s, R.RStruct(s)


# -- power indices -----------------------------------------------------------------

def _slice_atom(rng, n):
    if rng.random() < 0.5:
        return ['sl', None, None, None]
    a = rng.choice([None, 0, 1, -1, -2, n // 2])
    b = rng.choice([None, n, -1, n // 2, 1])
    c = rng.choice([None, None, None, 2, -1])
    if c == -1:
        return ['sl', None, None, -1]
    return ['sl', a, b, c]


def _dim_atom(rng, n, allow_empty=True):
    r = rng.random()
    if n == 0:
        return ['sl', None, None, None]
    if r < 0.5:
        return ['i', rng.randint(-n, n - 1)]
    if r < 0.8:
        return _slice_atom(rng, n)
    k = rng.randint(1, n)
    l = rng.sample(range(n), k)
    if rng.random() < 0.3:
        l = [x - n if rng.random() < 0.5 else x for x in l]
    return ['l', l]


def _safe_axis(rng, n):
    """index atoms for a matrix axis of length n >= 1"""
    r = rng.random()
    if r < 0.45:
        return ['i', rng.randint(-n, n - 1)]
    if r < 0.75:
        c = rng.choice([None, None, 2])
        lo = rng.randint(0, n - 1)
        hi = rng.randint(lo + 1, n)
        if rng.random() < 0.4:
            return ['sl', None, None, None]
        return ['sl', lo, hi, c]
    return ['l', sorted(rng.sample(range(n), rng.randint(1, n)))]


def gen_extra(rng, e, shape, for_set=False):
    """trailing matrix index of a leaf entry, [] for none"""
    if rng.random() < 0.5 or shape[0] == 0 or shape[1] == 0:
        return []
    if e is not None and e.ss is not None and rng.random() < 0.7:
        out = []
        for ax in range(min(2, len(e.ss))):
            s = e.ss[ax]
            if isinstance(s, int) or s.size == 0 or rng.random() < 0.25:
                out.append(['sl', None, None, None] if rng.random() < 0.5 else _safe_axis(rng, shape[ax]))
            else:
                nm = rng.choice(s.keys)
                ent = s.entries[nm]
                if ent.kind == 'leaf' and len(ent.nz) == ent.shape[0] * ent.shape[1] and not ent.symm and (not ent.rep or 0 not in ent.rep):
                    r = rng.random()
                    sub = [['s', nm]]
                    if r < 0.5:
                        out.append(['ds', nm])
                    elif r < 0.7:
                        out.append(['ixf', sub])
                    elif r < 0.85 and not ent.rep and ent.shape[1] == 1:
                        out.append(['ix', sub])
                    else:
                        out.append(['dl', [nm]] if not ent.rep else ['ixf', sub])
                else:
                    out.append(['sl', None, None, None])
        if len(e.ss) == 1:
            return out[:1]
        return out if len(out) == 2 else []
    if e is not None and e.symm:
        n = shape[0]
        if for_set and rng.random() < 0.15:
            return [_safe_axis(rng, n * n)]
        if for_set and rng.random() < 0.2:
            return [['i', rng.randint(-n, n - 1)], ['i', rng.randint(-n, n - 1)]]
        return [_safe_axis(rng, n), _safe_axis(rng, n)]
    r = rng.random()
    if not for_set and r < 0.06:
        return [['fn', rng.choice(['T', 'id'])]]
    if r < 0.5:
        n = shape[0] * shape[1]
        return [_safe_axis(rng, n)]
    return [_safe_axis(rng, shape[0]), _safe_axis(rng, shape[1])]


def gen_path(rng, root, st=None, for_set=False, nested=False, top_fn=True):
    """A valid power index from structure context."""
    st = st or root
    r = rng.random()
    atoms = []
    if r < 0.72 or not st.keys:
        nm = rng.choice(st.keys)
        e = st.entries[nm]
        return [['s', nm]] + gen_entry_path(rng, root, e, for_set)
    if r < 0.78:
        return [['...']]
    if r < 0.84:
        return [['{}']]
    if r < 0.89:
        return [['nd']]
    if r < 0.94:
        return [['set', rng.sample(st.keys, rng.randint(1, len(st.keys)))]]
    return [['names', rng.sample(st.keys, rng.randint(1, len(st.keys)))]]


def gen_entry_path(rng, root, e, for_set=False):
    atoms = []
    stop = False
    for n in e.rep:
        if rng.random() < 0.18:
            stop = True
            break
        atoms.append(_dim_atom(rng, n))
    if stop:
        return atoms
    if e.sub is not None:
        if rng.random() < 0.3 or not e.sub.keys:
            return atoms
        return atoms + gen_path(rng, root, e.sub, for_set, True)
    return atoms + gen_extra(rng, e, e.shape, for_set)


def add_fn(rng, root, atoms):
    """Insert a callable where its argument is a list of equally shaped matrices."""
    for pos in range(len(atoms)):
        sub = atoms[:pos] + [['fn', 'id']] + atoms[pos:]
        try:
            r = R.get(root, atoms)
        except R.ModelError:
            return atoms
    if not isinstance(r, list) or not r or not all(hasattr(x, 'shape') for x in r):
        return atoms
    if any(x.shape != r[0].shape or x.size == 0 for x in r):
        return atoms
    return [['fn', rng.choice(['first', 'last', 'hcat', 'vcat'])]] + atoms


BAD = 'bad'


def break_path(rng, root, atoms):
    """A small error in an index, or None; may still be acceptable."""
    a = [list(x) for x in atoms]
    r = rng.random()
    k = rng.randrange(len(a)) if a else 0
    if r < 0.15:
        return a[:k] + [rng.choice([['i', 0], ['sl', None, None, None], ['l', [0]], ['...'], ['{}'], ['s', 'nope']])] + a[k:]
    if r < 0.25:
        return a + [['i', 0]] * rng.choice([1, 2, 3])
    if r < 0.33:
        return a + [['s', rng.choice(root.keys + ['nope'])]]
    if not a:
        return None
    if a[k][0] == 's':
        a[k] = ['s', rng.choice(['nope', a[k][1] + '_', a[k][1].upper()])]
    elif a[k][0] in ('names', 'set'):
        l = list(a[k][1])
        l.insert(rng.randint(0, len(l)), 'nope')
        a[k] = [a[k][0], l]
    elif a[k][0] == 'i':
        a[k] = ['i', rng.choice([-1, 1]) * rng.choice([70, 500])]
    elif a[k][0] == 'l' and a[k][1]:
        l = list(a[k][1])
        l[rng.randrange(len(l))] = rng.choice([-1, 1]) * rng.choice([70, 500])
        a[k] = ['l', l]
    else:
        return None
    return a


def bad_path(rng, root, atoms):
    """Turn a valid index into one that must be rejected."""
    if rng.random() < 0.6 and not any(x[0] == 'fn' for x in atoms):
        b = break_path(rng, root, atoms)
        try:
            if b is not None:
                R.get(root, b)
        except (R.ModelError, IndexError):
            return b
    r = rng.random()
    if r < 0.4:
        return [['s', 'nope']] + atoms[1:]
    cands = [nm for nm in root.keys if root.entries[nm].rep]
    if cands and r < 0.8:
        nm = rng.choice(cands)
        n = root.entries[nm].rep[0]
        return [['s', nm], ['i', rng.choice([n, n + 3, -n - 1, -n - 4])]]
    leafs = [nm for nm in root.keys if root.entries[nm].sub is None and not root.entries[nm].rep
             and root.entries[nm].ss is None]
    if leafs:
        nm = rng.choice(leafs)
        e = root.entries[nm]
        return [['s', nm], ['i', e.shape[0] + 5], ['i', 0]]
    return [['s', 'nope']]


class Values(object):
    """Unique values so that each read is attributable to one write."""

    def __init__(self, start=1000, rng=None):
        self.n = start
        self.extremes = {}
        if rng is not None and rng.random() < 0.06:      # one value of the run is infinite, one huge, one tiny
            for v in (float('inf'), -1e300, 3e-310):
                self.extremes[start + rng.randint(1, 40)] = v

    def __call__(self):
        self.n += 1
        return self.extremes.get(self.n, self.n + (0.0, 0.1, 1 / 3.0, 2.0 ** -40)[self.n % 4])


class _GenDisp(object):
    """Builds a payload for each target; collects nothing else."""

    def __init__(self, rng, root, vals, kind):
        self.rng, self.root, self.vals, self.kind = rng, root, vals, kind

    def leafp(self, path, extra, e):
        rng = self.rng
        l = self.root.leafmap.get(path)
        if l is not None:
            arr = R.apply_extra(l.cells(), extra, e)
        else:
            under = self.root.under(path)
            arr = R.np.array([f for x in under for f in x.flats], dtype=int).reshape((-1, 1))
            arr = R.apply_extra(arr, extra, e)
        return self.matp(arr, e is not None and e.symm and l is not None, len(extra) == 1)

    def matp(self, arr, symm=False, linear=False):
        rng = self.rng
        st = rng.choice(['DM', 'DM', 'np', 'own'])
        if rng.random() < 0.3 or arr.size == 0:
            v = self.vals()
            return ['num', v] if rng.random() < 0.7 else ['num', v, 'DM']
        r, c = arr.shape
        m = R.np.array([self.vals() for _ in range(r * c)]).reshape((r, c))
        if symm:
            if linear:
                return ['num', self.vals()]
            per = {}
            m = R.np.array([[per.setdefault(int(x), self.vals()) for x in row] for row in arr])
            st = 'DM'
        elif 1 in (r, c) and r != c and rng.random() < 0.15:
            m = m.T
        vals = [float(x) for x in m.flatten(order='F')]
        if m.shape[1] == 1 and rng.random() < 0.2 and not symm:
            st = 'np1'
        return ['mat', m.shape[0], m.shape[1], vals, st]


def gen_payload(rng, root, atoms, vals, kind='DM'):
    """A right-hand side matching the index: scalars, matrices, lists, repeated, dicts."""
    g = _GenDisp(rng, root, vals, kind)

    def uniform(dims_atoms_payloads):
        return None

    def struct(st, path, at):
        if not at:
            return g.leafp(path, [], None)
        a, rest = at[0], at[1:]
        k = a[0]
        if k == 's':
            e = st.entries[a[1]]
            return entry(e, e.rep, path + (a[1],), rest)
        if k in ('...', 'names'):
            names = st.keys if k == '...' else a[1]
            if rng.random() < 0.25:
                return ['num', vals()]
            return ['list', [entry(st.entries[n], st.entries[n].rep, path + (n,), rest) for n in names]]
        if k in ('{}', 'nd', 'set'):
            names = list(st.entries) if k != 'set' else list(a[1])
            if k == 'set' and rng.random() < 0.3:
                extra_names = [n for n in st.entries if n not in names]
            else:
                extra_names = []
            if rng.random() < 0.25:
                return ['num', vals()]
            if k != 'set' and rng.random() < 0.5:
                names = rng.sample(names, rng.randint(1, len(names))) if names else names
            r = rest if k != 'nd' else [a]
            d = {n: entry(st.entries[n], st.entries[n].rep, path + (n,), r) for n in names}
            for n in extra_names:
                d[n] = ['num', vals()]
            return ['dict', d]
        if k == 'fn':
            r = R.get(root, at, raw=True)
            return g.matp(r)
        raise KeyError(k)

    def entry(e, dims, path, at):
        if not at:
            if dims:
                at = [['sl', None, None, None]] * len(dims)
            else:
                return g.leafp(path, [], e)
        a = at[0]
        if not dims:
            if e.sub is None:
                return g.leafp(path, [] if a[0] == 'nd' else at, e)
            return struct(e.sub, path, at)
        n = dims[0]
        k = a[0]
        if k == 'i':
            return entry(e, dims[1:], path + (R._canon(a[1], n),), at[1:])
        rest = [a] if k == 'nd' else at[1:]
        idx = list(range(n)) if k == 'nd' else R._dim_list(a, n)
        if not idx:
            return ['num', vals()]
        r = rng.random()
        if r < 0.2:
            return ['num', vals()]
        if r < 0.4:
            return ['rep', entry(e, dims[1:], path + (R._canon(idx[0], n),), rest)]
        # the k-th element of the dimension takes the k-th element of the list
        top = max(max(idx) + 1, -min(idx), 1)
        if rng.random() < 0.3:
            top = max(top, n)
        out = [['num', vals()] for _ in range(top)]
        for i in idx:
            out[i] = entry(e, dims[1:], path + (R._canon(i, n),), rest)
        return ['list', out]

    return struct(root, (), atoms)


def spoil_payload(rng, p, depth=0):
    """Make one leaf of a right-hand side unacceptable."""
    k = p[0]
    if k == 'list' and p[1]:
        q = [list(x) for x in p[1]]
        if rng.random() < 0.15:
            return ['list', q[:-1]]
        i = rng.randrange(len(q))
        q[i] = spoil_payload(rng, q[i], depth + 1)
        return ['list', q]
    if k == 'dict' and p[1]:
        d = dict(p[1])
        if rng.random() < 0.2:
            d['nope'] = ['num', -1.0]
            return ['dict', d]
        n = rng.choice(sorted(d))
        d[n] = spoil_payload(rng, d[n], depth + 1)
        return ['dict', d]
    if k == 'rep':
        return ['rep', spoil_payload(rng, p[1], depth + 1)]
    r = rng.random()
    if r < 0.4:
        return ['bad', rng.choice(['str', 'none', 'obj'])]
    if k in ('mat', 'smat') and p[1] * p[2] > 1 and r < 0.7:      # as many elements in another shape
        if rng.random() < 0.3:
            n, m = p[2], p[1]
        else:
            n = rng.choice([d for d in range(1, p[1] * p[2] + 1) if p[1] * p[2] % d == 0])
            m = p[1] * p[2] // n
        if [n, m] != [p[1], p[2]]:
            return ['mat', n, m, [-1.0 - i for i in range(n * m)], 'DM']
    n, m = 11, 13      # matches no generated leaf in any orientation
    return ['mat', n, m, [-1.0] * (n * m), 'DM']


def gen_vc(rng, root, vals):
    """(index, right-hand side) for an assembled structure: whole top-level fields."""
    def leafp(e, sub):
        if sub is not None:
            return ['mat', sub.size, 1, [vals() for _ in range(sub.size)], rng.choice(['own', 'DM'])]
        r, c = e.shape
        if len(e.nz) == r * c and not (e.symm and r > 1):
            return ['mat', r, c, [vals() for _ in range(r * c)], rng.choice(['own', 'DM'])]
        return ['smat', r, c, [list(x) for x in e.nz], [vals() for _ in e.nz]]

    def dims_payload(e, dims, atoms):
        if not dims:
            return leafp(e, e.sub)
        n = dims[0]
        a = atoms[0] if atoms else ['sl', None, None, None]
        if a[0] == 'i':
            return dims_payload(e, dims[1:], atoms[1:])
        idx = R._dim_list(a, n)
        if not idx:
            return ['list', []]
        if rng.random() < 0.2:
            return ['rep', dims_payload(e, dims[1:], atoms[1:])]
        top = max(max(idx) + 1, -min(idx), 1)
        out = [['num', vals()] for _ in range(top)]
        for i in idx:
            out[i] = dims_payload(e, dims[1:], atoms[1:])
        return ['list', out]

    def entry(e):
        atoms = []
        for n in e.rep:
            if rng.random() < 0.3:
                break
            atoms.append(_dim_atom(rng, n))
        return atoms, dims_payload(e, e.rep, atoms)

    r = rng.random()
    if r < 0.7:
        nm = rng.choice(root.keys)
        a, p = entry(root.entries[nm])
        return [['s', nm]] + a, p
    if r < 0.8:
        return [['...']], ['list', [dims_payload(root.entries[n], root.entries[n].rep, []) for n in root.keys]]
    names = rng.sample(root.keys, rng.randint(1, len(root.keys)))
    if r < 0.9:
        return [['names', names]], ['list', [dims_payload(root.entries[n], root.entries[n].rep, []) for n in names]]
    return [rng.choice([['{}'], ['set', names]])], ['dict', {n: dims_payload(root.entries[n], root.entries[n].rep, []) for n in names}]
