"""Executable reference model of structures: a flat list of numbers plus a name tree.

Written from the documented meaning of entries and power indices; it never imports
casadi_extras.  Cells are flat positions; -1 marks a structural zero.
"""
import numpy as np


class ModelError(Exception):
    """The operation must be rejected."""


class REntry(object):
    def __init__(self, d):
        self.d = d
        self.name = d['n']
        self.rep = list(d.get('rep', []))
        self.kind = d['k']
        self.sub = None
        self.ss = None
        self.symm = bool(d.get('symm'))
        if self.kind == 'struct':
            self.sub = RStruct(d['struct'])
        elif self.kind == 'ss':
            self.ss = [x if isinstance(x, int) else RStruct(x) for x in d['ss']]
            r = [x if isinstance(x, int) else x.size for x in self.ss]
            r = r + [1] * (2 - len(r))
            self.shape = (r[0], r[1])
            self.nz = [(i, j) for j in range(r[1]) for i in range(r[0])]
        else:
            sh = d['shape']
            if sh[0] == 'int':
                self.shape = (sh[1], 1)
                self.nz = [(i, 0) for i in range(sh[1])]
            elif sh[0] == 'tup':
                self.shape = (sh[1], sh[2] if len(sh) > 2 else 1)
                self.nz = [(i, j) for j in range(self.shape[1]) for i in range(self.shape[0])]
            else:
                self.shape = (sh[1], sh[2])
                self.nz = sorted([(i, j) for i, j in sh[3]], key=lambda p: (p[1], p[0]))
            if self.symm:
                self.orig = list(self.nz)
                self.nz = [(i, j) for i, j in self.nz if i <= j]


class Leaf(object):
    def __init__(self, path, entry, off):
        self.path = path
        self.entry = entry
        self.off = off
        self.n = len(entry.nz)
        self.flats = list(range(off, off + self.n))

    def upper(self):
        a = np.full(self.entry.shape, -1, dtype=int)
        for k, (i, j) in enumerate(self.entry.nz):
            a[i, j] = self.off + k
        return a

    def cells(self):
        a = self.upper()
        if self.entry.symm:
            for k, (i, j) in enumerate(self.entry.nz):
                a[j, i] = self.off + k
        return a


def _indices(dims):
    if not dims:
        return [()]
    return [(i,) + t for i in range(dims[0]) for t in _indices(dims[1:])]


class RStruct(object):
    def __init__(self, spec):
        self.spec = spec
        self.entries = {}
        self.order = []
        for it in spec['items']:
            if 'group' in it:
                g = [REntry(e) for e in it['group']]
                for e in g:
                    self.entries[e.name] = e
                self.order.append(tuple(e.name for e in g))
            else:
                e = REntry(it)
                self.entries[e.name] = e
                self.order.append(e.name)
        if spec.get('order') is not None:
            self.order = [tuple(o) if isinstance(o, list) else o for o in spec['order']]
        self.keys = []
        for o in self.order:
            self.keys += list(o) if isinstance(o, tuple) else [o]
        self.leaves = []
        self.leafmap = {}
        off = 0
        for path, e in self._paths(()):
            l = Leaf(path, e, off)
            off += l.n
            self.leaves.append(l)
            self.leafmap[path] = l
        self.size = off
        self.owner = [i for i, l in enumerate(self.leaves) for _ in l.flats]

    def _chunks(self, e, prefix):
        firsts = [None] if not e.rep else list(range(e.rep[0]))
        out = []
        for f in firsts:
            idx = [()] if f is None else [(f,) + t for t in _indices(e.rep[1:])]
            chunk = []
            for t in idx:
                p = prefix + (e.name,) + t
                if e.sub is not None:
                    chunk += list(e.sub._paths(p))
                else:
                    chunk.append((p, e))
            out.append(chunk)
        return out

    def _paths(self, prefix):
        out = []
        for o in self.order:
            if isinstance(o, tuple):
                cs = [self._chunks(self.entries[n], prefix) for n in o]
                for k in range(max([len(c) for c in cs] + [0])):
                    for c in cs:
                        if k < len(c):
                            out += c[k]
            else:
                for c in self._chunks(self.entries[o], prefix):
                    out += c
        return out

    def under(self, path):
        n = len(path)
        return [l for l in self.leaves if l.path[:n] == path]


# -- power index atoms ---------------------------------------------------------
# ['s',name] ['i',k] ['sl',a,b,c] ['l',[ints]] ['...'] ['{}'] ['set',[names]]
# ['names',[names]] ['nd'] ['fn',name] ['ds',name] ['dl',[names]] ['ix',[atoms]] ['ixf',[atoms]]

def _dim_list(a, n):
    if a[0] == 'sl':
        return list(range(*slice(a[1], a[2], a[3]).indices(n)))
    return list(a[1])


def _canon(i, n):
    return i + n if i < 0 else i


class Walker(object):
    """Follows a power index; dispatch(payload, path, extra, entry) at each target."""

    def __init__(self, root, unpack=None, errs=None):
        self.root = root
        self._unpack = unpack or (lambda p, i: None)
        self.errs = errs

    def unpack(self, p, i):
        try:
            return self._unpack(p, i)
        except ModelError as e:
            if self.errs is None:
                raise
            self.errs.append(str(e))
            return 'bad'

    def fail(self, msg):
        if self.errs is None:
            raise ModelError(msg)
        self.errs.append(msg)

    def struct(self, st, path, atoms, payload, disp):
        if not atoms:
            return disp(payload, path, [], None)
        a, rest = atoms[0], atoms[1:]
        k = a[0]
        if k == 's':
            return self._e(st, a[1], path, rest, payload, disp)
        if k == '...':
            return [self._e(st, n, path, rest, self.unpack(payload, i), disp) for i, n in enumerate(st.keys)]
        if k in ('{}', 'nd'):
            r = rest if k == '{}' else [a]
            if isinstance(payload, dict):
                return {n: self._e(st, n, path, r, v, disp) for n, v in payload.items()}
            return {n: self._e(st, n, path, r, payload, disp) for n in st.entries}
        if k == 'set':
            if isinstance(payload, dict):
                return {n: self._e(st, n, path, rest, v, disp) for n, v in payload.items() if n in a[1]}
            return {n: self._e(st, n, path, rest, payload, disp) for n in a[1]}
        if k == 'names':
            return [self._e(st, n, path, rest, self.unpack(payload, i), disp) for i, n in enumerate(a[1])]
        if k == 'fn':
            return disp.outer(payload, a[1], self.struct(st, path, rest, payload, disp.inner()))
        return self.fail('bad index %r in struct context' % (a,))

    def _e(self, st, name, path, atoms, payload, disp):
        if name not in st.entries:
            return self.fail('unknown key')
        e = st.entries[name]
        return self.entry(e, e.rep, path + (name,), atoms, payload, disp)

    def entry(self, e, dims, path, atoms, payload, disp):
        if not atoms:
            if dims:
                atoms = [['sl', None, None, None]] * len(dims)
            else:
                return disp(payload, path, [], e)
        a = atoms[0]
        if not dims:
            if e.sub is None:
                return disp(payload, path, atoms, e)
            return self.struct(e.sub, path, atoms, payload, disp)
        n = dims[0]
        k = a[0]
        if k == 'i':
            c = _canon(a[1], n)
            return self.entry(e, dims[1:], path + (c,), atoms[1:], payload, disp)
        if k in ('sl', 'l'):
            return [self.entry(e, dims[1:], path + (_canon(i, n),), atoms[1:], self.unpack(payload, i), disp)
                    for i in _dim_list(a, n)]
        if k == 'nd':
            return [self.entry(e, dims[1:], path + (i,), [a], self.unpack(payload, i), disp) for i in range(n)]
        if k == 'fn':
            return disp.outer(payload, a[1], self.entry(e, dims, path, atoms[1:], payload, disp.inner()))
        return self.fail('bad index %r in list context' % (a,))


def _axis(a, n, ss):
    """List of positions selected on an axis of length n (None: whole-matrix linear)."""
    k = a[0]
    if k == 'i':
        i = a[1]
        if i < -n or i >= n:
            raise ModelError('out of range')
        return [_canon(i, n)]
    if k == 'sl':
        return list(range(*slice(a[1], a[2], a[3]).indices(n)))
    if k == 'l':
        for i in a[1]:
            if i < -n or i >= n:
                raise ModelError('out of range')
        return [_canon(i, n) for i in a[1]]
    if k in ('s', 'names'):                     # plain strings are delayed indices here
        k = 'ds' if k == 's' else 'dl'
    if k in ('ds', 'dl', 'ix', 'ixf'):
        if ss is None or isinstance(ss, int):
            raise ModelError('no shapestruct on this axis')
        sub = ([['s', a[1]]] if k == 'ds' else [['names', a[1]]] if k == 'dl' else a[1])
        cells = flat_cells(ss, sub)
        out = []
        for c in cells:
            out += [int(x) for x in c.flatten(order='F')]
        return out
    raise ModelError('bad extra index %r' % (a,))


def apply_extra(arr, extra, e):
    """Sub-select an array of cells by the trailing matrix index."""
    if not extra:
        return arr
    if extra[0][0] == 'nd':
        return arr
    if extra[0][0] == 'fn':
        return FUNCS[extra[0][1]](apply_extra(arr, extra[1:], e))
    if len(extra) > 2:
        raise ModelError('too many indices')
    ss = e.ss if e is not None else None
    if len(extra) == 1:
        pos = _axis(extra[0], arr.size if extra[0][0] in ('i', 'sl', 'l') else arr.size,
                    ss[0] if ss else None)
        f = arr.flatten(order='F')
        for p in pos:
            if p >= f.size:
                raise ModelError('out of range')
        v = f[pos] if pos else f[:0]
        return v.reshape((1, -1)) if (arr.shape[0] == 1 and arr.shape[1] != 1) else v.reshape((-1, 1))
    r = _axis(extra[0], arr.shape[0], ss[0] if ss else None)
    c = _axis(extra[1], arr.shape[1], ss[1] if ss and len(ss) > 1 else None)
    return arr[np.ix_(r, c)] if r and c else np.zeros((len(r), len(c)), dtype=int)


FUNCS = {
    'first': lambda l: l[0],
    'last': lambda l: l[-1],
    'rev': lambda l: l[::-1],
    'hcat': lambda l: np.hstack(l),
    'vcat': lambda l: np.vstack(l),
    'T': lambda a: a.T,
    'id': lambda a: a,
}


class GetDisp(object):
    """Returns arrays of cells; symmetric leaves read as full symmetric matrices."""

    def __init__(self, root, raw=False):
        self.root = root
        self.raw = raw

    def inner(self):
        return self

    def outer(self, payload, fn, r):
        return FUNCS[fn](r)

    def __call__(self, payload, path, extra, e):
        l = self.root.leafmap.get(path)
        if l is not None:
            arr = l.upper() if self.raw else l.cells()
        else:
            if not path or (e is None and not self.root.under(path)):
                if not self.known(path):
                    raise ModelError('no such index')
            under = self.root.under(path)
            if not under:
                raise ModelError('no such index')
            arr = np.array([f for l in under for f in l.flats], dtype=int).reshape((-1, 1))
        return apply_extra(arr, extra, e)

    def known(self, path):
        return bool(path) and bool(self.root.under(path))


def get(root, atoms, raw=False):
    return Walker(root).struct(root, (), atoms, None, GetDisp(root, raw))


def _flatten(x):
    if isinstance(x, list):
        return [z for y in x for z in _flatten(y)]
    if isinstance(x, dict):
        return [z for y in x.values() for z in _flatten(y)]
    return [x]


def flat_cells(root, atoms):
    return _flatten(get(root, atoms, raw=True))


def cells_of(x):
    return _flatten(x)


# -- assignment -------------------------------------------------------------------
# payload JSON: ['num',v] ['mat',r,c,[colmajor],style] ['list',[..]] ['rep',p] ['dict',{..}] ['bad',what]

class SM(object):
    """Sparse right-hand side: shape, pattern (column major) and values."""

    def __init__(self, r, c, pat, vals):
        self.shape = (r, c)
        self.pat = [tuple(x) for x in pat]
        self.vals = vals
        self.full = np.zeros((r, c))
        for (i, j), v in zip(self.pat, vals):
            self.full[i, j] = v


class Rep(object):
    def __init__(self, e):
        self.e = e


def _dec(p):
    k = p[0]
    if k == 'list':
        return [_dec(q) for q in p[1]]
    if k == 'dict':
        return {n: _dec(q) for n, q in p[1].items()}
    if k == 'rep':
        return Rep(_dec(p[1]))
    if k == 'mat':
        return np.array(p[3], dtype=float).reshape((p[1], p[2]), order='F')
    if k == 'smat':
        return SM(p[1], p[2], p[3], p[4])
    if k == 'num':
        return np.array([[float(p[1])]])
    return 'bad'


def _unpack(p, i):
    if isinstance(p, list):
        if i >= len(p) or i < -len(p):
            raise ModelError('rhs out of range')
        return p[i]
    if isinstance(p, Rep):
        return p.e
    return p


# What a list becomes depends on its elements and the matrix type, and CasADi 3.6.7 damages the heap
# over a list of matrices, so generators keep lists away from leaves.
LISTED = 'list for a matrix'


class SetDisp(object):
    """Collects atomic groups [(cell, value), ...], one per target; bad targets go to errs."""

    def __init__(self, root, groups, errs):
        self.root = root
        self.groups = groups
        self.errs = errs

    def inner(self):
        return GetDisp(self.root, raw=True)

    def outer(self, payload, fn, r):
        try:
            arr = FUNCS[fn](r)
            if not isinstance(arr, np.ndarray):
                raise ModelError('callable must produce an index matrix')
            self._assign(arr, payload)
        except ModelError as e:
            self.errs.append(str(e))

    def _assign(self, arr, payload, exact=False):
        if isinstance(payload, SM):
            payload = payload.full
        if isinstance(payload, list):
            raise ModelError(LISTED)
        if not isinstance(payload, np.ndarray):
            raise ModelError('cannot convert payload')
        if payload.shape == (1, 1) and arr.size == 0:
            self.groups.append([])
            return
        if payload.shape == (1, 1):
            v = np.broadcast_to(payload, arr.shape)
        elif payload.shape == arr.shape:
            v = payload
        elif payload.T.shape == arr.shape and 1 in arr.shape and not exact:
            v = payload.T
        else:
            raise ModelError('shape mismatch')
        g = []
        for idx in np.ndindex(*arr.shape):
            if arr[idx] >= 0:
                g.append((int(arr[idx]), float(v[idx])))
        self.groups.append(g)

    def __call__(self, payload, path, extra, e):
        try:
            l = self.root.leafmap.get(path)
            if l is None:
                under = self.root.under(path)
                if not under:
                    raise ModelError('no such index')
                arr = np.array([f for x in under for f in x.flats], dtype=int).reshape((-1, 1))
                self._assign(apply_extra(arr, extra, e), payload)
            else:
                self._assign(apply_extra(l.cells(), extra, e), payload, e is not None and e.symm)
        except ModelError as e:
            self.errs.append(str(e))


def assign(root, atoms, payload, base=()):
    """Returns (groups, errs): atomic writes of the valid targets, reasons for rejection."""
    groups, errs = [], []
    w = Walker(root, _unpack, errs)
    try:
        w.struct(root, base, atoms, _dec(payload), SetDisp(root, groups, errs))
    except ModelError as e:
        errs.append(str(e))
    return groups, errs


class VCDisp(SetDisp):
    """Assembled structures take whole top-level fields with exactly their pattern."""

    def outer(self, payload, fn, r):
        self.errs.append('no callables')

    def __call__(self, payload, path, extra, e):
        if extra:
            self.errs.append('no matrix-level index')
            return
        if e is None or path not in self.root.topmap:
            self.errs.append('not a top-level field')
            return
        l = self.root.leafmap.get(path)
        if l is None:
            flats = [f for x in self.root.under(path) for f in x.flats]
            shape, pat = (len(flats), 1), [(i, 0) for i in range(len(flats))]
        else:
            flats, shape, pat = l.flats, e.shape, e.nz
        if isinstance(payload, SM):
            ok = payload.shape == shape and payload.pat == list(pat)
            vals = payload.vals
        elif isinstance(payload, np.ndarray):
            ok = payload.shape == shape and len(pat) == shape[0] * shape[1]
            vals = payload.flatten(order='F')
        else:
            ok = False
        if not ok:
            self.errs.append('pattern mismatch')
            return
        self.groups.append([(f, float(v)) for f, v in zip(flats, vals)])


def assign_vc(root, atoms, payload):
    if not hasattr(root, 'topmap'):
        root.topmap = set((e.name,) + t for e in root.entries.values() for t in _indices(e.rep))
    groups, errs = [], []
    w = Walker(root, _unpack, errs)
    try:
        w.struct(root, (), atoms, _dec(payload), VCDisp(root, groups, errs))
    except ModelError as e:
        errs.append(str(e))
    return groups, errs


def compare(model, actual, where=''):
    """Match nested cells against nested numeric results.

    actual: nested list/dict of 2-D float arrays.  Returns [(cell, value)]; raises
    AssertionError text via ValueError when containers or shapes differ.
    """
    if isinstance(model, list):
        if not isinstance(actual, list) or len(actual) != len(model):
            raise ValueError('%s: expected a list of %d, got %s' % (where, len(model), _desc(actual)))
        out = []
        for i, (m, a) in enumerate(zip(model, actual)):
            out += compare(m, a, '%s[%d]' % (where, i))
        return out
    if isinstance(model, dict):
        if not isinstance(actual, dict) or set(actual) != set(model):
            raise ValueError('%s: expected keys %s, got %s' % (where, sorted(model), _desc(actual)))
        out = []
        for k in model:
            out += compare(model[k], actual[k], '%s[%s]' % (where, k))
        return out
    if not isinstance(actual, np.ndarray) or actual.shape != model.shape:
        if not (isinstance(actual, np.ndarray) and actual.size == 0 and model.size == 0):
            raise ValueError('%s: expected a %dx%d matrix, got %s' % ((where,) + model.shape + (_desc(actual),)))
        return []
    out = []
    for idx in np.ndindex(*model.shape):
        c = int(model[idx])
        v = float(actual[idx])
        if c < 0:
            if v != 0.0:
                raise ValueError('%s%s: structural zero reads %r' % (where, list(idx), v))
        else:
            out.append((c, v))
    return out


def _desc(a):
    if isinstance(a, np.ndarray):
        return 'a %s matrix' % 'x'.join(map(str, a.shape))
    if isinstance(a, list):
        return 'a list of %d' % len(a)
    if isinstance(a, dict):
        return 'a dict with %s' % sorted(a)
    return repr(a)[:80]
