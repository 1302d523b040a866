"""Shared pieces of the structure scenarios: executing operations and judging histories."""
import builtins
import casadi as cs
from . import build as B, refstruct as R, lin
from .core import Violation


class Boom(Exception):
    """Raised by a failing user callable."""


RAISES = ['Boom', 'KeyError', 'IndexError', 'TypeError', 'ValueError', 'AttributeError', 'RuntimeError', 'NotImplementedError',
          'StopIteration', 'LookupError', 'ArithmeticError', 'OSError', 'AssertionError']


def user_error(name):
    return (Boom if name == 'Boom' else getattr(builtins, name))('user code fails')


def assign_model(root, kind, atoms, payload):
    return R.assign_vc(root, atoms, payload) if kind == 'VC' else R.assign(root, atoms, payload)


def pretty(atoms):
    return '[' + ', '.join(str(B.py_atom(a)) if a[0] not in ('fn', 'nd', 'ix', 'ixf') else str(a) for a in atoms) + ']'


def spoil_in_place(r):
    if isinstance(r, (list, tuple)):
        for x in r:
            spoil_in_place(x)
    elif isinstance(r, dict):
        for x in r.values():
            spoil_in_place(x)
    elif isinstance(r, (cs.DM, cs.SX, cs.MX)) and r.nnz() > 0:
        r[:, :] = -5


class Obj(object):
    """One structure under test with its model."""

    def __init__(self, s, root, kind, vals, env=None):
        self.s, self.root, self.kind, self.init, self.env = s, root, kind, list(vals), env

    def run(self, op):
        k = op['k']
        if k == 'get':
            hook = boomer(op)
            return B.num(self.s[B.py_index(op['ix'], hook)], self.env)
        if k == 'set':
            hook = boomer(op)
            self.s[B.py_index(op['ix'], hook)] = B.py_payload(op['v'], self.kind)
            return None
        if k == 'iso':
            r = self.s[B.py_index(op['ix'])]
            v = B.num(r, self.env)
            spoil_in_place(r)
            return v
        if k == 'cat':
            return B.flat(self.s.cat, self.env)
        if k == 'cast':
            return B.flat(cs.vertcat(self.s, cs.DM([1.0])), self.env)[:-1]
        if k == 'keys':
            return (list(self.s.keys()), self.s.size)
        raise KeyError(k)


def boomer(op):
    if not op.get('boom'):
        return None

    def hook():
        raise user_error(op['boom'])
    return hook


def judge(objs, plan, hist, counters, allow_error=None):
    """Compare a finished history with the model; raises Violation."""
    leafops = {}

    def op_of(h):
        return plan['clients'][h['client']][h['op']] if h['client'] >= 0 else h['opd']

    for h in hist:
        op = op_of(h)
        o = objs[op.get('s', 0)]
        k = op['k']
        reads, writes, opt = [], [], False
        who = dict(client=h['client'], op=h['op'])
        if k in ('get', 'iso'):
            merr = None
            try:
                m = R.get(o.root, op['ix'])
            except (R.ModelError, IndexError) as e:
                merr = str(e)
            if op.get('boom'):
                merr = merr or 'user callable raises'
            if h['out'] == 'ok':
                if merr is not None:
                    raise Violation('accepted', 'reading %s returned normally but must be rejected: %s' % (pretty(op['ix']), merr), **who)
                try:
                    reads = R.compare(m, h['val'])
                except ValueError as e:
                    raise Violation('shape', 'reading %s: %s' % (pretty(op['ix']), e), **who)
                counters['reads'] += 1
            elif merr is None and not h['fired']:
                raise Violation('error', 'reading %s raised %s: %s' % (pretty(op['ix']), h['root'], h['emsg']), **who)
        elif k in ('cat', 'cast'):
            if h['out'] == 'ok':
                if len(h['val']) != o.root.size:
                    raise Violation('shape', '%s has %d elements instead of %d' % (k, len(h['val']), o.root.size), **who)
                reads = [(i, float(v)) for i, v in enumerate(h['val'])]
                counters['reads'] += 1
            elif not h['fired']:
                raise Violation('error', '%s raised %s: %s' % (k, h['root'], h['emsg']), **who)
        elif k == 'keys':
            if h['out'] == 'ok':
                if h['val'] != (o.root.keys, o.root.size):
                    raise Violation('keys', 'keys/size %r instead of %r' % (h['val'], (o.root.keys, o.root.size)), **who)
            elif not h['fired']:
                raise Violation('error', 'keys raised %s: %s' % (h['root'], h['emsg']), **who)
        elif k == 'set':
            groups, errs = assign_model(o.root, o.kind, op['ix'], op['v'])
            if op.get('boom'):
                errs = errs + ['user callable raises']
            if h['out'] == 'ok':
                if errs:
                    raise Violation('accepted', 'assigning %s returned normally but must be rejected: %s' % (pretty(op['ix']), errs[0]), **who)
                counters['writes'] += 1
            else:
                opt = True
                if not errs and not h['fired']:
                    raise Violation('error', 'assigning %s raised %s: %s' % (pretty(op['ix']), h['root'], h['emsg']), **who)
                counters['failed writes'] += 1
            if op.get('boom'):
                groups = []
            writes = [w for g in groups for w in g]
        per = {}
        for c, v in reads:
            per.setdefault(o.root.owner[c], [{}, []])[1].append((c, v))
        for c, v in writes:
            per.setdefault(o.root.owner[c], [{}, []])[0][c] = v
        for l, (w, r) in per.items():
            leafops.setdefault((op.get('s', 0), l), []).append(
                {'inv': h['inv'], 'ret': h['ret'], 'w': w or None, 'r': r or None, 'opt': opt,
                 'client': h['client'], 'op': h['op']})
    for (si, l), ops in sorted(leafops.items()):
        o = objs[si]
        leaf = o.root.leaves[l]
        r = lin.check_leaf({f: float(o.init[f]) for f in leaf.flats}, ops)
        counters['field histories'] += 1
        if r is lin.UNDECIDED:
            counters['undecided field histories'] += 1
        elif r is not None:
            raise Violation('history', 'structure %d field %s: %s' % (si, list(leaf.path), r))


def judge_shared(plan, hist, counters, read_model, write_model, init, owner, name, may_reject=lambda op: False):
    """As judge, for operations whose models map to cells of one shared array."""
    per_reg = {}
    for h in hist:
        op = plan['clients'][h['client']][h['op']] if h['client'] >= 0 else h['opd']
        who = dict(client=h['client'], op=h['op'])
        reads, writes, opt = [], [], False
        if op['k'] in ('set', 'mset'):
            groups, errs = write_model(op)
            if h['out'] == 'ok':
                if errs:
                    raise Violation('accepted', 'assigning %s returned normally but must be rejected: %s' % (name(op), errs[0]), **who)
                counters['writes'] += 1
            else:
                if not errs and not h['fired'] and not may_reject(op):
                    raise Violation('error', 'assigning %s raised %s: %s' % (name(op), h['root'], h['emsg']), **who)
                opt = True
                counters['failed writes'] += 1
            writes = [w for g in groups for w in g]
        else:
            merr = m = None
            try:
                m = read_model(op)
            except (R.ModelError, IndexError) as e:
                merr = str(e)
            if h['out'] == 'ok':
                if merr is not None:
                    raise Violation('accepted', 'reading %s returned normally but must be rejected: %s' % (name(op), merr), **who)
                try:
                    reads = R.compare(m, h['val'])
                except ValueError as e:
                    raise Violation('shape', 'reading %s: %s' % (name(op), e), **who)
                counters['reads'] += 1
            elif merr is None and not h['fired']:
                raise Violation('error', 'reading %s raised %s: %s' % (name(op), h['root'], h['emsg']), **who)
        per = {}
        for c, v in reads:
            per.setdefault(owner[c], [{}, []])[1].append((c, v))
        for c, v in writes:
            per.setdefault(owner[c], [{}, []])[0][c] = v
        for l, (w, r) in per.items():
            per_reg.setdefault(l, []).append({'inv': h['inv'], 'ret': h['ret'], 'w': w or None, 'r': r or None, 'opt': opt,
                                              'client': h['client'], 'op': h['op']})
    cells = {}
    for c, l in enumerate(owner):
        cells.setdefault(l, []).append(c)
    for l, ops in sorted(per_reg.items()):
        r = lin.check_leaf({c: float(init[c]) for c in cells[l]}, ops)
        counters['field histories'] += 1
        if r is lin.UNDECIDED:
            counters['undecided field histories'] += 1
        elif r is not None:
            raise Violation('history', 'elements %s: %s' % (cells[l], r))
