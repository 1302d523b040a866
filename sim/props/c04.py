"""C04: pickled and copied structures among concurrent packers and writers."""
import copy
import pickle
import casadi as cs
import numpy as np
from .. import build as B, genstruct as G, refstruct as R
from ..core import Violation, clean, gen_sched, how_long, how_many, run_clients
from ..structcheck import Obj, judge
from . import c01, c02
from .c05 import ask, expect, same
from .c06 import prefixes, wrap, one_matrix

LEVEL = 'fault_enumeration'
RULE = ('A run draws 1-2 declarations, 1-3 values sharing them, prefix views and matrix views, and 1-6 clients that pack '
        'drawn groups of these (pickle protocols 0-5, deepcopy, copy), write and read originals and copies, and pack copies '
        'again; some packings are cancelled; a packing counts as a read of every packed object and each copy is then its own '
        'object; non-trivial: at least one packed copy was observed.')
RUNS = {'quick': 24000, 'thorough': 160000}
MIN_RUNS = 3000


def dense(root):
    return all(len(l.entry.nz) == l.entry.shape[0] * l.entry.shape[1] for l in root.leaves)


def has_index(root, ix):
    try:
        R.get(root, ix)
        return True
    except R.ModelError:
        return False


class Sub(Obj):
    """A view whose index starts below `pre` of the modelled structure."""

    def __init__(self, s, root, kind, vals, pre, whole):
        Obj.__init__(self, s, root, kind, vals)
        self.pre, self.whole = pre, whole

    def run(self, op):
        if op['k'] in ('get', 'set', 'iso'):
            return Obj.run(self, dict(op, ix=op['ix'][len(self.pre):]))
        if op['k'] in ('cat', 'cast'):
            cols = self.whole
            return B.num(cs.vertcat(self.s, cs.DM.ones(1, cols)))[:-1, :].flatten(order='F')
        raise KeyError(op['k'])


def gen(rng):
    vals = G.Values(rng=rng)
    decls, things = [], []
    for _ in range(rng.choice([1, 1, 2])):
        s, r = G.spec_for(rng, max_size=rng.choice([4, 10, 24]), max_items=rng.choice([2, 3]))
        decls.append({'spec': s, 'kind': rng.choice(['SX', 'MX', 'S'])})
    roots = [R.RStruct(d['spec']) for d in decls]
    for _ in range(rng.choice([1, 2, 2, 3])):
        j = rng.randrange(len(decls))
        things.append({'t': 'val', 'd': j, 'init': [vals() for _ in range(roots[j].size)]})
    for i in range(len(things)):
        if rng.random() < 0.4 and roots[things[i]['d']].size:
            pre = prefixes(rng, roots[things[i]['d']])
            if has_index(roots[things[i]['d']], pre):
                things.append({'t': 'pre', 'of': i, 'd': things[i]['d'], 'pre': pre})
    if rng.random() < 0.4:
        while True:
            s, r = G.spec_for(rng, max_size=5, max_items=2, depth=0, rich=False)
            if dense(r) and r.size:
                break
        v = rng.choice(['repeated', 'squared', 'sqrep'])
        n = rng.choice([1, 2, 3])
        cols = {'repeated': n, 'squared': r.size, 'sqrep': n * r.size}[v]
        things.append({'t': 'mat', 'v': v, 'spec': s, 'n': n, 'rows': r.size, 'cols': cols, 'init': [vals() for _ in range(r.size * cols)]})
    for j in range(len(decls)):
        things.append({'t': 'decl', 'd': j})
    nid = [len(things)]
    desc = list(things)          # by id, grows with planned copies
    nc = how_many(rng, [1, 2, 2, 3])
    faulty = rng.random() < 0.35
    clients, faults = [], []
    for c in range(nc):
        ops = []
        mine = list(range(len(things)))
        for _ in range(how_long(rng, 2, 8 if nc == 1 else 5 if nc < 4 else 3, nc, 4)):
            if rng.random() < 0.4:
                pick = rng.sample(mine, rng.randint(1, min(4, len(mine))))
                op = {'k': 'pack', 'o': pick, 'how': rng.choice(['p0', 'p1', 'p2', 'p3', 'p4', 'p5', 'deep', 'deep', 'copy'])}
                if faulty and rng.random() < 0.6:
                    faults.append({'client': c, 'op': len(ops), 'n': int(2 ** rng.uniform(0, 11)), 'kind': rng.choice(['interrupt', 'memory'])})
                    ops.append(op)
                    if rng.random() < 0.3:
                        continue
                    op = dict(op)
                if op['how'] != 'copy':
                    op['new'] = list(range(nid[0], nid[0] + len(pick)))
                    nid[0] += len(pick)
                    desc.extend(desc[i] for i in pick)
                    mine += op['new']
                ops.append(op)
                continue
            s = rng.choice(mine)
            d = desc[s]
            if d['t'] == 'decl':
                ops.append({'k': 'ask', 's': s})
            elif d['t'] == 'pre':
                ix = d['pre'] if rng.random() < 0.7 else None
                if ix is not None:
                    ops.append({'k': 'get', 's': s, 'ix': ix})
                elif s >= len(things):
                    ops.append({'k': 'set', 's': s, 'ix': d['pre'], 'v': G.gen_payload(rng, roots[d['d']], d['pre'], vals)})
            else:
                root = roots[d['d']] if d['t'] == 'val' else R.RStruct(wrap(d['v'], d['spec'], None, d['n']))
                r = rng.random()
                if r < 0.15:
                    ops.append({'k': 'cat', 's': s})
                elif r < 0.45:
                    ops.append({'k': 'get', 's': s, 'ix': gen_ix(rng, root, d, False)})
                else:
                    ix = gen_ix(rng, root, d, True)
                    ops.append({'k': 'set', 's': s, 'ix': ix, 'v': G.gen_payload(rng, root, ix, vals)})
        clients.append(ops)
    return {'cfg': {'decls': decls, 'things': things}, 'scenario': 'faulty' if faulty else 'plain', 'clients': clients,
            'sched': gen_sched(rng, nc), 'gran': 'opcode' if rng.random() < 0.1 else 'line', 'faults': faults}


def gen_ix(rng, root, d, for_set):
    if d['t'] == 'val':
        return G.gen_path(rng, root, for_set=for_set)
    return [['s', 't']] + G.gen_entry_path(rng, root, root.entries['t'], for_set)


def pack(objs, how):
    if how == 'deep':
        return copy.deepcopy(objs)
    if how == 'copy':
        return [copy.copy(o) for o in objs]
    return pickle.loads(pickle.dumps(objs, int(how[1])))


def run(plan, ctr):
    cfg = plan['cfg']
    roots = [R.RStruct(d['spec']) for d in cfg['decls']]
    layouts = [B.mk_layout(d['spec'], d['kind']) for d in cfg['decls']]
    objs, real, desc = {}, {}, {}
    base = {}          # prefix view -> object whose registers it shows

    def register(i, d, x, vals):
        """object i is the real object x described by d"""
        real[i], desc[i] = x, d
        if d['t'] == 'val':
            objs[i] = Obj(x, roots[d['d']], 'DM', vals)
        elif d['t'] == 'mat':
            objs[i] = Sub(x, R.RStruct(wrap(d['v'], d['spec'], None, d['n'])), 'DM', vals, [['s', 't']], d['cols'])
        elif d['t'] == 'pre':
            objs[i] = Sub(x, roots[d['d']], 'DM', vals, d['pre'], 1)

    for i, d in enumerate(cfg['things']):
        if d['t'] == 'val':
            register(i, d, layouts[d['d']](cs.DM(d['init']) if d['init'] else cs.DM(0, 1)), d['init'])
        elif d['t'] == 'pre':
            base[i] = d['of']
            register(i, d, real[d['of']].prefix[B.py_index(d['pre'])], cfg['things'][d['of']]['init'])
        elif d['t'] == 'mat':
            m = cs.reshape(cs.DM(d['init']), d['rows'], d['cols'])
            l = B.mk_layout(d['spec'], 'S')
            register(i, d, {'repeated': l.repeated, 'squared': l.squared, 'sqrep': l.squared_repeated}[d['v']](m), d['init'])
        else:
            register(i, d, layouts[d['d']], None)

    DECLQ = [{'w': 'size'}, {'w': 'canon', 'm': 2}, {'w': 'labels', 'm': 1}]

    def observe(d, x):
        if d['t'] == 'val':
            return B.flat(x.cat)
        if d['t'] == 'pre':
            cast = None
            if one_matrix(roots[d['d']], d):
                cast = B.num(cs.vertcat(x, cs.DM.ones(1, R.get(roots[d['d']], d['pre']).shape[1])))[:-1, :]
            return [B.num(x[()]), cast]
        if d['t'] == 'mat':
            return [B.num(cs.vertcat(x, cs.DM.ones(1, d['cols'])))[:-1, :].flatten(order='F'), B.num(x[()])]
        vec = [3.0 + i for i in range(roots[d['d']].size)]
        return [ask(x, q, vec) for q in DECLQ] + [B.flat(x(cs.DM(vec) if vec else cs.DM(0, 1)).cat).tolist()]

    def execute(op, ci, k):
        if op['k'] == 'pack':
            if any(i not in real for i in op['o']):
                return 'skip'
            got = pack([real[i] for i in op['o']], op['how'])
            seen = [observe(desc[i], x) for i, x in zip(op['o'], got)]
            # copies made together keep sharing: a copied view shows the value copied with it
            lead, inits = {}, {}
            for i, n, v in sorted(zip(op['o'], op.get('new', ()), seen), key=lambda t: desc[t[0]]['t'] == 'pre'):
                d = desc[i]
                n = lead.setdefault(base.get(i, i), n)
                if d['t'] != 'pre':
                    inits[n] = v if d['t'] == 'val' else v[0]
                    continue
                root = roots[d['d']]
                init = inits.setdefault(n, [0.0] * root.size)
                if desc[op['o'][op['new'].index(n)]]['t'] == 'pre':
                    try:
                        for c, y in R.compare(R.get(root, d['pre']), v[0]):
                            init[c] = y
                    except (R.ModelError, ValueError):
                        pass       # judged below
            for i, n, x in zip(op['o'], op.get('new', ()), got):
                b = lead[base.get(i, i)]
                register(n, desc[i], x, inits[b])
                if desc[i]['t'] == 'pre':
                    base[n] = b
            return seen
        if op['s'] not in real:
            return 'skip'
        if op['k'] == 'ask':
            return observe(desc[op['s']], real[op['s']])
        return objs[op['s']].run(op)

    sched, hist = run_clients(plan, execute)
    nhist = list(hist)
    out, packed = [], 0

    def same_decl(d, v, who):
        vec = [3.0 + i for i in range(roots[d['d']].size)]
        want = [expect(roots[d['d']], q, vec) for q in DECLQ] + [vec]
        if not same(want, v):
            raise Violation('declaration', 'a copied declaration says %s instead of %s' % (str(v)[:250], str(want)[:250]), **who)

    for h in hist:
        op = plan['clients'][h['client']][h['op']]
        who = dict(client=h['client'], op=h['op'])
        if h['out'] == 'ok' and isinstance(h['val'], str) and h['val'] == 'skip':
            continue
        if op['k'] not in ('pack', 'ask'):
            out.append(alias(h, op, base))
            continue
        if h['out'] == 'exc':
            if not h['fired']:
                raise Violation('error', '%s %s raised %s: %s' % (op['k'], op.get('how', ''), h['root'], h['emsg']), **who)
            ctr['cancelled packings'] += 1
            continue
        if op['k'] == 'ask':
            same_decl(desc[op['s']], h['val'], who)
            continue
        packed += 1
        ctr['packed ' + op['how']] += 1
        for i, v in zip(op['o'], h['val']):
            d = desc[i]
            ctr['packed ' + d['t']] += 1
            if d['t'] == 'decl':
                same_decl(d, v, who)
                continue
            rec = {'client': -1, 'op': '%d of client %d (packed copy)' % (h['op'], h['client']), 'inv': h['inv'], 'ret': h['ret'], 'fired': None, 'out': 'ok'}
            if d['t'] == 'val':
                out.append(dict(rec, opd={'k': 'cat', 's': i}, val=v))
            elif d['t'] == 'mat':
                out.append(dict(rec, opd={'k': 'cat', 's': i}, val=v[0]))
                out.append(dict(rec, opd={'k': 'get', 's': i, 'ix': [['s', 't']]}, val=v[1]))
            else:
                g = alias(dict(rec, opd={'k': 'get', 's': i, 'ix': d['pre']}, val=v[0]), None, base)
                out.append(g)
                if v[1] is not None:
                    out.append(dict(g, val=v[1]))
    # quiescent reads of all originals and copies
    k = 0
    for i, o in sorted(objs.items()):
        d = desc[i]
        if d['t'] == 'pre':
            ops = [{'k': 'get', 's': i, 'ix': d['pre']}]
        elif d['t'] == 'mat':
            ops = [{'k': 'cat', 's': i}, {'k': 'get', 's': i, 'ix': [['s', 't']]}]
        else:
            ops = [{'k': 'cat', 's': i}] + [{'k': 'get', 's': i, 'ix': [['s', nm]]} for nm in o.root.keys if has_index(o.root, [['s', nm]])]
        for op in ops:
            h = {'client': -1, 'op': k, 'opd': op, 'inv': sched.stamp(), 'fired': None}
            k += 1
            try:
                h['val'] = o.run(op)
                h['out'] = 'ok'
            except Exception as e:
                while e.__cause__ is not None:
                    e = e.__cause__
                h.update(out='exc', root=type(e).__name__, emsg=clean(e))
            h['ret'] = sched.stamp()
            out.append(alias(h, op, base))
    judge(objs, plan, out, ctr)
    return sched, nhist, packed > 0


def alias(h, op, base):
    """prefix views share the registers of their value"""
    op = op or h['opd']
    if op['s'] in base:
        op = dict(op, s=base[op['s']])
    return dict(h, client=-1, op='%s of client %s' % (h['op'], h['client']) if h['client'] >= 0 else h['op'], opd=op)
