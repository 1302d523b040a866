"""C02: failed and cancelled assignments stay inside the fields they name."""
from .. import genstruct as G
from .. import refstruct as R
from ..core import gen_sched, how_long, how_many, run_clients
from ..structcheck import RAISES, judge
from . import c01

LEVEL = 'fault_enumeration'
RULE = ('A run draws a declaration, one or two structures, 1-6 clients and a schedule as in C01; assignments are hit by a '
        'cancellation or allocation failure at a drawn point, get an unusable index or right-hand side, or call a raising '
        'user callable, and most are repeated afterwards; non-trivial: at least one assignment failed.')
RUNS = {'quick': 40000, 'thorough': 240000}
MIN_RUNS = 4000


def fault_point(rng):
    return int(2 ** rng.uniform(0, 8.5)) if rng.random() < 0.6 else rng.randint(20, 110)


def again(rng, root, vals, kind, op):
    """the same assignment with fresh values"""
    if kind == 'VC':
        return dict(op)
    return {'k': 'set', 's': op['s'], 'ix': op['ix'], 'v': G.gen_payload(rng, root, op['ix'], vals, kind)}


def fill(ix, bad, v, vals):
    """supply something for the names added to an index"""
    if ix and ix[0][0] in ('names', 'set') and bad[0][0] == ix[0][0]:
        if v[0] == 'list':
            l = list(v[1])
            l.insert(bad[0][1].index('nope') if 'nope' in bad[0][1] else 0, ['num', vals()])
            return ['list', l]
        if v[0] == 'dict':
            return ['dict', dict(v[1], nope=['num', vals()])]
    return v


def gen(rng):
    cfg, root, vals = c01.gen_cfg(rng, sizes=(6, 14, 40), items=(2, 3, 4))
    kind = cfg['kind']
    nc = how_many(rng, [1, 1, 2, 3])
    style = rng.choice(['faults', 'rejects', 'mixed'])
    hot = c01.hot_paths(rng, root) if rng.random() < 0.5 else None
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for op in c01.gen_ops(rng, root, vals, kind, len(cfg['init']), how_long(rng, 1, 6 if nc < 4 else 3, nc), hot):
            r = rng.random()
            fault = reject = False
            if op['k'] == 'set':
                fault = style != 'rejects' and r < 0.6
                reject = not fault and style != 'faults' and rng.random() < 0.6
            else:
                fault = style != 'rejects' and r < 0.1
            if reject:
                bad = dict(op)
                q = rng.random()
                if q < 0.55:
                    bad['v'] = G.spoil_payload(rng, op['v'])
                elif q < 0.8:
                    bad['ix'] = G.bad_path(rng, root, op['ix'])
                    if len(bad['ix']) == len(op['ix']) and rng.random() < 0.7:
                        bad['v'] = fill(op['ix'], bad['ix'], op['v'], vals)
                    if kind != 'VC' and R.LISTED in R.assign(root, bad['ix'], bad['v'])[1]:
                        bad['v'] = ['num', vals()]
                elif any(a[0] == 'fn' for a in op['ix']):
                    bad['boom'] = rng.choice(RAISES)
                elif kind != 'VC':
                    ix = G.add_fn(rng, root, op['ix'])
                    if ix is not op['ix']:
                        bad['ix'] = ix
                        bad['v'] = ['num', vals()]
                        bad['boom'] = rng.choice(RAISES)
                    else:
                        bad['v'] = G.spoil_payload(rng, op['v'])
                ops.append(bad)
                if rng.random() < 0.6:
                    ops.append(op)
                if rng.random() < 0.3:
                    ops.append(c01.gen_ops(rng, root, vals, kind, len(cfg['init']), 1, hot)[0])
                continue
            if fault:
                faults.append({'client': c, 'op': len(ops), 'n': fault_point(rng), 'kind': rng.choice(['interrupt', 'interrupt', 'memory'])})
                if rng.random() < 0.15:
                    faults[-1]['site'] = 'call'
            ops.append(op)
            if fault and op['k'] == 'set':
                if rng.random() < 0.3:
                    ops.append({'k': rng.choice(['cat', 'cast']), 's': op['s']})
                if rng.random() < 0.6:
                    ops.append(again(rng, root, vals, kind, op))
        clients.append(ops)
    return {'cfg': cfg, 'scenario': style, 'clients': clients, 'sched': gen_sched(rng, nc),
            'gran': 'opcode' if rng.random() < 0.25 else 'line', 'faults': faults}


def run(plan, ctr):
    root, objs = c01.setup(plan['cfg'])
    sched, hist = run_clients(plan, lambda op, ci, k: objs[op.get('s', 0)].run(op))
    n = len(hist)
    c01.final_reads(root, objs, sched, hist)
    judge(objs, plan, hist, ctr)
    for h in hist[:n]:
        if h['fired']:
            ctr['fault hit %s' % plan['clients'][h['client']][h['op']]['k']] += 1
            if h['out'] == 'ok':
                ctr['hit operation still completed'] += 1
            else:
                ctr['hit operation raised ' + h['etype']] += 1
    return sched, hist[:n], ctr['failed writes'] > 0
