"""C01: shared structures under concurrent reads and assignments (no faults)."""
import random
from .. import build as B, genstruct as G, refstruct as R
from ..core import clean, gen_sched, how_long, how_many, run_clients
from ..structcheck import Obj, judge

LEVEL = 'exploration'
RULE = ('A run draws a declaration, one or two structures of it (numeric, SX, MX, assembled), 1-6 clients with reads, '
        'assignments and in-place edits of results, and a preemption list; non-trivial: at least one assignment and one '
        'later or overlapping read of the same structure took place, and runs are distinct in plan and switch trace.')
RUNS = {'quick': 40000, 'thorough': 240000}
MIN_RUNS = 4000


def vc_ok(root):
    """assembled structures need non-empty nested structures"""
    def ok(st):
        return all(e.sub is None or (e.sub.size > 0 and ok(e.sub)) for e in st.entries.values())
    return ok(root)


def gen_cfg(rng, kinds=('DM', 'SX', 'MX', 'VC'), sizes=(8, 20, 48), items=(2, 3, 5)):
    kind = rng.choice(kinds)
    while True:
        spec, root = G.spec_for(rng, max_size=rng.choice(sizes), max_items=rng.choice(items))
        if kind != 'VC' or vc_ok(root):
            break
    vals = G.Values(rng=rng)
    nst = 1 if rng.random() < 0.6 else 2
    cfg = {'kind': kind, 'spec': spec, 'lkind': rng.choice(['SX', 'MX', 'S']),
           'sym': kind != 'DM' and rng.random() < 0.3, 'init': [[vals() for _ in range(root.size)] for _ in range(nst)]}
    return cfg, root, vals


def gen_get(rng, root):
    at = G.gen_path(rng, root)
    if rng.random() < 0.1:
        at = G.add_fn(rng, root, at)
    return at


def gen_set(rng, root, vals, kind):
    if kind == 'VC':
        return G.gen_vc(rng, root, vals)
    at = G.gen_path(rng, root, for_set=True)
    if rng.random() < 0.08:
        at2 = G.add_fn(rng, root, at)
        if at2 is not at and all((c >= 0).all() for c in R.cells_of(R.get(root, at2, raw=True))):
            at = at2
    return at, G.gen_payload(rng, root, at, vals, kind)


def gen_ops(rng, root, vals, kind, nst, n, hot=None):
    ops = []
    for _ in range(n):
        r = rng.random()
        s = rng.randrange(nst)
        if r < 0.45:
            ix, v = gen_set(rng, root, vals, kind)
            if hot and rng.random() < 0.5 and kind != 'VC':
                ix = hot_index(rng, rng.choice(hot), True)
                v = G.gen_payload(rng, root, ix, vals, kind)
            ops.append({'k': 'set', 's': s, 'ix': ix, 'v': v})
        elif r < 0.82:
            ix = gen_get(rng, root)
            if hot and rng.random() < 0.5:
                ix = hot_index(rng, rng.choice(hot), False)
            ops.append({'k': 'get', 's': s, 'ix': ix})
        elif r < 0.88:
            ops.append({'k': 'cat', 's': s})
        elif r < 0.91:
            ops.append({'k': 'cast', 's': s})
        elif r < 0.97:
            ops.append({'k': 'iso', 's': s, 'ix': gen_get(rng, root)})
        elif r < 0.98:
            ops.append({'k': 'keys', 's': s})
        else:
            ops.append({'k': 'get', 's': s, 'ix': G.bad_path(rng, root, gen_get(rng, root))})
    return ops


def hot_paths(rng, root):
    """a few contended fields"""
    sy = [l for l in root.leaves if l.entry.symm and l.n > 1]
    if sy and rng.random() < 0.6:
        return [rng.choice(sy), rng.choice(root.leaves)]
    return rng.sample(root.leaves, min(len(root.leaves), 2))


def hot_index(rng, leaf, for_set):
    ix = [['s', x] if isinstance(x, str) else ['i', x] for x in leaf.path]
    return ix + G.gen_extra(rng, leaf.entry, leaf.entry.shape, for_set)


def gen_duel(rng):
    """very short programs on one or two fields, switching often"""
    cfg, root, vals = gen_cfg(rng, sizes=[4, 10], items=[2], kinds=('DM', 'SX', 'MX', 'VC', 'VC'))
    cfg['init'] = cfg['init'][:1]
    nc = rng.choice([2, 2, 3])
    hot = hot_paths(rng, root)[:1]
    clients = []
    for c in range(nc):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.5:
                if cfg['kind'] == 'VC':
                    ix, v = gen_set(rng, root, vals, 'VC')
                else:
                    ix = hot_index(rng, hot[0], True)
                    v = G.gen_payload(rng, root, ix, vals, cfg['kind'])
                ops.append({'k': 'set', 's': 0, 'ix': ix, 'v': v})
            elif rng.random() < 0.5:
                ops.append({'k': rng.choice(['cat', 'cast']), 's': 0})
            else:
                ops.append({'k': 'get', 's': 0, 'ix': hot_index(rng, hot[0], False)})
        clients.append(ops)
    return {'cfg': cfg, 'scenario': 'duel', 'clients': clients, 'sched': gen_sched(rng, nc, rng.choice(['sparse', 'burst', 'dense', 'mixed', 'window'])),
            'gran': 'opcode' if rng.random() < 0.3 else 'line', 'faults': []}


def gen(rng):
    if rng.random() < 0.35:
        return gen_duel(rng)
    cfg, root, vals = gen_cfg(rng)
    nc = how_many(rng, [1, 2, 2, 2, 3])
    n = how_long(rng, 2, 24, nc) if nc == 1 else rng.randint(1, 8 if nc < 4 else 3)
    hot = hot_paths(rng, root) if rng.random() < 0.6 else None
    return {'cfg': cfg, 'scenario': 'sequential' if nc == 1 else 'concurrent',
            'clients': [gen_ops(rng, root, vals, cfg['kind'], len(cfg['init']), n, hot) for _ in range(nc)],
            'sched': gen_sched(rng, nc), 'gran': 'opcode' if rng.random() < 0.2 else 'line', 'faults': []}


def setup(cfg):
    import casadi as cs
    root = R.RStruct(cfg['spec'])
    layout = B.mk_layout(cfg['spec'], cfg['lkind'])
    objs = []
    for v in cfg['init']:
        env = None
        if cfg['sym']:
            sy = (cs.SX if cfg['kind'] == 'SX' else cs.MX).sym('w', root.size)
            env = (sy, cs.DM(v))
        objs.append(Obj(B.mk_value(layout, cfg['kind'], v, root, env and env[0]), root, cfg['kind'], v, env))
    return root, objs


def final_reads(root, objs, sched, hist):
    """quiescent reads of everything, by name and as a vector"""
    n = 0
    for i, o in enumerate(objs):
        ops = [{'k': 'cat', 's': i}] + [{'k': 'get', 's': i, 'ix': [['s', nm]]} for nm in root.keys]
        for op in ops:
            h = {'client': -1, 'op': n, 'opd': op, 'inv': sched.stamp(), 'fired': None}
            n += 1
            try:
                h['val'] = o.run(op)
                h['out'] = 'ok'
            except Exception as e:
                while e.__cause__ is not None:
                    e = e.__cause__
                h.update(out='exc', root=type(e).__name__, emsg=clean(e))
            h['ret'] = sched.stamp()
            hist.append(h)


def run(plan, ctr):
    root, objs = setup(plan['cfg'])
    sched, hist = run_clients(plan, lambda op, ci, k: objs[op.get('s', 0)].run(op))
    nhist = len(hist)
    final_reads(root, objs, sched, hist)
    judge(objs, plan, hist, ctr)
    ctr['kind ' + plan['cfg']['kind']] += 1
    return sched, hist[:nhist], bool(ctr['writes'] and ctr['reads'])
