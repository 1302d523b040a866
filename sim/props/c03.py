"""C03: saving and loading structures on a failing disk."""
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile
import casadi as cs
import numpy as np
from casadi_extras import structure3 as s3
from .. import build as B, core, disk, genstruct as G, refstruct as R
from ..core import Violation, clean, gen_sched, how_long, how_many, run_clients
from . import c02
from .c05 import canon, label

LEVEL = 'fault_enumeration'
RULE = ('A run draws 1-2 declarations, 1-6 clients with values of their own over these shared declarations, and programs of '
        'save, load, change and save again on a few files per client; disk calls fail, transfer partly, run full, end early '
        'or stop the process, and operations are cancelled, where the plan says so; afterwards every file is loaded again, '
        'sometimes by another process; non-trivial: at least one file was loaded with the content of a save.')
RUNS = {'quick': 24000, 'thorough': 160000}
MIN_RUNS = 3000
REAL = ['casadi_extras', 'CasADi', 'pickle', 'files in a scratch directory', 'a second interpreter that loads']
STUB = ['outcome of the disk calls (open, read, write, sync, close, rename)', 'process death']

SPECIAL = [0.0, -0.0, float('nan'), float('inf'), float('-inf'), 5e-324, 1.7976931348623157e308, 0.1, 1 / 3.0, 2.0 ** 53]


def gen(rng):
    decls = []
    for _ in range(rng.choice([1, 1, 2])):
        s, r = G.spec_for(rng, max_size=rng.choice([4, 12, 30]), max_items=rng.choice([2, 3]))
        if rng.random() < 0.08 and 'order' not in s and not any('group' in it for it in s['items']):
            s['items'].append({'n': 'big', 'k': 'leaf', 'rep': [], 'shape': ['int', rng.choice([260, 700, 1300, 6000])]})
        decls.append({'spec': s, 'kind': rng.choice(['SX', 'MX', 'S'])})
    roots = [R.RStruct(d['spec']) for d in decls]
    vals = G.Values()
    nc = how_many(rng, [1, 1, 1, 2, 3])
    style = rng.choice(['plain', 'disk', 'disk', 'crash', 'cancel', 'mixed'])
    kinds = {'plain': [], 'cancel': [], 'crash': ['crash'], 'disk': rng.sample(['short', 'trickle', 'enospc', 'eio', 'eof', 'denied'], rng.randint(1, 6)),
             'mixed': ['short', 'trickle', 'enospc', 'eio', 'eof', 'denied', 'crash']}[style]
    clients, faults, init = [], [], []
    for c in range(nc):
        mine = []
        for _ in range(rng.choice([1, 1, 2])):
            j = rng.randrange(len(decls))
            mine.append({'d': j, 'v': [rng.choice(SPECIAL) if rng.random() < 0.2 else rng.uniform(-9, 9) if rng.random() < 0.5 else vals()
                                       for _ in range(roots[j].size)]})
        init.append([dict(m, v=[x.hex() for x in map(float, m['v'])]) for m in mine])
        of = [m['d'] for m in mine]          # declaration of each value of this client, grows
        held = {}                            # file -> declaration, or None for a saved declaration
        ops = []
        for _ in range(how_long(rng, 2, 7 if nc == 1 else 4, nc)):
            r = rng.random()
            f = rng.randrange(2)
            if r < 0.45 or not held:
                if rng.random() < 0.2:
                    op = {'k': 'save', 'decl': rng.randrange(len(decls)), 'f': f}
                    held[f] = None
                else:
                    v = rng.randrange(len(of))
                    op = {'k': 'save', 'v': v, 'f': f}
                    held[f] = of[v]
            elif r < 0.8:
                f = rng.choice(sorted(held)) if rng.random() < 0.95 else f
                op = {'k': 'load', 'f': f}
                if rng.random() < 0.1:
                    op['other'] = True
                elif held.get(f) is not None and rng.random() < 0.4:
                    op['as'] = len(of)
                    of.append(held[f])
            else:
                v = rng.randrange(len(of))
                ix = G.gen_path(rng, roots[of[v]], for_set=True)
                op = {'k': 'set', 'v': v, 'ix': ix, 'x': G.gen_payload(rng, roots[of[v]], ix, vals)}
            if op['k'] != 'set' and not op.get('other'):
                if kinds and rng.random() < 0.6:
                    for _ in range(rng.choice([1, 1, 2])):
                        faults.append({'client': c, 'op': len(ops), 'io': rng.choice([1, 1, 2, 2, 3, 4]), 'kind': rng.choice(kinds),
                                       'frac': rng.choice([0.0, 0.999, rng.random(), rng.random()])})
                elif style in ('cancel', 'mixed') and rng.random() < 0.6:
                    faults.append({'client': c, 'op': len(ops), 'n': int(2 ** rng.uniform(0, 10)), 'kind': rng.choice(['interrupt', 'memory'])})
                    if rng.random() < 0.3:
                        faults[-1]['site'] = rng.choice(['disk write', 'disk close', 'disk open', 'disk read'])
            ops.append(op)
        clients.append(ops)
    return {'cfg': {'decls': decls, 'init': init, 'other': rng.random() < 0.04}, 'scenario': style, 'clients': clients,
            'sched': gen_sched(rng, nc), 'gran': 'opcode' if rng.random() < 0.1 else 'line', 'faults': faults}


# -- content of a structure as plain data ---------------------------------------------

def arr(a):
    return ['A', list(a.shape) if a.size else 0, [float(x).hex() for x in a.flatten(order='F')]]


def unsigned(h):
    """reading a symmetric field drops the sign of zero"""
    return (0.0).hex() if h == '-0x0.0p+0' else h


def tree(x):
    if isinstance(x, list):
        return [tree(y) for y in x]
    if isinstance(x, dict):
        return {k: tree(v) for k, v in x.items()}
    a = arr(x)
    return a[:2] + [[unsigned(h) for h in a[2]]]


def show(x, what):
    """what a structure says about itself"""
    out = {'keys': list(x.keys()), 'size': int(x.size)}
    if what == 'decl':
        from .c05 import plain
        out['canon'] = plain(x.canonicalIndices(extraMode=2))
        out['labels'] = list(x.labels(extraMode=1))
        return out
    out['cat'] = arr(B.num(x.cat))
    f = {}
    for k in x.keys():
        try:
            f[k] = tree(B.num(x[k]))
        except Exception:
            f[k] = None
    out['fields'] = f
    return out


def expected(root, what, vec=None):
    """the same, by the reference layout"""
    out = {'keys': root.keys, 'size': root.size}
    if what == 'decl':
        out['canon'] = [canon(root, c, 2) for c in range(root.size)]
        out['labels'] = [label(canon(root, c, 1)) for c in range(root.size)]
        return out
    out['cat'] = ['A', [root.size, 1] if root.size else 0, list(vec)]

    def val(m):
        if isinstance(m, list):
            return [val(x) for x in m]
        if isinstance(m, dict):
            return {k: val(v) for k, v in m.items()}
        return ['A', list(m.shape) if m.size else 0, [unsigned(vec[c]) if c >= 0 else (0.0).hex() for c in m.flatten(order='F')]]
    f = {}
    for k in root.keys:
        try:
            f[k] = val(R.get(root, [['s', k]]))
        except R.ModelError:
            f[k] = None
    out['fields'] = f
    return out


# -- another process -------------------------------------------------------------------

_loader = []


def elsewhere(what, path):
    if not _loader:
        env = dict(os.environ, PYTHONHASHSEED=str((int(os.environ.get('PYTHONHASHSEED') or 0) + 12345) % 4294967295))
        p = subprocess.Popen([sys.executable, '-B', '-m', 'sim.loader'], cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                             env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        _loader.append(p)
        atexit.register(p.kill)
    p = _loader[0]
    p.stdin.write(json.dumps([what, path]) + '\n')
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError('the loading process ended')
    return json.loads(line)


class Quiet(object):
    """library calls of the harness itself: no points, no faults"""

    def __enter__(self):
        s = core.CURRENT
        self.me = s.me() if s is not None else None
        if self.me is not None:
            self.me.active = False

    def __exit__(self, *a):
        if self.me is not None:
            self.me.active = True


class World(object):
    def __init__(self, plan, ctr, root):
        cfg = plan['cfg']
        self.ctr, self.dir = ctr, root
        self.roots = [R.RStruct(d['spec']) for d in cfg['decls']]
        self.layouts = [B.mk_layout(d['spec'], d['kind']) for d in cfg['decls']]
        self.vals = []
        for mine in cfg['init']:
            vs = []
            for m in mine:
                v = [float.fromhex(x) for x in m['v']]
                vs.append((m['d'], self.layouts[m['d']](cs.DM(v) if v else cs.DM(0, 1))))
            self.vals.append(dict(enumerate(vs)))
        self.files = {}
        self.loaded = 0
        self.disk = disk.mount(root)

    def path(self, c, f):
        return os.path.join(self.dir, 'c%d_%d.struct' % (c, f))

    def content(self, j, v):
        """reference content of a value now"""
        with Quiet():
            vec = [float(x).hex() for x in B.flat(v.cat)]
        return expected(self.roots[j], 'val', vec)

    def save(self, op, c, k):
        if 'decl' in op:
            j, what = op['decl'], 'decl'
            obj = self.layouts[j].struct
            want = expected(self.roots[j], 'decl')
        else:
            if op['v'] not in self.vals[c]:
                return 'skip'
            j, obj = self.vals[c][op['v']]
            what = 'val'
            want = self.content(j, obj)
        st = self.files.setdefault((c, op['f']), {'must': False, 'may': []})
        err = None
        try:
            obj.save(self.path(c, op['f']))
        except core.SimAbort:
            raise
        except core.SimCrash:
            pass
        except BaseException as e:
            err = type(e).__name__, clean(e)      # not e itself: it would keep the file object alive
        hits = self.disk.hits[c]
        new = [what, j, want]
        if self.disk.dead:
            self.ctr['crashed saves'] += 1
            st['must'] = False
            st['may'].append(new)
            return 'crashed'
        with Quiet():
            now = show(obj, what)
        if now != want:
            raise Violation('memory', 'saving changed the structure in memory (%s)' % diff(want, now), client=c, op=k)
        if err is not None:
            if not core.CURRENT.me().fired and not any(h in disk.REPORTED for h in hits):
                raise Violation('error', 'saving raised %s: %s' % err, client=c, op=k)
            st['must'] = False
            st['may'].append(new)
            self.ctr['failed saves'] += 1
            return ['failed', err[0]]
        st['must'] = True
        st['may'] = [new]
        self.ctr['saves'] += 1
        if hits:
            self.ctr['saves through a hit disk'] += 1
        return 'saved'

    def load(self, op, c, k):
        st = self.files.get((c, op['f']), {'must': False, 'may': []})
        path = self.path(c, op['f'])
        what = st['may'][-1][0] if st['may'] else 'val'
        kinds = sorted({m[0] for m in st['may']})
        if op.get('other'):
            with Quiet():
                r = elsewhere(what, path)
            self.ctr['loads elsewhere'] += 1
            if r[0] == 'exc':
                self.bad_load(st, r[1], '', c, k, [])
                return ['failed', r[1]]
            # the other process only knows one way to look at it
            if len(kinds) < 2:
                self.good_load(st, what, r[1], c, k)
            return 'loaded'
        try:
            x = s3.struct_load(path)
        except (core.SimAbort, Violation):
            raise
        except core.SimCrash:
            return 'crashed'
        except BaseException as e:
            if self.disk.dead:
                return 'crashed'
            me = core.CURRENT.me() if core.CURRENT is not None else None
            self.bad_load(st, type(e).__name__, clean(e), c, k, self.disk.hits.get(c, []), me is not None and me.fired)
            return ['failed', type(e).__name__]
        if self.disk.dead:
            return 'crashed'
        with Quiet():
            what = 'decl' if isinstance(x, s3.CasadiStructure) else 'val'
            try:
                got = show(x, what)
            except Exception as e:
                raise Violation('content', 'the loaded structure cannot be read: %s: %s' % (type(e).__name__, clean(e)), client=c, op=k)
        j = self.good_load(st, what, got, c, k)
        if 'as' in op and what == 'val':
            self.vals[c][op['as']] = (j, x)
        return 'loaded'

    def bad_load(self, st, name, msg, c, k, hits, fired=None):
        self.ctr['failed loads'] += 1
        if st['must'] and not fired and not any(h in ('denied', 'eio', 'eof') for h in hits):
            raise Violation('lost', 'saving returned normally, but loading the file raises %s %s' % (name, msg), client=c, op=k)

    def good_load(self, st, what, got, c, k):
        for w, j, want in st['may']:
            if w == what and want == got:
                self.loaded += 1
                self.ctr['loads of a %s' % w] += 1
                return j
        text = diff(st['may'][-1][2], got) if st['may'] else 'nothing was saved there'
        raise Violation('content', 'loading returned something that was never saved there (%s)' % text, client=c, op=k)

    def execute(self, op, c, k):
        if self.disk.dead:
            return 'gone'
        self.disk.begin(c, self.faults.get((c, k), []))
        if op['k'] == 'save':
            return self.save(op, c, k)
        if op['k'] == 'load':
            return self.load(op, c, k)
        if op['v'] not in self.vals[c]:
            return 'skip'
        with Quiet():
            try:
                self.vals[c][op['v']][1][B.py_index(op['ix'])] = B.py_payload(op['x'])
            except Exception:
                return 'rejected'       # judged by C01
        return 'set'


def diff(want, got):
    for k in want:
        if got.get(k) != want[k]:
            if k == 'fields' and got.get(k):
                return 'field ' + diff(want[k], got[k])
            return '%s: %s instead of %s' % (k, str(got.get(k))[:120], str(want[k])[:120])
    return 'extra data'


def scratch():
    base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix='disk-', dir=base)


def run(plan, ctr):
    root = scratch()
    try:
        w = World(plan, ctr, root)
        w.faults = {}
        for f in plan['faults']:
            if 'io' in f:
                w.faults.setdefault((f['client'], f['op']), []).append(f)
        sched, hist = run_clients(plan, w.execute)
        w.disk.revive()
        for h in hist:
            if h['out'] == 'exc':
                who = dict(client=h['client'], op=h['op'])
                raise Violation('error', '%s raised %s: %s' % (plan['clients'][h['client']][h['op']]['k'], h['root'], h['emsg']), **who)
        for (c, f), st in sorted(w.files.items()):
            w.load({'k': 'load', 'f': f}, c, 'afterwards')
            if plan['cfg']['other']:
                w.load({'k': 'load', 'f': f, 'other': True}, c, 'afterwards in another process')
        return sched, hist, w.loaded > 0
    finally:
        disk.unmount()
        shutil.rmtree(root, ignore_errors=True)
