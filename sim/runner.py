"""Executes plans in worker processes, minimises and replays violations, writes evidence.

  python -m sim.runner check  ID            the check (VERIF_SEED, VERIF_TIER)
  python -m sim.runner replay ID FILE       re-execute a replay file
  python -m sim.runner worker ...           internal
"""
import collections
import copy
import faulthandler
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8
SOFT = {'quick': 150.0, 'thorough': 540.0}     # wall seconds per worker
HARD = {'quick': 420.0, 'thorough': 600.0}
EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 2


def hashseed(seed, shard):
    return int(hashlib.sha256(('hs:%s:%s' % (seed, shard)).encode()).hexdigest()[:8], 16) % 4294967295


def make_plan(mod, prop, seed, i):
    rng = random.Random('%s:%s:%d' % (seed, prop, i))
    plan = mod.gen(rng)
    plan['prop'] = prop
    for f in plan.get('faults', []):
        # some faults hit the first visit of a place in the code, so that rarely passed places get their share
        if not {'io', 'site', 'frac', 'pick'} & set(f) and rng.random() < 0.35:
            f['fresh'] = rng.randint(1, 70) if rng.random() < 0.6 else int(2 ** rng.uniform(0, 9))
    return plan


def load(prop):
    from . import core
    core.import_target()
    return importlib.import_module('sim.props.' + prop.lower())


def norm(x):
    """stable text of results for digests"""
    import numpy as np
    if isinstance(x, np.ndarray):
        return 'A%s%s' % (x.shape, [repr(float(v)) for v in x.flatten()])
    if isinstance(x, dict):
        return '{' + ','.join('%s:%s' % (k, norm(x[k])) for k in sorted(x, key=str)) + '}'
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(norm(y) for y in x) + ']'
    if isinstance(x, float):
        return repr(x)
    return re.sub(r'0x[0-9a-f]+', '0x', repr(x))


NOINFO = {'steps': 0, 'switches': 0, 'sig': 0, 'nontrivial': False, 'fired': [], 'places': []}


def violation_record(v):
    return {'class': v.cls, 'message': v.msg, 'detail': {k: str(x) for k, x in v.detail.items()}}


def from_target(e):
    """Does the traceback pass through the code under test?"""
    from . import core
    while e is not None:
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(core.PKG):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


def execute(mod, plan, tot=None):
    """One run.  Returns (violation or None, info)."""
    from . import core
    from .core import Violation
    ctr = collections.Counter()
    info = {}
    viol = None
    sched = None
    try:
        sched, hist, nontrivial = mod.run(plan, ctr)
        text = norm([{k: v for k, v in h.items() if k != 'opd'} for h in hist])
        info = {'steps': sched.steps, 'switches': sched.switches, 'sig': sched.sig, 'nontrivial': bool(nontrivial),
                'fired': [f['kind'] for f in sched.fired], 'places': [f['where'] for f in sched.fired], 'digest': zlib.crc32(text.encode(), sched.sig)}
    except Violation as v:
        viol = violation_record(v)
        info = dict(NOINFO, digest=zlib.crc32((v.cls + re.sub(r'0x[0-9a-f]+', '0x', v.msg)).encode()))
    except Exception as e:
        # raised by the code under test where the scenario expects none, or a bug of the harness
        if not from_target(e):
            raise
        viol = violation_record(Violation('unexpected', 'library code raised %s: %s' % (type(e).__name__, core.clean(e))))
        info = dict(NOINFO, digest=0)
    if tot is not None:
        tot.update(ctr)
    info['ctr'] = ctr
    return viol, info


# -- worker -------------------------------------------------------------------------

def worker(argv):
    """worker PROP SEED SHARD LO HI STEP SOFT OUT [digests]"""
    prop, seed, shard = argv[0], int(argv[1]), int(argv[2])
    lo, hi, step, soft, out = int(argv[3]), int(argv[4]), int(argv[5]), float(argv[6]), argv[7]
    want_digests = len(argv) > 8
    mod = load(prop)
    cur = os.open(out + '.cur', os.O_RDWR | os.O_CREAT)
    t0 = time.time()
    tot = collections.Counter()
    faults = collections.Counter()
    scen = collections.Counter()
    sigs, keys, places = set(), set(), set()
    res = {'runs': 0, 'steps': 0, 'switches': 0, 'nontrivial': 0, 'violation': None, 'planned': len(range(lo, hi, step)),
           'samples': [], 'rerun': 0, 'rerun_mismatch': 0, 'capped': False, 'error': None, 'digests': []}
    for i in range(lo, hi, step):
        if time.time() - t0 > soft:
            res['capped'] = True
            break
        os.pwrite(cur, b'%12d' % i, 0)
        plan = make_plan(mod, prop, seed, i)
        key = zlib.crc32(json.dumps(plan, sort_keys=True).encode())
        try:
            viol, info = execute(mod, plan, tot)
        except BaseException:
            res['error'] = {'i': i, 'trace': traceback.format_exc()[-3000:]}
            break
        res['runs'] += 1
        res['steps'] += info['steps']
        res['switches'] += info['switches']
        faults.update(info['fired'])
        places.update(info['places'])
        scen[plan.get('scenario', '')] += 1
        if info['nontrivial']:
            res['nontrivial'] += 1
            keys.add(zlib.crc32(b'%d' % info['sig'], key))
        if info['switches']:
            sigs.add(info['sig'])
        if want_digests:
            res['digests'].append([i, info['digest']])
        if len(res['samples']) < 1 and info['nontrivial'] and res['runs'] > 3:
            s = json.dumps({'run': i, 'scenario': plan.get('scenario'), 'clients': plan['clients'], 'faults': plan.get('faults'),
                            'sched': plan.get('sched', [])[:8]})
            if len(s) < 3000:
                res['samples'].append(json.loads(s))
        if viol is not None:
            res['violation'] = {'i': i, 'v': viol}
            break
        if res['runs'] % 50 == 7 and not want_digests:
            v2, info2 = execute(mod, make_plan(mod, prop, seed, i))
            res['rerun'] += 1
            if v2 is not None or info2['digest'] != info['digest']:
                res['rerun_mismatch'] += 1
    res['wall'] = time.time() - t0
    res['ctr'], res['faults'], res['scen'] = dict(tot), dict(faults), dict(scen)
    res['sigs'], res['keys'], res['places'] = sorted(sigs), sorted(keys), sorted(places)
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


SAY = None


def mute():
    """Child process: keep the pipe to the parent for results; whatever libraries print is dropped."""
    global SAY
    SAY = os.fdopen(os.dup(1), 'w')
    faulthandler.enable(SAY)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)

    def hook(t, e, tb):
        say(''.join(traceback.format_exception(t, e, tb)))
    sys.excepthook = hook


def say(text):
    SAY.write(text + '\n')
    SAY.flush()


def spawn(args, hs, out_dir):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(hs)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        env[k] = '1'
    env['VERIF_SCRATCH'] = out_dir
    return subprocess.Popen([sys.executable, '-B', '-m', 'sim.runner'] + args, cwd=ROOT, env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')


def call(args, hs, timeout, out_dir):
    p = spawn(args, hs, out_dir)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return 'timeout', ''


# -- replay -------------------------------------------------------------------------

def plans_of(mod, rep):
    for p in rep.get('before', []):
        yield make_plan(mod, rep['property'], rep['seed'], p)
    yield rep['plan']


def replay_inner(argv):
    """replay-inner FILE: exit 1 if the recorded violation class occurs, else 0."""
    with open(argv[0]) as f:
        rep = json.load(f)
    mod = load(rep['property'])
    viol = None
    for plan in plans_of(mod, rep):
        viol, info = execute(mod, copy.deepcopy(plan))
        if viol is not None:
            break
    say('RESULT ' + json.dumps(viol))
    os._exit(1 if viol is not None else 0)


def try_replay(path, rep, scratch, timeout=120):
    """Outcome class of a replay in a fresh process."""
    rc, out = call(['replay-inner', path], rep['hashseed'], timeout, scratch)
    if rc == 'timeout':
        return 'hang', None
    if isinstance(rc, int) and rc < 0:
        return 'crash', {'class': 'crash', 'message': 'process died with signal %s' % signal.Signals(-rc).name}
    m = re.search(r'^RESULT (.*)$', out, re.M)
    if m:
        v = json.loads(m.group(1))
        return (v['class'], v) if v else (None, None)
    return 'harness-error', {'class': 'harness-error', 'message': out[-1500:]}


def shrink_candidates(mod, plan):
    """Smaller plans, biggest cuts first."""
    def drop_op(p, c, ks):
        ks = set(ks)
        q = dict(p)
        q['clients'] = [list(x) for x in p['clients']]
        remap = {}
        keep = []
        for j, op in enumerate(p['clients'][c]):
            if j not in ks:
                remap[j] = len(keep)
                keep.append(op)
        q['clients'][c] = keep
        fs = []
        for f in p.get('faults', []):
            if f['client'] == c:
                if f['op'] in remap:
                    fs.append(dict(f, op=remap[f['op']]))
            else:
                fs.append(f)
        q['faults'] = fs
        return q

    n = len(plan.get('sched', []))
    if n:
        yield dict(plan, sched=[])
        k = n // 2
        while k >= 1:
            for a in range(0, n, k):
                yield dict(plan, sched=plan['sched'][:a] + plan['sched'][a + k:])
            k //= 2
    for c, ops in enumerate(plan['clients']):
        m = len(ops)
        k = m
        while k >= 1:
            for a in range(0, m, k):
                yield drop_op(plan, c, range(a, min(a + k, m)))
            k //= 2
    for j in range(len(plan.get('faults', []))):
        yield dict(plan, faults=plan['faults'][:j] + plan['faults'][j + 1:])
    if plan.get('gran') == 'opcode':
        yield dict(plan, gran='line')
    for j, (q, c) in enumerate(plan.get('sched', [])):
        if c:
            yield dict(plan, sched=plan['sched'][:j] + [[q, 0]] + plan['sched'][j + 1:])
    if hasattr(mod, 'shrinks'):
        for q in mod.shrinks(plan):
            yield q


def minimise_inner(argv):
    """minimise-inner FILE BUDGET: greedy reduction in this process; rewrites FILE on each success."""
    path, budget = argv[0], float(argv[1])
    with open(path) as f:
        rep = json.load(f)
    mod = load(rep['property'])
    t0 = time.time()
    cls = rep['violation']['class']
    best = rep['plan']
    tried = 0
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        for q in shrink_candidates(mod, best):
            if time.time() - t0 > budget:
                break
            tried += 1
            try:
                v, _ = execute(mod, copy.deepcopy(q))
            except BaseException:
                continue
            if v is not None and v['class'] == cls:
                best = q
                rep['plan'] = best
                rep['violation'] = v
                rep['minimised'] = tried
                with open(path + '.tmp', 'w') as f:
                    json.dump(rep, f)
                os.rename(path + '.tmp', path)
                improved = True
                break
    os._exit(0)


def minimise(path, rep, scratch, budget):
    """Minimise and keep the result only if a fresh process confirms it."""
    work = os.path.join(scratch, 'min.json')
    with open(work, 'w') as f:
        json.dump(rep, f)
    call(['minimise-inner', work, str(budget)], rep['hashseed'], budget + 60, scratch)
    try:
        with open(work) as f:
            small = json.load(f)
    except ValueError:
        return rep
    cls, v = try_replay(work, small, scratch)
    if cls == rep['violation']['class'] and v is not None:
        small['violation'] = v
        return small
    return rep


def minimise_outer(path, rep, scratch, budget):
    """Reduction with one process per candidate (crashes, hangs, history-dependent failures)."""
    mod = None
    t0 = time.time()
    cls = rep['violation']['class']
    work = os.path.join(scratch, 'min.json')

    def ok(r):
        with open(work, 'w') as f:
            json.dump(r, f)
        c, v = try_replay(work, r, scratch, 60)
        return c == cls

    before = list(rep.get('before', []))
    k = len(before)
    while k >= 1 and time.time() - t0 < budget:
        a = 0
        while a < len(before) and time.time() - t0 < budget:
            r = dict(rep, before=before[:a] + before[a + k:])
            if ok(r):
                before = r['before']
                rep = r
            else:
                a += k
        k //= 2
    class Dummy(object):
        pass
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        for q in shrink_candidates(Dummy, rep['plan']):
            if time.time() - t0 > budget:
                break
            r = dict(rep, plan=q)
            if ok(r):
                rep = r
                improved = True
                break
    return rep


def report(prop, seed, i, shard, scratch, tier, runs_before, kind, viol):
    """Confirm a violation in a fresh process, minimise, write the replay file, print the line."""
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    path = os.path.join(ROOT, 'replays', '%s-%d-%d.json' % (prop, seed, i))
    hs = hashseed(seed, shard)
    rc, out = call(['plan', prop, str(seed), str(i)], hs, 120, scratch)
    if rc != 0:
        raise RuntimeError('run %d cannot be generated:\n%s' % (i, out))
    plan = json.loads(out.strip().splitlines()[-1])
    rep = {'property': prop, 'seed': seed, 'run': i, 'hashseed': hs, 'plan': plan, 'before': [],
           'violation': viol or {'class': kind, 'message': kind}, 'replay': 'python3 check.py %s --replay %s' % (prop, path)}
    with open(path, 'w') as f:
        json.dump(rep, f)
    cls, v = try_replay(path, rep, scratch)
    budget = 45 if tier == 'quick' else 60
    if cls in (None, 'harness-error'):
        # depends on what ran earlier in the same process: replay the shard's history
        for k in (40, 400, 1 << 40):
            rep['before'] = runs_before[-k:]
            with open(path, 'w') as f:
                json.dump(rep, f)
            cls, v = try_replay(path, rep, scratch, 150)
            if cls == 'hang' and kind != 'hang':
                cls = None
            if cls not in (None, 'harness-error') or k >= len(runs_before):
                break
        if cls in (None, 'harness-error'):
            return False, cls, v
        rep['violation'] = v or {'class': cls, 'message': cls}
        rep = minimise_outer(path, rep, scratch, budget)
    else:
        rep['violation'] = v or {'class': cls, 'message': cls}
        if cls in ('crash', 'hang'):
            rep = minimise_outer(path, rep, scratch, budget)
        else:
            rep = minimise(path, rep, scratch, budget)
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
    print('seed %d run %d (%s): %s: %s' % (seed, i, prop, rep['violation']['class'], rep['violation']['message']))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return True, cls, v


# -- check --------------------------------------------------------------------------

def check(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in SOFT:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    sys.path.insert(0, ROOT)
    meta = meta_of(prop)
    n = int(os.environ.get('VERIF_RUNS', meta['RUNS'][tier]))
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        return check_in(prop, tier, seed, t0, meta, n, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def meta_of(prop):
    """static facts of a scenario module, read in a child so that this process stays clean"""
    rc, out = call(['meta', prop], 0, 300, tempfile.gettempdir())
    if rc != 0:
        # the code under test cannot even be imported
        print(out[-3000:])
        sys.exit(EXIT_ERROR)
    return json.loads(out.strip().splitlines()[-1])


def check_in(prop, tier, seed, t0, meta, n, scratch):
    outs = [os.path.join(scratch, 'w%d.json' % s) for s in range(SHARDS)]
    procs = []
    for s in range(SHARDS):
        sub = os.path.join(scratch, 's%d' % s)
        os.mkdir(sub)
        procs.append(spawn(['worker', prop, str(seed), str(s), str(s), str(n), str(SHARDS), str(SOFT[tier]), outs[s]],
                           hashseed(seed, s), sub))
    logs = []
    for p in procs:
        try:
            o, _ = p.communicate(timeout=max(1.0, HARD[tier] - (time.time() - t0)))
            logs.append((p.returncode, o))
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
            logs.append(('timeout', o))
    results = []
    trouble = []
    for s in range(SHARDS):
        rc, o = logs[s]
        if os.path.exists(outs[s]):
            with open(outs[s]) as f:
                r = json.load(f)
            results.append(r)
            if r['error']:
                trouble.append((s, r['error']['i'], 'error', r['error']['trace']))
            elif r['violation']:
                trouble.append((s, r['violation']['i'], 'violation', r['violation']['v']))
        else:
            try:
                with open(outs[s] + '.cur') as f:
                    i = int(f.read().strip() or -1)
            except (OSError, ValueError):
                i = -1
            trouble.append((s, i, 'hang' if rc == 'timeout' else 'crash', o[-2000:]))
    nviol = 0
    errors = []
    # lowest run index first; report one confirmed violation
    for s, i, kind, what in sorted(trouble, key=lambda t: (t[2] == 'error', t[1])):
        if kind == 'error' or i < 0:
            errors.append('shard %d run %d: %s\n%s' % (s, i, kind, what))
            continue
        if nviol:
            nviol += 1
            continue
        done, cls, v = report(prop, seed, i, s, scratch, tier, list(range(s, i, SHARDS)), kind,
                              what if kind == 'violation' else None)
        if done:
            nviol += 1
        else:
            errors.append('shard %d run %d: %s did not repeat (%s)\n%s' % (s, i, kind, cls, what))
    evidence(prop, tier, seed, t0, meta, results, nviol)
    if nviol:
        return EXIT_VIOLATION
    if errors:
        print('check %s could not decide:' % prop)
        for e in errors[:3]:
            print(e)
        return EXIT_ERROR
    done = sum(r['runs'] for r in results)
    if done < min(n, meta.get('MIN_RUNS', 100)):
        print('check %s: only %d runs within the wall cap' % (prop, done))
        return EXIT_ERROR
    for line in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, line))
    print('property=%s held on %d runs (seed %d, %s, %.0f s)' % (prop, done, seed, tier, time.time() - t0))
    return EXIT_OK


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) (.*)$', l.strip())
                if m and m.group(1) == prop:
                    out.append(m.group(2))
    return out


def evidence(prop, tier, seed, t0, meta, results, nviol):
    tot, faults, scen = collections.Counter(), collections.Counter(), collections.Counter()
    sigs, keys, places = set(), set(), set()
    for r in results:
        tot.update(r['ctr'])
        faults.update(r['faults'])
        scen.update(r['scen'])
        sigs.update(r['sigs'])
        keys.update(r['keys'])
        places.update(r['places'])
    wall = time.time() - t0
    runs = sum(r['runs'] for r in results)
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(keys),
        'rule': meta['RULE'],
        'samples': [x for r in results for x in r['samples']][:4],
        'seeds_per_hour': round(runs / max(wall, 1e-3) * 3600),
        'simulated_time_points': sum(r['steps'] for r in results),
        'simulated_time_note': 'logical time: scheduling points passed by the clients; the library reads no clock',
        'context_switches': sum(r['switches'] for r in results),
        'distinct_interleavings': len(sigs),
        'interleaving_measure': 'distinct sequences of (from client, to client, code location) of all token hand-overs of a run',
        'faults_fired': dict(sorted(faults.items())),
        'distinct_places_faults_fired_at': len(places),
        'runs_per_scenario': dict(sorted(scen.items())),
        'probes': dict(sorted(tot.items())),
        'runs_repeated_in_process': sum(r['rerun'] for r in results),
        'repeated_runs_that_differed': sum(r['rerun_mismatch'] for r in results),
        'workers_stopped_by_wall_cap': sum(1 for r in results if r['capped']),
        'components_real': meta['REAL'],
        'components_simulated': meta['STUB'],
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    path = os.path.join(ROOT, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': meta['LEVEL'], 'coverage': cov,
                   'assumptions': meta['ASSUME'], 'wall_s': round(wall, 2), 'violations': nviol}, f, indent=1)
    os.rename(path + '.tmp', path)


ASSUME = ['CPython delivers cancellations and switches threads between bytecodes; native CasADi and numpy calls are atomic (they hold the interpreter lock)',
          'the reference model in /verif/sim is right']
REAL = ['casadi_extras (working tree)', 'CasADi', 'numpy', 'CPython threads, one runnable at a time']
STUB = ['thread scheduler', 'cancellation and allocation failures']


def main(argv):
    cmd = argv[0]
    if cmd in ('worker', 'meta', 'plan', 'replay-inner', 'minimise-inner'):
        mute()
    if cmd == 'worker':
        worker(argv[1:])
        os._exit(0)
    if cmd == 'meta':
        m = load(argv[1])
        say(json.dumps({'RUNS': m.RUNS, 'RULE': m.RULE, 'LEVEL': m.LEVEL, 'MIN_RUNS': getattr(m, 'MIN_RUNS', 100),
                          'ASSUME': ASSUME + getattr(m, 'ASSUME', []), 'REAL': REAL + getattr(m, 'REAL', []),
                          'STUB': STUB + getattr(m, 'STUB', [])}))
        os._exit(0)
    if cmd == 'plan':
        m = load(argv[1])
        say(json.dumps(make_plan(m, argv[1], int(argv[2]), int(argv[3]))))
        os._exit(0)
    if cmd == 'replay-inner':
        replay_inner(argv[1:])
    if cmd == 'minimise-inner':
        minimise_inner(argv[1:])
    if cmd == 'check':
        return check(argv[1])
    if cmd == 'replay':
        with open(argv[2]) as f:
            rep = json.load(f)
        scratch = tempfile.mkdtemp(prefix='verif-replay-')
        try:
            cls, v = try_replay(os.path.abspath(argv[2]), rep, scratch, 600)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if cls is None:
            print('replay: no violation')
            return EXIT_OK
        if cls == 'harness-error':
            print(v['message'])
            return EXIT_ERROR
        same = cls == rep['violation']['class'] and (v is None or v['message'] == rep['violation']['message'])
        print('%s: %s%s' % (cls, v['message'] if v else cls, '' if same else '  (differs from the recorded one)'))
        print('VIOLATION property=%s replay=%s' % (argv[1], argv[2]))
        return EXIT_VIOLATION
    return EXIT_ERROR


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
