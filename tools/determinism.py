#!/opt/venv/bin/python
"""determinism.py RUNS [PROP...]: execute the same runs in different processes and compare their digests.

Every run is executed by 1, 3, 8 and 16 worker processes under two hash seeds each, so that it meets other process
histories and loads; the digest covers all results and the trace of switches.  Under one hash seed all digests of a run must
agree; between hash seeds the order of a set given as an index may differ, and the number of such runs is printed."""
import json
import os
import shutil
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from sim import runner  # noqa: E402

n = int(sys.argv[1])
props = sys.argv[2:] or ['C%02d' % i for i in range(1, 13)]
seed = int(os.environ.get('VERIF_SEED', '1'))
bad = 0
for prop in props:
    seen = {}
    processes = 0
    for workers, hs in [(w, h) for w in (1, 3, 8, 16) for h in (11, 4242424)]:
        scratch = tempfile.mkdtemp(prefix='det-')
        try:
            ps = []
            for s in range(workers):
                sub = os.path.join(scratch, 's%d' % s)
                os.mkdir(sub)
                out = os.path.join(scratch, 'w%d.json' % s)
                ps.append((out, runner.spawn(['worker', prop, str(seed), str(s), str(s), str(n), str(workers), '3000', out, 'd'],
                                             hs, sub)))
            for out, p in ps:
                p.communicate()
                processes += 1
                with open(out) as f:
                    for i, d in json.load(f)['digests']:
                        seen.setdefault((i, hs), []).append(d)
        finally:
            shutil.rmtree(scratch)
    diff = sorted(i for i, d in seen.items() if len(set(d)) > 1 or len(d) != 4)
    bad += len(diff)
    cross = sum(seen[i, 11][0] != seen[i, 4242424][0] for i in range(n))
    print('%s: %d runs x 8, %d processes, %d differ %s; %d differ between hash seeds'
          % (prop, n, processes, len(diff), diff[:5], cross), flush=True)
sys.exit(1 if bad else 0)
