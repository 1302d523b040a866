"""Linearizability of one leaf: a small vector register with partial reads and writes."""

UNDECIDED = object()     # search budget exhausted: counted, never reported


def check_leaf(init, ops, limit=200000):
    """init: {cell: value}; ops: list of dicts
        inv, ret, w: {cell: value} or None, r: [(cell, value)] or None, opt: bool
    A read op requires the values at its instant; a write sets them; opt writes may be
    dropped.  Values compare by repr so that NaN and signed zero are exact.
    Returns None if linearizable, UNDECIDED past the budget, else a human-readable reason.
    """
    cells = sorted(init)
    pos = {c: i for i, c in enumerate(cells)}
    ops = sorted(ops, key=lambda o: o['inv'])
    # collapse: a purely sequential history needs no search
    n = len(ops)
    state0 = tuple(repr(init[c]) for c in cells)
    W = []
    R = []
    for o in ops:
        W.append([(pos[c], repr(v)) for c, v in o['w'].items()] if o.get('w') else None)
        R.append([(pos[c], repr(v)) for c, v in o['r']] if o.get('r') else None)
    full = (1 << n) - 1
    seen = set()
    budget = [limit]

    def enabled(done):
        """ops not yet placed whose invocation precedes every unplaced return"""
        minret = None
        for i in range(n):
            if not done >> i & 1:
                r = ops[i]['ret']
                if minret is None or r < minret:
                    minret = r
        for i in range(n):
            if not done >> i & 1 and ops[i]['inv'] <= minret:
                yield i

    stack = [(0, state0)]
    best = (0, state0)
    while stack:
        done, st = stack.pop()
        if done == full:
            return None
        if (done, st) in seen:
            continue
        seen.add((done, st))
        budget[0] -= 1
        if budget[0] < 0:
            return UNDECIDED
        if bin(done).count('1') > bin(best[0]).count('1'):
            best = (done, st)
        for i in enabled(done):
            if R[i] is not None and any(st[p] != v for p, v in R[i]):
                continue
            nd = done | 1 << i
            if W[i] is not None:
                if ops[i].get('opt'):
                    stack.append((nd, st))
                s2 = list(st)
                for p, v in W[i]:
                    s2[p] = v
                stack.append((nd, tuple(s2)))
            else:
                stack.append((nd, st))
    done, st = best
    for i in range(n):
        if not done >> i & 1 and R[i] is not None:
            bad = [(cells[p], v, st[p]) for p, v in R[i] if st[p] != v]
            if bad:
                c, v, e = bad[0]
                return 'read by client %s op %s saw %s at element %d; no order of the recorded writes explains it (e.g. expected %s)' % (
                    ops[i].get('client'), ops[i].get('op'), v, c, e)
    return 'no linearization'
