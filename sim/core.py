"""Deterministic scheduler and fault injector for caller threads.

One Plan (plain JSON) decides one execution.  Client threads are real threads, but
exactly one of them holds the run token; the token changes hands only at *points*:
lines of the code under test and calls it makes (or all its bytecodes), simulated I/O,
callbacks, lock operations, and boundaries of client operations.  The list plan['sched'] = [[quantum, choice], ...] says after how many
points the token moves and to which runnable client.  Faults are addressed by
(client, op number, n-th point or k-th new place inside the op), so they do not depend
on the schedule.
"""
import _thread
import ast
import contextlib
import dis
import gc
import os
import re
import sys
import threading
import time
import zlib

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'casadi_extras') + os.sep


class SimAbort(BaseException):
    """Raised inside a run that exceeds its step budget or deadlocks."""


class SimInterrupt(KeyboardInterrupt):
    """Injected cancellation (Ctrl-C delivered at this instant)."""


class SimMemoryError(MemoryError):
    """Injected allocation failure."""


class SimCrash(BaseException):
    """Injected process death (raised by the simulated disk)."""


FAULT_EXC = {'interrupt': SimInterrupt, 'memory': SimMemoryError}


class Violation(Exception):
    def __init__(self, cls, msg, **detail):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg
        self.detail = detail


def clean(e):
    """Text of an exception; CasADi's list of actual argument types is not reproducible."""
    return re.sub(r'0x[0-9a-f]+', '0x', str(e).split('You have:')[0].strip())[:300]


_kind_cache = {}


def _kind(code):
    k = _kind_cache.get(code)
    if k is None:
        fn = code.co_filename
        if fn.startswith(PKG):
            k = 1
        elif fn.endswith('/casadi/casadi.py'):
            k = 2
        else:
            k = 0
        _kind_cache[code] = k
    return k


# -- points in the code under test: sys.monitoring events of its code objects ----------
# (sys.settrace with opcode events crashes CPython 3.12 when exceptions pass through)
_TOOL = 4
_CODES = []
# f(*args): CPython 3.12 has already released a converted args object when this event is delivered, and
# releases it again if the event handler raises; no point there (the line event before it remains)
_STARCALLS = set()
_mode = [None]


def _on_line(code, line):
    s = CURRENT
    if s is not None:
        me = s.by_ident.get(_thread.get_ident())
        if me is not None and me.active:
            s.point(me, 'line', code.co_name, line)


def _on_call(code, offset, func, arg0):
    s = CURRENT
    if s is not None and (id(code), offset) not in _STARCALLS:
        me = s.by_ident.get(_thread.get_ident())
        if me is not None and me.active:
            s.point(me, 'call', code.co_name, offset)


def _on_instruction(code, offset):
    s = CURRENT
    if s is not None:
        me = s.by_ident.get(_thread.get_ident())
        if me is not None and me.active:
            s.point(me, 'opcode', code.co_name, offset)


def _collect():
    """All code objects of the code under test."""
    import types
    seen = set()

    def add(c):
        if c in seen or not c.co_filename.startswith(PKG):
            return
        seen.add(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    _CODES[:] = sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    for c in _CODES:
        _lines_of(c.co_filename)
        _offsets_of(c)
        code = c.co_code
        _STARCALLS.update((id(c), i) for i in range(0, len(code), 2) if code[i] == dis.opmap['CALL_FUNCTION_EX'])
    m = sys.monitoring
    m.use_tool_id(_TOOL, 'verif')
    m.register_callback(_TOOL, m.events.LINE, _on_line)
    m.register_callback(_TOOL, m.events.CALL, _on_call)
    m.register_callback(_TOOL, m.events.INSTRUCTION, _on_instruction)


def _monitor(mode):
    """Select the granularity; called while no client thread exists."""
    if _mode[0] == mode:
        return
    m = sys.monitoring
    ev = m.events.INSTRUCTION if mode == 'opcode' else m.events.LINE | m.events.CALL
    for c in _CODES:
        m.set_local_events(_TOOL, c, ev)
    _mode[0] = mode


# Cleanup is not cancelled: CPython looks for signals after calls and at loop ends, so nothing can arrive between the
# end of a protected block and the release of its lock, nor between an assignment and the try statement after it.
_cleanup_lines = {}
_cleanup_offsets = {}
_GUARDS = ('__enter__', '__exit__', '__del__', 'acquire', 'release')


def _lines_of(fn):
    """Lines of finally blocks and of the way into protected blocks."""
    r = _cleanup_lines.get(fn)
    if r is None:
        r = _cleanup_lines[fn] = set()
        with open(fn) as f:
            tree = ast.parse(f.read())
        for node in ast.walk(tree):
            for field in ('body', 'orelse', 'finalbody', 'handlers'):
                prev = None
                block = getattr(node, field, None)
                for st in block if isinstance(block, list) else []:
                    if isinstance(st, ast.Try):
                        if st.finalbody:
                            r.update(range(st.finalbody[0].lineno, st.finalbody[-1].end_lineno + 1))
                        r.add(st.lineno)
                        if isinstance(prev, ast.Expr) and isinstance(prev.value, ast.Call) \
                                and isinstance(prev.value.func, ast.Attribute) and prev.value.func.attr == 'acquire':
                            r.update(range(prev.lineno, prev.end_lineno + 1))
                    prev = st
    return r


def _offsets_of(code):
    """Offsets of the calls that end with statements."""
    r = _cleanup_offsets.get(code)
    if r is None:
        r = _cleanup_offsets[code] = set()
        ins = list(dis.get_instructions(code))
        for k, x in enumerate(ins):
            if x.opname == 'WITH_EXCEPT_START':
                r.update((x.offset, ins[k - 1].offset))
            if k >= 3 and x.opname == 'CALL' and x.arg == 2 and \
                    all(y.opname == 'LOAD_CONST' and y.argval is None for y in ins[k - 3:k]):
                r.update(y.offset for y in ins[k - 3:k + 1])
                j = k - 4
                while j >= 0 and ins[j].opname in ('SWAP', 'NOP', 'COPY', 'POP_TOP'):
                    r.add(ins[j].offset)
                    j -= 1
    return r


def _sheltered(frame):
    """Was the library called back by CasADi (casts), or is it cleaning up?  CasADi crashes when casts raise.  No fault
    is injected there; it stays armed for the next point outside."""
    while frame is not None:
        c = frame.f_code
        k = _kind(c)
        if k == 2:
            return True
        if k == 1 and (c.co_name in _GUARDS or frame.f_lineno in _lines_of(c.co_filename) or frame.f_lasti in _offsets_of(c)):
            return True
        frame = frame.f_back
    return False


class _T(object):
    __slots__ = ('tid', 'lock', 'done', 'fault', 'ctr', 'blocked', 'ident', 'opno', 'fired', 'active', 'seen')

    def __init__(self, tid):
        self.tid = tid
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.fault = None
        self.ctr = 0
        self.blocked = None
        self.ident = None
        self.opno = -1
        self.fired = None
        self.active = False
        self.seen = None        # places of the code this operation has passed


CURRENT = None    # the Sched of the run in progress


class Sched(object):
    def __init__(self, sched, gran='line', step_cap=2000000):
        self.sched = list(sched)
        self.pos = 0
        self.gran = gran
        self.cap = step_cap
        self.steps = 0
        self.stamp_ctr = 0
        self.switches = 0
        self.sig = 0
        self.threads = []
        self.by_ident = {}
        self.abort = None
        self.fired = []
        self.q = self._quantum()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.trace_log = None
        self.sites = None       # per operation: points passed at each place, when asked for
        self.no_preempt = 0

    # -- schedule ---------------------------------------------------------
    def _quantum(self):
        if self.pos < len(self.sched):
            return max(1, self.sched[self.pos][0])
        return 1 << 60

    def stamp(self):
        self.stamp_ctr += 1
        return self.stamp_ctr

    def _runnable(self):
        return [t for t in self.threads if not t.done and t.blocked is None]

    def _handoff(self, me, nxt, where):
        self.switches += 1
        self.sig = zlib.crc32(('%d>%d@%s' % (me.tid, nxt.tid, where)).encode(), self.sig)
        if self.trace_log is not None:
            self.trace_log.append('%d>%d@%s' % (me.tid, nxt.tid, where))
        nxt.lock.release()

    def _switch(self, me, where):
        choice = self.sched[self.pos][1] if self.pos < len(self.sched) else 0
        self.pos += 1
        self.q = self._quantum()
        others = [t for t in self._runnable() if t is not me]
        if not others:
            return
        nxt = others[choice % len(others)]
        self._handoff(me, nxt, where)
        me.lock.acquire()
        if self.abort is not None:
            raise SimAbort(self.abort)

    def point(self, me, site, name='', line=0, fault_ok=True):
        if self.abort is not None:
            raise SimAbort(self.abort)
        self.steps += 1
        if self.steps > self.cap:
            self.abort = 'step budget of %d exceeded at %s:%s' % (self.cap, site, name)
            raise SimAbort(self.abort)
        me.ctr += 1
        f = me.fault
        if self.sites is not None:
            self.sites.setdefault((me.tid, me.opno), {}).setdefault((site, name, line), []).append(me.ctr)
        if f is not None and 'fresh' in f:
            # due at the first visit of the fresh-th place; stays due
            me.seen.add((site, name, line))
            due = len(me.seen) >= f['fresh']
        else:
            due = f is not None and me.ctr >= f['n']
        if due and fault_ok and (f.get('site') is None or f['site'] == site) and not _sheltered(sys._getframe(2)):
            me.fault = None
            where = '%s:%s:%s' % (site, name, line)
            self.fired.append({'client': me.tid, 'op': me.opno, 'kind': f['kind'], 'where': where, 'n': me.ctr})
            me.fired = f['kind']
            raise FAULT_EXC[f['kind']]('injected at %s' % where)
        if not self.no_preempt:
            self.q -= 1
            if self.q <= 0:
                self._switch(me, '%s:%s:%s' % (site, name, line))

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def sponsor(self):
        """The client of this thread, or the one that started it."""
        return self.me() or getattr(threading.current_thread(), '_sim_sponsor', None)

    def external_point(self, where, fault_ok=False):
        """A preemption point outside traced code (simulated I/O, callbacks)."""
        me = self.me()
        if me is not None:
            self.point(me, where, '', 0, fault_ok)

    def block(self, me, on):
        """Park the current client until unblock(on)."""
        me.blocked = on
        others = self._runnable()
        if not others and self._await_others():
            others = self._runnable()
            if others == [me]:
                return
        if not others:
            me.blocked = None
            self.abort = 'deadlock: every client is blocked'
            raise SimAbort(self.abort)
        choice = self.sched[self.pos][1] if self.pos < len(self.sched) else 0
        self.pos += 1
        self.q = self._quantum()
        nxt = others[choice % len(others)]
        self._handoff(me, nxt, 'block')
        me.lock.acquire()
        if self.abort is not None:
            raise SimAbort(self.abort)

    def _await_others(self):
        """Threads started by the code under test run on their own; wait for what they release."""
        if all(t.done for t in self.threads):
            return False
        for _ in range(4000):
            if not any(t not in self.known for t in threading.enumerate()):
                return bool(self._runnable())
            time.sleep(0.001)
            if self._runnable():
                return True
        return False

    def unblock(self, on):
        for t in self.threads:
            if t.blocked is on:
                t.blocked = None

    # -- running ----------------------------------------------------------
    def run(self, bodies):
        """bodies: list of callables taking (sched, me); run them to completion."""
        global CURRENT
        CURRENT = self
        errors = []
        self.threads = [_T(i) for i in range(len(bodies))]
        self.known = set(threading.enumerate())

        def runner(t, body):
            t.lock.acquire()
            t.ident = _thread.get_ident()
            self.by_ident[t.ident] = t
            try:
                if self.abort is None:
                    body(self, t)
            except SimAbort:
                pass
            except BaseException as e:      # harness bug: surface it in run()
                import traceback
                errors.append(''.join(traceback.format_exception(e)))
            finally:
                t.done = True
                self.by_ident.pop(t.ident, None)      # another thread may get the same identity
                self.unblock(t)
                if not self._runnable() and self.abort is None:
                    self._await_others()
                rest = [x for x in self.threads if not x.done]
                if self.abort is not None:
                    for x in rest:
                        x.blocked = None
                run = self._runnable()
                if run:
                    choice = self.sched[self.pos][1] if self.pos < len(self.sched) else 0
                    nxt = run[choice % len(run)]
                    self._handoff(t, nxt, 'done')
                elif rest:
                    self.abort = 'deadlock: every remaining client is blocked'
                    for x in rest:
                        x.blocked = None
                    self._handoff(t, rest[0], 'abort')
                else:
                    self.main.release()

        _monitor(self.gran)
        hs = []
        for t, b in zip(self.threads, bodies):
            h = threading.Thread(target=runner, args=(t, b), daemon=True)
            h.start()
            hs.append(h)
        self.known.update(hs)
        self.threads[0].lock.release()
        self.main.acquire()
        for h in hs:
            h.join()
        CURRENT = None
        if errors:
            raise RuntimeError('harness error in client thread:\n' + errors[0])


@contextlib.contextmanager
def judging(**who):
    """Around the comparison of a result with its reference: a result it cannot even read is a wrong one."""
    try:
        yield
    except Violation:
        raise
    except (TypeError, ValueError, AttributeError, IndexError, KeyError, RuntimeError, NotImplementedError, AssertionError) as e:
        raise Violation('unreadable', 'a result cannot be read: %s: %s' % (type(e).__name__, clean(e)), **who)


# -- locks the code under test might use ------------------------------------
_RealLock = _thread.allocate_lock


class SimLock(object):
    """threading.Lock replacement: blocks through the scheduler inside a run."""

    _reentrant = False

    def __init__(self):
        self._l = _RealLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me_id = _thread.get_ident()
        if self._reentrant and self._owner == me_id:
            self._count += 1
            return True
        s = CURRENT
        t = s.me() if s is not None else None
        if t is None:
            ok = self._l.acquire(blocking, timeout)
        else:
            ok = self._l.acquire(False)
            while not ok and blocking:
                if timeout is not None and timeout >= 0:
                    s.point(t, 'lock', 'timeout', fault_ok=False)
                    ok = self._l.acquire(False)
                    break
                s.block(t, self)
                ok = self._l.acquire(False)
        if ok:
            self._owner = me_id
            self._count = 1
        return ok

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._l.release()
        s = CURRENT
        if s is not None:
            s.unblock(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._l = _RealLock()
        self._owner = None


class SimRLock(SimLock):
    _reentrant = True


_thread_start = threading.Thread.start


def _start(self):
    s = CURRENT
    me = s.sponsor() if s is not None else None
    if me is not None:
        self._sim_sponsor = me
    return _thread_start(self)


def import_target():
    """Import casadi_extras from REPO with sim-aware locks; nothing is cached on disk."""
    import warnings
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    if REPO not in sys.path or sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import numpy            # noqa: F401  (real locks for third-party code)
    import casadi           # noqa: F401
    import deprecated       # noqa: F401
    import pickle           # noqa: F401
    keep = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = SimLock, SimRLock
    try:
        import casadi_extras
        import casadi_extras.collocation
        import casadi_extras.dae_model
        import casadi_extras.inequality
        import casadi_extras.structure3
    finally:
        # conditions, semaphores, events and queues made later are built on these
        threading._allocate_lock = SimLock
        threading.Thread.start = _start
    f = os.path.realpath(casadi_extras.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('casadi_extras imported from %s' % f)
    # classes that create locks lazily (per object) also get sim-aware ones
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] == 'casadi_extras':
            for a in ('Lock', 'RLock'):
                if getattr(mod, a, None) in keep:
                    setattr(mod, a, SimRLock if a == 'RLock' else SimLock)
            if getattr(mod, 'threading', None) is threading:
                setattr(mod, 'threading', _ThreadingShim())
    _collect()
    return casadi_extras


class _ThreadingShim(object):
    Lock = SimLock
    RLock = SimRLock

    def __getattr__(self, name):
        return getattr(threading, name)


def how_many(rng, choices):
    """number of clients; now and then many"""
    return rng.choice(choices) if rng.random() > 0.03 else rng.randint(4, 6)


def how_long(rng, lo, hi, nc, far=8):
    """length of a program; now and then a long one without company"""
    return rng.randint(lo, hi) if nc > 1 or rng.random() > 0.04 else rng.randint(hi + 1, far * hi)


def gen_sched(rng, nclients, style=None):
    """Explicit preemption list; style varies per run (swarm)."""
    if nclients < 2:
        return []
    style = style or rng.choice(['none', 'sparse', 'sparse', 'burst', 'dense', 'mixed', 'mixed', 'window', 'window'])
    if style == 'window':      # stop one client at some instant, let the others run, perhaps all to the end
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            out += [[rng.randint(1, rng.choice([60, 120, 400])), rng.randint(0, 5)],
                    [rng.choice([rng.randint(20, 200), 1 << 40]), rng.randint(0, 5)]]
        return out
    out = []
    if style == 'none':
        n = 0
    elif style == 'sparse':
        n = rng.randint(1, 12)
    elif style == 'burst':
        n = rng.randint(8, 60)
    else:
        n = rng.randint(30, 250)
    for _ in range(n):
        if style == 'sparse':
            q = int(2 ** rng.uniform(0, 9))
        elif style == 'burst':
            q = rng.choice([1, 1, 2, 3, int(2 ** rng.uniform(0, 8))])
        elif style == 'dense':
            q = rng.randint(1, 12)
        else:
            q = int(2 ** rng.uniform(0, 6))
        out.append([q, rng.randint(0, 5)])
    return out


def run_clients(plan, execute, setup_records=None, step_cap=2000000):
    """Execute plan['clients'] (lists of ops).

    execute(op, client, opno) runs one op against the code under test and returns a
    plain result.  Returns (sched, history): history entries are dicts with
    inv/ret stamps, outcome 'ok'|'exc', value or exception type/message, fault fired.
    """
    s = Sched(plan.get('sched', []), plan.get('gran', 'line'), step_cap)
    if plan.get('trace_log'):
        s.trace_log = []
    if plan.get('site_log'):
        s.sites = {}
    faults = {}
    for f in plan.get('faults', []):
        if 'io' not in f:          # those belong to the simulated disk
            faults[(f['client'], f['op'])] = f
    hist = []

    def body_for(ci, ops):
        def body(sched, me):
            for k, op in enumerate(ops):
                me.opno = k
                me.ctr = 0
                me.fired = None
                me.seen = set()
                me.fault = faults.get((ci, k))
                rec = {'client': ci, 'op': k, 'inv': sched.stamp()}
                try:
                    me.active = True
                    try:
                        v = execute(op, ci, k)
                    finally:
                        me.active = False
                    rec['out'] = 'ok'
                    rec['val'] = v
                except (SimAbort, SimCrash):
                    raise
                except Violation as e:
                    rec['out'] = 'violation'
                    rec['val'] = (e.cls, e.msg, e.detail)
                except BaseException as e:
                    rec['out'] = 'exc'
                    rec['etype'] = type(e).__name__
                    c = e
                    while c.__cause__ is not None:
                        c = c.__cause__
                    rec['root'] = type(c).__name__
                    rec['emsg'] = clean(c)
                    c = e = None
                v = None
                me.fault = None
                rec['fired'] = me.fired
                rec['points'] = me.ctr
                rec['ret'] = sched.stamp()
                hist.append(rec)
                sched.point(me, 'op', fault_ok=False)
        return body

    gc.disable()
    try:
        s.run([body_for(i, ops) for i, ops in enumerate(plan['clients'])])
    finally:
        gc.enable()
    for h in hist:
        if h['out'] == 'violation':
            raise Violation(h['val'][0], h['val'][1], **dict(h['val'][2], client=h['client'], op=h['op']))
    if s.abort is not None:
        raise Violation('progress', s.abort)
    return s, hist
