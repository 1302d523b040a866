"""Simulated disk: real files below one scratch directory, reached through failing calls.

open(), io.open() and the os calls on files below the directory become points of the
scheduler and may be told by the plan to transfer partly, fail, run full, report an early
end of file, or stop the process.  After a stop every call of the process fails until
revive(); what was handed to the operating system before it survives.
"""
import builtins
import errno
import io
import os
import sys
import weakref
from . import core

_real = {n: getattr(os, n) for n in ('open', 'write', 'read', 'close', 'fsync', 'fdatasync', 'rename', 'replace', 'unlink',
                                     'remove', 'ftruncate', 'truncate', 'pwrite', 'pread', 'writev', 'readv', 'sendfile')}
_open = io.open

DISK = None

# which faults mean something for which call
APPLY = {'open': ('denied', 'eio', 'crash'), 'write': ('short', 'trickle', 'enospc', 'eio', 'crash'),
         'read': ('short', 'trickle', 'eio', 'eof', 'crash'), 'sync': ('eio', 'enospc', 'crash'),
         'close': ('eio', 'crash'), 'rename': ('eio', 'enospc', 'crash'), 'unlink': ('crash',)}
REPORTED = ('denied', 'enospc', 'eio')      # an error code reaches the process


class Disk(object):
    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.fds = set()
        self.files = weakref.WeakValueDictionary()          # descriptor -> open file object
        self.dead = False
        self.armed = {}          # client -> list of pending faults of its current operation
        self.count = {}
        self.full = {}           # client -> disk is full for the rest of the operation
        self.trickle = {}
        self.hits = {}           # client -> kinds fired in the current operation

    def mine(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.path.abspath(os.fsdecode(path))
        except (TypeError, ValueError):
            return False
        return p.startswith(self.root)

    def begin(self, client, faults):
        self.armed[client] = [dict(f) for f in faults]
        self.count[client] = 0
        self.full[client] = False
        self.trickle[client] = 0
        self.hits[client] = []

    def revive(self):
        """the process is gone: its descriptors are closed, the files stay"""
        for fd in sorted(self.fds):
            f = self.files.get(fd)
            try:
                if f is not None:
                    io.FileIO.close(f)
                else:
                    _real['close'](fd)
            except OSError:
                pass
        self.fds.clear()
        self.files.clear()
        self.dead = False
        self.armed.clear()

    def step(self, what):
        """One call.  Returns None or the fault that hits it."""
        s = core.CURRENT
        me = s.sponsor() if s is not None else None
        if me is None:
            return None, None
        if self.dead:
            raise core.SimCrash('the process is gone')
        s.external_point('disk ' + what, True)
        if self.dead:
            raise core.SimCrash('the process is gone')
        c = me.tid
        self.count[c] = self.count.get(c, 0) + 1
        for f in self.armed.get(c, ()):
            if self.count[c] >= f['io'] and f['kind'] in APPLY[what]:
                self.armed[c].remove(f)
                self.note(s, me, f['kind'], what)
                return c, f
        return c, None

    def note(self, s, me, kind, what):
        s.fired.append({'client': me.tid, 'op': me.opno, 'kind': 'disk ' + kind, 'where': what, 'n': self.count[me.tid]})
        self.hits[me.tid].append(kind)

    def die(self):
        self.dead = True
        raise core.SimCrash('the process stops')

    def fail(self, kind):
        code = {'denied': errno.EACCES, 'enospc': errno.ENOSPC, 'eio': errno.EIO}[kind]
        raise OSError(code, os.strerror(code))

    def simple(self, what, call, *a, fd=None):
        c, f = self.step(what)
        if f is not None:
            if f['kind'] == 'crash':
                if f['frac'] > 0.5:
                    call(*a)
                self.die()
            if fd is not None:      # the error says that cached data did not reach the disk
                try:
                    _real['ftruncate'](fd, int(os.fstat(fd).st_size * f['frac']))
                except OSError:
                    pass
            self.fail(f['kind'])
        return call(*a)

    def write(self, data, put):
        """data through put(bytes) -> count"""
        c, f = self.step('write')
        data = bytes(memoryview(data).cast('B')) if not isinstance(data, bytes) else data
        n = len(data)
        if c is None:
            return put(data)
        if self.full[c]:
            self.fail('enospc')
        if f is not None:
            k = f['kind']
            if k == 'eio':
                self.fail('eio')
            part = int(n * f['frac'])
            if k == 'crash':
                if part:
                    put(data[:part])
                self.die()
            if k == 'enospc':
                self.full[c] = True
                if part == 0:
                    self.fail('enospc')
                return put(data[:part])
            if k == 'trickle':
                self.trickle[c] = max(1, part)
            if k == 'short':
                return put(data[:max(1, part)])
        if self.trickle[c]:
            return put(data[:self.trickle[c]])
        return put(data)

    def read(self, n, get):
        """get(n) -> bytes"""
        c, f = self.step('read')
        if c is None:
            return get(n)
        if f is not None:
            k = f['kind']
            if k == 'crash':
                self.die()
            if k == 'eio':
                self.fail('eio')
            if k == 'eof':
                return b''
            if k == 'trickle':
                self.trickle[c] = max(1, int(n * f['frac']) % 64)
            else:
                return get(max(1, int(n * f['frac']))) if n > 0 else b''
        if self.trickle[c]:
            return get(min(n, self.trickle[c]))
        return get(n)


class SimFile(io.FileIO):
    """A raw file on the simulated disk."""

    def write(self, b):
        return DISK.write(b, super().write) if DISK is not None else super().write(b)

    def readinto(self, b):
        get = super().read
        m = memoryview(b).cast('B')
        data = DISK.read(len(m), get)
        m[:len(data)] = data
        return len(data)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return DISK.read(size, super().read)

    def readall(self):
        out = []
        while True:
            d = DISK.read(65536, super().read)
            if not d:
                return b''.join(out)
            out.append(d)

    def truncate(self, size=None):
        return DISK.simple('sync', super().truncate, size)

    def close(self):
        if self.closed:
            return
        d, fd = DISK, self.fileno()
        if d is None or d.files.get(fd) is not self:
            return super().close()
        try:
            d.simple('close', lambda: None, fd=fd)
        finally:
            super().close()
            d.fds.discard(fd)
            d.files.pop(fd, None)


def _sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = DISK
    if d is None or not d.mine(file):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    text = 'b' not in mode
    if text and buffering == 0:
        raise ValueError("can't have unbuffered text I/O")
    rawmode = mode.replace('b', '').replace('t', '')
    if isinstance(file, int):
        raw = SimFile(file, rawmode, closefd)
    else:
        raw = d.simple('open', SimFile, file, rawmode, closefd, opener)
    d.fds.add(raw.fileno())
    d.files[raw.fileno()] = raw
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in rawmode:
        buf = io.BufferedRandom(raw, size)
    elif 'r' in rawmode:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if not text:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    d = DISK
    if d is None or dir_fd is not None or not d.mine(path):
        return _real['open'](path, flags, mode, dir_fd=dir_fd)
    fd = d.simple('open', _real['open'], path, flags, mode)
    d.fds.add(fd)
    return fd


def _os_write(fd, data):
    d = DISK
    if d is None or fd not in d.fds:
        return _real['write'](fd, data)
    return d.write(data, lambda b: _real['write'](fd, b))


def _os_read(fd, n):
    d = DISK
    if d is None or fd not in d.fds:
        return _real['read'](fd, n)
    return d.read(n, lambda k: _real['read'](fd, k))


def _os_pwrite(fd, data, offset):
    d = DISK
    if d is None or fd not in d.fds:
        return _real['pwrite'](fd, data, offset)
    return d.write(data, lambda b: _real['pwrite'](fd, b, offset))


def _os_pread(fd, n, offset):
    d = DISK
    if d is None or fd not in d.fds:
        return _real['pread'](fd, n, offset)
    return d.read(n, lambda k: _real['pread'](fd, k, offset))


def _os_writev(fd, bufs):
    d = DISK
    if d is None or fd not in d.fds:
        return _real['writev'](fd, bufs)
    return d.write(b''.join(bytes(b) for b in bufs), lambda b: _real['write'](fd, b))


def _os_close(fd):
    d = DISK
    if d is None or fd not in d.fds:
        return _real['close'](fd)
    try:
        d.simple('close', lambda: None, fd=fd)
    finally:
        d.fds.discard(fd)
        _real['close'](fd)


def _fd_call(name, what):
    real = _real[name]

    def f(fd, *a, **k):
        d = DISK
        if d is None or (fd.fileno() if hasattr(fd, 'fileno') else fd) not in d.fds:
            return real(fd, *a, **k)
        return d.simple(what, lambda: real(fd, *a, **k), fd=fd.fileno() if hasattr(fd, 'fileno') else fd)
    return f


def _path_call(name, what):
    real = _real[name]

    def f(path, *a, **k):
        d = DISK
        if d is None or not d.mine(path):
            return real(path, *a, **k)
        return d.simple(what, lambda: real(path, *a, **k))
    return f


def _quiet(hook):
    def f(u):
        if isinstance(u.exc_value, (core.SimCrash, core.SimAbort, core.SimInterrupt, core.SimMemoryError, OSError)):
            return
        hook(u)
    return f


_installed = []


def install():
    if _installed:
        return
    _installed.append(1)
    builtins.open = io.open = _sim_open
    os.open, os.write, os.read, os.close = _os_open, _os_write, _os_read, _os_close
    os.pwrite, os.pread, os.writev = _os_pwrite, _os_pread, _os_writev
    for n in ('fsync', 'fdatasync', 'ftruncate'):
        setattr(os, n, _fd_call(n, 'sync'))
    os.truncate = _path_call('truncate', 'sync')
    for n in ('rename', 'replace'):
        setattr(os, n, _path_call(n, 'rename'))
    for n in ('unlink', 'remove'):
        setattr(os, n, _path_call(n, 'unlink'))
    sys.unraisablehook = _quiet(sys.unraisablehook)


def mount(root):
    """A fresh disk in an existing empty directory."""
    global DISK
    install()
    DISK = Disk(root)
    return DISK


def unmount():
    global DISK
    if DISK is not None:
        DISK.revive()
    DISK = None
