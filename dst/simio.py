"""Simulated file access for code that goes through Python's open().

Real files in a scratch directory are the storage medium; every operation
passes through here, is numbered, and may be made to fail, be short, or be the
last one the process performs (a crash).  Nothing outside the scratch root is
ever opened for writing: such an attempt is recorded and refused.
"""
import builtins
import errno
import io
import os

_real_open = builtins.open
_io_open = io.open
_real_replace, _real_rename, _real_remove = os.replace, os.rename, os.remove
_real_unlink, _real_fsync = os.unlink, os.fsync


class Crash(BaseException):
    """The simulated process died here."""


class StepBudget(BaseException):
    """More I/O operations than any terminating read of this file needs."""


class Escape(Exception):
    pass


class SimFS(object):
    """One simulated mount.

    plan: dict with optional keys
      crash_at: n      -> die at the n-th mutating operation (1-based)
      torn: k          -> bytes of that operation that still reach the disk
      fail: {n: errno} -> n-th operation (reads and writes) raises OSError
      short: seed      -> raw reads return fewer bytes than asked, from seed
      budget: n        -> operations allowed
      capacity: n      -> bytes that fit (ENOSPC beyond)
      nocreate: True   -> creating files is refused (read-only directory)
    """

    def __init__(self, root, plan=None, stats=None, on_op=None):
        self.root = os.path.realpath(root)
        self.plan = plan or {}
        self.n = 0            # all operations
        self.nw = 0           # mutating operations
        self.dead = False
        self.log = []
        self.opens = []
        self.stats = stats
        self.on_op = on_op
        self.used = 0
        if self.plan.get('short') is not None:
            from .rng import Rng
            self.srng = Rng('short', self.plan['short'])
        else:
            self.srng = None

    def fired(self, kind):
        if self.stats is not None:
            self.stats.fault(kind)

    def inside(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def op(self, what, path, write=False, size=0):
        if self.dead:
            raise Crash()
        self.n += 1
        if write:
            self.nw += 1
        if self.on_op is not None:
            self.on_op(what)
        b = self.plan.get('budget')
        if b is not None and self.n > b:
            raise StepBudget('%d file operations' % self.n)
        f = self.plan.get('fail')
        if f:
            e = f.get(self.n, f.get(str(self.n)))
            if e is not None:
                self.fired('io_' + errno.errorcode.get(e, str(e)))
                raise OSError(e, os.strerror(e), str(path))
        if write and self.plan.get('crash_at') == self.nw:
            self.fired('crash')
            return 'crash'
        return None

    def die(self):
        self.dead = True
        raise Crash()

    # -- patched entry points
    def open(self, file, mode='r', buffering=-1, *a, **k):
        if isinstance(file, int) or not self.inside(file):
            if not isinstance(file, int) and any(c in mode for c in 'wax+'):
                p = os.fspath(file)
                if p not in ('/dev/null',):
                    self.log.append(('escape', str(p), mode))
                    raise Escape('write outside scratch: %s' % p)
            return _real_open(file, mode, buffering, *a, **k)
        wr = any(c in mode for c in 'wax+')
        create = wr and not os.path.exists(file)
        if wr and self.plan.get('nocreate'):
            self.fired('io_EACCES')
            raise PermissionError(errno.EACCES, 'Permission denied', str(file))
        if self.op('open:' + mode, file, write=wr) == 'crash':
            self.die()
        rawmode = mode.replace('t', '').replace('b', '')
        raw = SimRaw(self, file, rawmode)
        self.opens.append(raw)
        if 'b' not in mode:
            if '+' in mode:
                buf = io.BufferedRandom(raw)
            elif wr:
                buf = io.BufferedWriter(raw)
            else:
                buf = io.BufferedReader(raw)
            kk = {q: k[q] for q in ('encoding', 'errors', 'newline') if q in k}
            t = io.TextIOWrapper(buf, *a[:0], **kk)
            t.mode = mode
            return t
        if buffering == 0:
            return raw
        sz = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if self.plan.get('bufsize'):
            sz = self.plan['bufsize']
        if '+' in mode:
            return io.BufferedRandom(raw, sz)
        if wr:
            return SimWriter(raw, sz)
        return SimReader(self, raw, sz)

    def replace(self, a, b, **k):
        return self._mv(_real_replace, 'replace', a, b)

    def rename(self, a, b, **k):
        return self._mv(_real_rename, 'rename', a, b)

    def _mv(self, fn, nm, a, b):
        if not (self.inside(a) and self.inside(b)):
            self.log.append(('escape', str(b), nm))
            raise Escape('%s outside scratch' % nm)
        if self.op(nm, b, write=True) == 'crash':
            if self.plan.get('torn', 0) % 2:
                fn(a, b)
            self.die()
        return fn(a, b)

    def remove(self, a, **k):
        if not self.inside(a):
            self.log.append(('escape', str(a), 'remove'))
            raise Escape('remove outside scratch')
        if self.op('remove', a, write=True) == 'crash':
            self.die()
        return _real_remove(a)

    def fsync(self, fd):
        if self.op('fsync', fd, write=True) == 'crash':
            self.die()

    def __enter__(self):
        builtins.open = self.open
        io.open = self.open
        os.replace, os.rename = self.replace, self.rename
        os.remove = os.unlink = self.remove
        os.fsync = self.fsync
        return self

    def __exit__(self, *exc):
        builtins.open = _real_open
        io.open = _io_open
        os.replace, os.rename = _real_replace, _real_rename
        os.remove, os.unlink = _real_remove, _real_unlink
        os.fsync = _real_fsync
        return False

    def leaked(self):
        return [r.simpath for r in self.opens if not r.closed]

    def close_all(self):
        for r in self.opens:
            try:
                r.dead_close()
            except Exception:
                pass


class SimRaw(io.FileIO):
    def __init__(self, fs, path, mode):
        self.fs = fs
        self.simpath = os.fspath(path)
        super().__init__(path, mode)

    def readinto(self, b):
        fs = self.fs
        fs.op('read', self.simpath)
        mv = memoryview(b)
        if fs.srng is not None and len(mv) > 1 and fs.srng.flip(.5):
            fs.fired('short_read')
            mv = mv[:fs.srng.randrange(1, len(mv))]
        return super().readinto(mv)

    def read(self, n=-1):
        self.fs.op('read', self.simpath)
        return super().read(n)

    def readall(self):
        self.fs.op('read', self.simpath)
        return super().readall()

    def write(self, b):
        fs = self.fs
        n = len(b)
        r = fs.op('write', self.simpath, write=True, size=n)
        cap = fs.plan.get('capacity')
        if r == 'crash':
            k = fs.plan.get('torn', 0)
            if n:
                super().write(bytes(b)[:k % (n + 1)])
            fs.die()
        if cap is not None and fs.used + n > cap:
            room = cap - fs.used
            if room > 0:
                fs.fired('short_write')
                fs.used += room
                return super().write(bytes(b)[:room])
            fs.fired('io_ENOSPC')
            raise OSError(errno.ENOSPC, 'No space left on device', self.simpath)
        fs.used += n
        return super().write(b)

    def close(self):
        # a closed descriptor of a dead process writes nothing more
        super().close()

    def dead_close(self):
        io.FileIO.close(self)

    def __del__(self):
        pass


class SimReader(io.BufferedReader):
    """Counts operations above the buffer too, so that a loop that never
    touches the medium is still bounded."""

    def __init__(self, fs, raw, sz):
        self.fs = fs
        super().__init__(raw, sz)

    def read(self, n=-1):
        self.fs.op('bread', self.raw.simpath)
        return super().read(n)

    def seek(self, *a):
        self.fs.op('seek', self.raw.simpath)
        return super().seek(*a)


class SimWriter(io.BufferedWriter):
    def close(self):
        if getattr(self.raw, 'fs', None) is not None and self.raw.fs.dead:
            # unflushed data of a dead process is gone
            self.raw.dead_close()
            return
        super().close()


class Procs(object):
    """Several simulated processes (threads of this one) on one mount, each
    with its own faults: dispatches every file operation by thread."""

    def __init__(self, default):
        self.default = default
        self.by = {}

    def fs(self):
        import threading
        return self.by.get(threading.get_ident(), self.default)

    def bind(self, fs):
        import threading
        self.by[threading.get_ident()] = fs

    def __enter__(self):
        builtins.open = lambda *a, **k: self.fs().open(*a, **k)
        io.open = builtins.open
        os.replace = lambda *a, **k: self.fs().replace(*a, **k)
        os.rename = lambda *a, **k: self.fs().rename(*a, **k)
        os.remove = os.unlink = lambda *a, **k: self.fs().remove(*a, **k)
        os.fsync = lambda fd: self.fs().fsync(fd)
        return self

    def __exit__(self, *exc):
        return SimFS.__exit__(self, *exc)
