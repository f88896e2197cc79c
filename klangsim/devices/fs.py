"""Faulty disk: a scratch directory of real files behind faulty raw files.

Python's own buffering sits on top, so short and failing raw calls meet the
same code as in a real deployment.
"""
import errno
import io
import os
import shutil
import tempfile

from klangsim import core, seams

SCRATCH = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
"""Parent of the scratch directories. Memory if possible."""


class SimFS:

    """Spec of faults per file access ('w' or 'r'):

    {'kind': 'error' / 'full' / 'crash', 'at': byte offset of all bytes written (read)
     so far, 'once': bool} and {'kind': 'short', 'sizes': [...]}
    """

    def __init__(self, world):
        self.world = world
        self.ctx = world.ctx
        self.root = tempfile.mkdtemp(prefix='klangsim-', dir=SCRATCH)
        self.faults = []
        self.dead = False
        self.opened = []
        world.fs = self
        world.cleanup = self.cleanup

    def path(self, name):
        return os.path.join(self.root, name)

    def cleanup(self):
        self.dead = True
        for raw in self.opened:
            raw.kill()
        shutil.rmtree(self.root, ignore_errors=True)

    def owns(self, path):
        return isinstance(path, str) and path.startswith(self.root + os.sep)

    def open(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if set(mode) & set('wax+'):
            access = 'w'
        else:
            access = 'r'
        faults = [f for f in self.faults if f.get('access', 'w') == access]
        for f in faults:
            if f['kind'] == 'open':
                self.ctx.fault('open fails')
                raise core.sim_fault(OSError(errno.EACCES, 'simulated: permission denied', path))
        raw = FaultyRaw(self, path, mode.replace('b', '').replace('t', ''), faults)
        self.opened.append(raw)
        self.ctx.log('fs open', os.path.basename(path), mode)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif access == 'w':
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)


class FaultyRaw(io.RawIOBase):

    def __init__(self, fs, path, mode, faults):
        self.fs = fs
        self.file = io.FileIO(path, mode)
        self.name = path
        self.mode = mode
        self.faults = faults
        self.moved = 0      # Bytes written / read so far
        self.nCalls = 0
        self.spent = set()

    def kill(self):
        self.faults = []
        if not self.file.closed:
            self.file.close()

    def limit(self, n):
        """How many of n bytes may pass; raises if a fault is due now."""
        self.nCalls += 1
        for i, f in enumerate(self.faults):
            kind = f['kind']
            if i in self.spent:
                continue
            if kind == 'short':
                sizes = f['sizes']
                k = max(1, sizes[self.nCalls % len(sizes)])
                if k < n and self.nCalls <= 60:
                    self.fs.ctx.fault('short %s' % ('write' if self.file.writable() else 'read'))
                    n = k
            elif kind in ('error', 'full', 'crash'):
                if self.moved >= f['at']:
                    if f.get('once'):
                        self.spent.add(i)
                    name = {'error': 'I/O error', 'full': 'disk full', 'crash': 'process dies'}[kind]
                    self.fs.ctx.fault(name)
                    self.fs.ctx.log('fs', name, self.moved)
                    if kind == 'crash':
                        self.fs.dead = True
                        raise core.SimCrash()
                    code = errno.EIO if kind == 'error' else errno.ENOSPC
                    raise core.sim_fault(OSError(code, os.strerror(code)))
                n = min(n, f['at'] - self.moved)
        return n

    def write(self, data):
        data = memoryview(data).cast('B')
        if self.fs.dead or self.file.closed:
            return len(data)   # Nothing of a dead process reaches the disk
        n = self.limit(len(data)) if len(data) else 0
        done = self.file.write(data[:n])
        self.moved += done
        return done

    def readinto(self, buf):
        view = memoryview(buf).cast('B')
        if not len(view):
            return 0
        n = self.limit(len(view))
        data = self.file.read(n)
        view[:len(data)] = data
        self.moved += len(data)
        return len(data)

    def seek(self, offset, whence=0):
        if self.fs.dead:
            return 0
        return self.file.seek(offset, whence)

    def tell(self):
        return 0 if self.fs.dead else self.file.tell()

    def truncate(self, size=None):
        return 0 if self.fs.dead else self.file.truncate(size)

    def readable(self):
        return self.file.readable()

    def writable(self):
        return self.file.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self.file.fileno()

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.file.close()
