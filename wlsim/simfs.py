"""A simulated file system below /sim/.  Everything else is the real one (read-only access by library code)."""
import errno
import io
import os
import stat as statmod
import types

ROOT = '/sim/'


class File(object):
    """An inode: the bytes every later read sees."""

    def __init__(self, data=b''):
        self.data = bytearray(data)
        self.version = 0


class Fs(object):
    def __init__(self, kernel, cfg=None, faults=()):
        self.k = kernel
        self.cfg = cfg or {}
        self.files = {}
        self.opens = 0
        self.open_faults = {}
        self.writes = []       # every attempt to change anything
        self.handles = []
        for f in faults:
            if f.get('at') == 'fs':
                self.open_faults.setdefault(f['n'], []).append(dict(f))

    def put(self, path, data):
        self.files[path] = File(data)

    def heal(self):
        self.open_faults = {}
        for h in self.handles:
            h.faults = []

    def lookup(self, path):
        if path not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        return self.files[path]

    # -- the names a process sees ----------------------------------------------------------------------
    def opener(self, proc):
        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            path = os.fspath(file) if not isinstance(file, int) else file
            if isinstance(path, bytes):
                path = os.fsdecode(path)
            if not isinstance(path, str) or not path.startswith(ROOT):
                if any(c in mode for c in 'wax+'):
                    self.writes.append(('open', str(path), mode))
                    raise PermissionError(errno.EACCES, 'simulated process may not write real files', str(path))
                return io.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            return self._open(proc, path, mode, buffering, encoding, errors, newline)
        return sim_open

    def _open(self, proc, path, mode, buffering, encoding, errors, newline):
        k = self.k
        k.y()
        n = self.opens
        self.opens += 1
        faults = self.open_faults.get(n, [])
        for f in faults:
            if f['kind'] in ('enoent', 'eacces', 'emfile'):
                k.fault('fs_' + f['kind'])
                e = getattr(errno, f['kind'].upper())
                raise OSError(e, os.strerror(e), path)
        if any(c in mode for c in 'wax+'):
            self.writes.append(('open', path, mode))
            if 'x' in mode and path in self.files:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
            if 'w' in mode or (path not in self.files and '+' not in mode):
                self.put(path, b'')
        inode = self.lookup(path)
        raw = RawFile(self, proc, path, inode, n, [f for f in faults], mode)
        self.handles.append(raw)
        proc.files.append(raw)
        binary = 'b' in mode
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else 8192
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif any(c in mode for c in 'wax'):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        raw.buffer = buf
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def os_facade(self, proc):
        m = types.ModuleType('os')
        m.__dict__.update({a: b for a, b in vars(os).items()})
        path = types.ModuleType('os.path')
        path.__dict__.update(vars(os.path))
        fs = self

        def sim(p):
            return isinstance(p, str) and p.startswith(ROOT)

        def stat(p, *a, **kw):
            if not sim(p):
                return os.stat(p, *a, **kw)
            f = fs.lookup(p)
            return os.stat_result((statmod.S_IFREG | 0o644, 1, 1, 1, 0, 0, len(f.data), int(fs.k.now), int(fs.k.now),
                                   int(fs.k.now)))

        def denied(name):
            def fn(p, *a, **kw):
                fs.writes.append((name, str(p), ''))
                raise PermissionError(errno.EACCES, 'simulated', str(p))
            return fn
        m.stat = m.lstat = stat
        for name in ('remove', 'unlink', 'rename', 'replace', 'truncate', 'rmdir', 'mkdir', 'makedirs', 'chmod',
                     'utime', 'link', 'symlink'):
            setattr(m, name, denied(name))
        path.getsize = lambda p: stat(p).st_size
        path.getmtime = lambda p: stat(p).st_mtime
        path.exists = lambda p: p in fs.files if sim(p) else os.path.exists(p)
        path.isfile = lambda p: p in fs.files if sim(p) else os.path.isfile(p)
        m.path = path
        return {'os': m, 'os.path': path}


class RawFile(io.RawIOBase):
    def __init__(self, fs, proc, path, inode, n, faults, mode):
        self.fs = fs
        self.proc = proc
        self.path = path
        self.inode = inode
        self.n = n
        self.faults = faults
        self.hit = []
        self.mode_ = mode
        self.pos = len(inode.data) if 'a' in mode else 0
        self.rng = fs.k.rng('fs/%d' % n)

    name = property(lambda self: self.path)
    mode = property(lambda self: self.mode_)

    def readable(self):
        return 'r' in self.mode_ or '+' in self.mode_

    def writable(self):
        return any(c in self.mode_ for c in 'wax+')

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def seek(self, off, whence=0):
        self.pos = max(0, (off, self.pos + off, len(self.inode.data) + off)[whence])
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        k = self.fs.k
        if self.closed:
            raise ValueError('I/O operation on closed file')
        k.y()
        want = len(b)
        if want == 0:
            return 0
        cfg = self.fs.cfg
        if cfg.get('delay') and self.rng.random() < cfg['delay']:
            k.fault('fs_slow_read')
            k.sleep(self.rng.choice([0.01, 0.5, 20.0]))
        end = len(self.inode.data)
        for f in self.faults:
            p = f['pos']
            if f['kind'] == 'eio':
                if self.pos <= p < self.pos + want or (self.pos > p and f.get('sticky')):
                    if self.pos < p:
                        want = p - self.pos        # a read that first returns what is in front of the bad block
                    else:
                        k.fault('fs_eio')
                        self.hit.append(f)
                        if not f.get('sticky'):
                            self.faults.remove(f)
                        raise OSError(errno.EIO, os.strerror(errno.EIO), self.path)
        n = min(want, max(0, end - self.pos))
        short = cfg.get('short')
        if n > 1 and short:
            m = min(n, 1 + int(self.rng.expovariate(1.0 / short)))
            if m < n:
                k.fault('fs_short_read')
                n = m
        b[:n] = self.inode.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def write(self, b):
        self.fs.writes.append(('write', self.path, len(b)))
        d = bytes(b)
        self.inode.data[self.pos:self.pos + len(d)] = d
        self.pos += len(d)
        return len(d)

    def truncate(self, size=None):
        self.fs.writes.append(('truncate', self.path, size))
        del self.inode.data[self.pos if size is None else size:]
        return len(self.inode.data)
