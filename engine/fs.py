"""A file system for symbolic runs: files under ROOT hold byte strings with symbolic parts; a crash can be set at any change."""
import mmap
import os
from . import core as K

ROOT = '/sx-files/'


class Crash(BaseException):
    """the process dies here"""


class File:
    def __init__(self):
        self.size = 0
        self.chunks = []        # (start, data), newest last
        self.disk = None        # what a failure of the machine leaves

    def sync(self, a=0, b=None):
        b = self.size if b is None else min(b, self.size)
        d = self.disk = self.disk or File()
        d.truncate(self.size)
        if b > a:
            d.write(a, self.read(a, b))

    def read(self, a, b):
        from .rt import getitem
        from .rt import b_join
        b = min(b, self.size)
        parts = []

        def rd(a, b, i):
            while a < b and i >= 0:
                s, d = self.chunks[i]
                e = s + len(d)
                if s < b and e > a:
                    rd(a, min(b, s), i - 1)
                    x, y = max(a, s), min(b, e)
                    parts.append(d if (x, y) == (s, e) else getitem(d, slice(x - s, y - s)))
                    a = y if y < b else b
                    if a < b:
                        rd(a, b, i - 1)
                    return
                i -= 1
            if a < b:
                parts.append(bytes(b - a))
        rd(a, b, len(self.chunks) - 1)
        if not parts:
            return b''
        return parts[0] if len(parts) == 1 else b_join(b'', parts)

    def write(self, a, data):
        n = len(data)
        if n:
            e = a + n
            self.chunks = [c for c in self.chunks if not (c[0] >= a and c[0] + len(c[1]) <= e)]
            self.chunks.append((a, data))
            self.size = max(self.size, e)

    def truncate(self, n):
        from .rt import getitem
        if n < self.size:
            out = []
            for s, d in self.chunks:
                if s + len(d) > n:
                    if s >= n:
                        continue
                    d = getitem(d, slice(0, n - s))
                out.append((s, d))
            self.chunks = out
        self.size = n


class FS:
    def __init__(self):
        self.files = {}
        self.fds = {}
        self.crash = None       # [changes left before the crash, bytes of that change done]
        self.dead = False

    def change(self, n=None):
        """called before each change; returns how many of its n bytes happen (then dead is set), or None for all"""
        if self.dead:
            raise Crash()
        c = self.crash
        if c is None:
            return None
        if c[0] > 0:
            c[0] -= 1
            return None
        if c[1] and (n is None or c[1] >= n):
            raise K.PathEnd('no such crash point')
        self.dead = True
        if c[1]:
            return c[1]
        raise Crash()

    def crashing(self, fn, k, j):
        """run fn, the process dying at its k-th change after j bytes of it; False if fn ended before that"""
        from .rt import call
        self.crash, self.dead = [k, j], False
        try:
            call(fn)
            return self.dead
        except Crash:
            return True
        finally:
            self.crash, self.dead = None, False


def fs():
    st = K.C.state
    if 'fs' not in st:
        st['fs'] = FS()
    return st['fs']


def ours(path):
    if K.C is None:
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    return p if isinstance(p, str) and p.startswith(ROOT) else None


def tobytes(data):
    from .rt import call
    return call(bytes, data)


class Handle:
    """an open file"""
    def __init__(self, F, path, mode):
        m = mode.replace('b', '')
        self.F, self.path = F, path
        self.writable = m != 'r'
        self.readable_ = m[0] == 'r' or '+' in m
        self.closed = False
        if m[0] == 'r':
            if path not in F.files:
                raise FileNotFoundError(2, 'No such file or directory', path)
        elif m[0] == 'x' and path in F.files:
            raise FileExistsError(17, 'File exists', path)
        elif m[0] in 'wx' or path not in F.files:
            F.change()
            F.files[path] = File()
        self.f = F.files[path]
        self.append = m[0] == 'a'
        self.pos = self.f.size if self.append else 0
        self.fd = 1000 + len(F.fds)
        F.fds[self.fd] = self
        self.name = path

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def fileno(self):
        self._open()
        return self.fd

    def flush(self):
        self._open()

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        self._open()
        off = K.C.force(off) if isinstance(off, K.SymInt) else off
        self.pos = off + (0 if whence == 0 else self.pos if whence == 1 else self.f.size)
        return self.pos

    def read(self, n=-1):
        self._open()
        n = K.C.force(n) if isinstance(n, K.SymInt) else n
        e = self.f.size if n is None or n < 0 else min(self.f.size, self.pos + n)
        r = self.f.read(self.pos, e) if e > self.pos else b''
        self.pos = max(self.pos, e)
        return r

    def write(self, data):
        self._open()
        data = tobytes(data)
        if self.append:
            self.pos = self.f.size
        write(self.F, self.f, self.pos, data)
        self.pos += len(data)
        return len(data)

    def truncate(self, n=None):
        self._open()
        n = self.pos if n is None else n
        n = K.C.force(n) if isinstance(n, K.SymInt) else n
        self.F.change()
        self.f.truncate(n)
        return n


def write(F, f, pos, data, atomic=False):
    from .rt import getitem
    j = F.change(None if atomic else len(data))
    if j is None:
        f.write(pos, data)
        return
    f.write(pos, getitem(data, slice(0, j)))
    raise Crash()


def word(a, n):
    """a store of n bytes at offset a that lies within one aligned 8-byte word is taken to be atomic"""
    return a // 8 == (a + n - 1) // 8


class Map:
    """a shared memory map of a whole file"""
    def __init__(self, fd, length=0, *a, **k):
        F = fs()
        self.F = F
        self.f = F.fds[fd].f
        if length == 0:
            if self.f.size == 0:
                raise ValueError('cannot mmap an empty file')
            length = self.f.size
        elif length > self.f.size:
            raise ValueError('mmap length is greater than file size')
        self.n = length
        self.closed = False

    def _open(self):
        if self.closed:
            raise ValueError('mmap closed or invalid')

    def __len__(self):
        self._open()
        return self.n

    def size(self):
        self._open()
        return self.f.size

    def _slice(self, k):
        def c(x):
            return K.C.force(x, why='file offset') if isinstance(x, K.SymInt) else x
        return slice(c(k.start), c(k.stop), c(k.step)).indices(self.n)

    def __getitem__(self, k):
        self._open()
        if isinstance(k, slice):
            a, b, s = self._slice(k)
            if s != 1:
                raise K.Unsupported('mmap stride')
            return self.f.read(a, b) if b > a else b''
        k = K.C.force(k, why='file offset') if isinstance(k, K.SymInt) else k
        if k < 0:
            k += self.n
        if not 0 <= k < self.n:
            raise IndexError('mmap index out of range')
        from .rt import getitem
        return getitem(self.f.read(k, k + 1), 0)

    def __setitem__(self, k, v):
        self._open()
        if isinstance(k, slice):
            a, b, s = self._slice(k)
            v = tobytes(v)
            if s != 1:
                raise K.Unsupported('mmap stride')
            if len(v) != max(0, b - a):
                raise IndexError('mmap slice assignment is wrong size')
            if len(v):
                write(self.F, self.f, a, v, word(a, len(v)))
            return
        k = K.C.force(k, why='file offset') if isinstance(k, K.SymInt) else k
        if k < 0:
            k += self.n
        if not 0 <= k < self.n:
            raise IndexError('mmap index out of range')
        write(self.F, self.f, k, tobytes([v]), True)

    def close(self):
        self.closed = True

    def flush(self, offset=0, size=None):
        self._open()
        offset, size = (K.C.force(x) if isinstance(x, K.SymInt) else x for x in (offset, size))
        size = self.n - offset if size is None else size
        if offset < 0 or size < 0 or offset + size > self.n:
            raise ValueError('flush values out of range')
        if offset % mmap.ALLOCATIONGRANULARITY:
            raise OSError(22, 'Invalid argument')
        self.f.sync(offset, -(-(offset + size) // 4096) * 4096)

    def resize(self, n):
        self._open()
        n = K.C.force(n) if isinstance(n, K.SymInt) else n
        self.F.change()
        self.f.truncate(n)
        self.n = n


def install(model, mtype):
    import builtins

    @model(builtins.open)
    def m_open(path, mode='r', *a, **k):
        p = ours(path)
        if p is None:
            return open(path, mode, *a, **k)
        if 'b' not in mode:
            raise K.Unsupported('text file')
        return Handle(fs(), p, mode)

    @mtype(mmap.mmap)
    def m_mmap(fd, length=0, *a, **k):
        if K.C is None or fd not in fs().fds:
            return mmap.mmap(fd, length, *a, **k)
        return Map(fd, length, *a, **k)

    def on(fn, f):
        @model(fn)
        def g(path, *a, **k):
            p = ours(path)
            return fn(path, *a, **k) if p is None else f(p, *a, **k)

    def onfd(fn, f):
        @model(fn)
        def g(fd, *a, **k):
            if K.C is None or fd not in fs().fds:
                return fn(fd, *a, **k)
            return f(fs().fds[fd], *a, **k)

    def need(p):
        if p not in fs().files:
            raise FileNotFoundError(2, 'No such file or directory', p)
        return fs().files[p]

    def remove(p):
        need(p)
        fs().change()
        del fs().files[p]

    def replace(p, q):
        need(p)
        fs().change()
        fs().files[q] = fs().files.pop(p)

    def truncate(p, n):
        f = need(p)
        fs().change()
        f.truncate(n)
    on(os.path.exists, lambda p: p in fs().files)
    on(os.path.isfile, lambda p: p in fs().files)
    on(os.path.getsize, lambda p: need(p).size)
    on(os.remove, remove)
    on(os.unlink, remove)
    on(os.rename, replace)
    on(os.replace, replace)
    on(os.truncate, truncate)
    onfd(os.ftruncate, lambda h, n: h.truncate(n))
    onfd(os.fsync, lambda h: h.f.sync())
    onfd(os.fdatasync, lambda h: h.f.sync())
