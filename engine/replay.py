"""Concrete runs of harnesses on the real, uninstrumented code in /repo (run with /opt/venv/bin/python).

replay.py FILE        replays one counterexample; exit 1 if the property is violated on the real code, 0 if not
replay.py --batch IN OUT   runs many records; writes outcomes as JSON
"""
import builtins
import importlib
import io
import json
import mmap
import os
import resource
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('SX_REPO', '/repo')


class Skip(BaseException):
    pass


class Violation(BaseException):
    pass


class Conc:
    """The S object of concrete runs."""
    symbolic = False

    def __init__(self, rec):
        self.ins = rec['inputs']
        self.choices = rec['choices']
        self.rec = rec
        self.obs = []
        self.viol = None
        self.draws = 0
        self.drawfn = self.hmacs = None
        self.checks = 0
        self.state = {}
        self.fs = None

    def _get(self, name, n=None):
        if name not in self.ins:
            # input beyond the recorded path: any value is allowed
            return None
        t, v = self.ins[name]
        if t == 'bytes':
            return bytes.fromhex(v)
        if t == 'str':
            return ''.join(map(chr, v))
        return v

    def int(self, name, lo=None, hi=None):
        v = self._get(name)
        return (lo if lo is not None else 0) if v is None else v

    def bits(self, name, w):
        return self.int(name, 0)

    def bool(self, name):
        return bool(self._get(name))

    def bytes(self, name, n, word=None):
        v = self._get(name)
        return bytes(n) if v is None else v

    def blob(self, name, lo, hi):
        v = self._get(name)
        return bytes(lo) if v is None else v

    def str(self, name, n, alphabet=None):
        v = self._get(name)
        if v is None:
            c = '\0' if alphabet is None else alphabet[0]
            return (c if isinstance(c, str) else chr(c)) * n
        return v

    def choice(self, name, seq):
        return list(seq)[self.choices.get(name, 0)]

    def flag(self, name):
        return self.choice(name, [False, True])

    def draw(self, kind, n):
        i = self.draws
        self.draws += 1
        b = self.drawfn(self, i, n) if self.drawfn else self.bytes('%s_%d' % (kind, i), n)
        self.drawn_ = getattr(self, 'drawn_', []) + [b]
        return b

    def drawn(self):
        return list(getattr(self, 'drawn_', []))

    def file(self, name):
        if self.fs is None:
            self.fs = FS()
        return os.path.join(self.fs.dir, name)

    def file_bytes(self, path):
        if not os.path.exists(path):
            return None
        with REAL_OPEN(path, 'rb') as f:
            return f.read()

    def file_synced(self, path):
        return self.fs.disk.get(os.stat(path).st_ino)

    def file_set(self, path, data):
        with REAL_OPEN(path, 'wb') as f:
            f.write(data)

    def file_remove(self, path):
        if os.path.exists(path):
            REAL_OS['remove'](path)

    def crashing(self, fn, k, j=0):
        f = self.fs
        f.crash, f.dead = [k, j], False
        try:
            fn()
            return f.dead
        except Crash:
            return True
        finally:
            f.crash, f.dead = None, False

    def assume(self, c):
        if not c:
            raise Skip('assumption')

    def reach(self, label):
        pass

    def observe(self, name, v):
        self.obs.append([name, enc_obs(v)])

    def check(self, cond, label):
        self.checks += 1
        if not cond:
            self.viol = label
            raise Violation(label)
        return True

    def check_eq(self, a, b, label):
        try:
            r = bool(a == b)
        except Exception as e:
            self.viol = label + ' comparison raised ' + type(e).__name__
            raise Violation(label)
        if not r:
            self.detail = 'got %.300r expected %.300r' % (a, b)
        return self.check(r, label)

    def fail(self, label):
        self.check(False, label)

    def attempt(self, fn, *a, **k):
        try:
            return True, fn(*a, **k)
        except Exception as e:
            return False, e

    def ok(self, label, fn, *a, **k):
        try:
            return fn(*a, **k)
        except Exception as e:
            self.detail = ''.join(traceback.format_exception(e)[-3:])
            self.check(False, label + ': raised ' + type(e).__name__)

    def raises(self, label, types, fn, *a, **k):
        try:
            v = fn(*a, **k)
        except types as e:
            return e
        except Exception as e:
            self.detail = ''.join(traceback.format_exception(e)[-3:])
            self.check(False, label + ': raised ' + type(e).__name__)
        else:
            self.check(False, label + ': returned')
            return v

    def isa(self, e, types):
        return isinstance(e, types)

    def mulmod(self, a, b):
        return a * b % 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141


class Crash(BaseException):
    """the simulated death of the process"""


REAL_OPEN = open
REAL_OS = {n: getattr(os, n) for n in ('remove', 'unlink', 'rename', 'replace', 'truncate', 'ftruncate')}


class FS:
    """scratch directory for the files of one run; changes to its files are counted and can be cut short"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='sxreplay')
        self.crash, self.dead = None, False
        self.disk = {}          # inode -> what a failure of the machine leaves

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def change(self, n=None):
        if self.dead:
            raise Crash()
        c = self.crash
        if c is None:
            return None
        if c[0] > 0:
            c[0] -= 1
            return None
        if c[1] and (n is None or c[1] >= n):
            raise Skip('no such crash point')
        self.dead = True
        if c[1]:
            return c[1]
        raise Crash()

    def sync(self, ino, data, a, b):
        b = min(len(data), -(-b // 4096) * 4096)
        old = self.disk.get(ino, b'')
        old = (old + bytes(len(data)))[:len(data)]
        self.disk[ino] = old[:a] + data[a:b] + old[b:]

    def ours(self, path):
        return isinstance(path, (str, os.PathLike)) and os.fspath(path).startswith(self.dir)


class CFile(io.FileIO):
    def write(self, data):
        data = bytes(data)
        j = self.sxfs.change(len(data))
        if j is None:
            return super().write(data)
        super().write(data[:j])
        raise Crash()

    def truncate(self, n=None):
        self.sxfs.change()
        return super().truncate(n)


class CMap(mmap.mmap):
    def __setitem__(self, k, v):
        S = CUR[0]
        if S is None or S.fs is None:
            return super().__setitem__(k, v)
        if isinstance(k, slice):
            a, b, s = k.indices(len(self))
            n = max(0, b - a)
            if n != len(v) or n == 0:
                return super().__setitem__(k, v)
            j = S.fs.change(None if a // 8 == (b - 1) // 8 else n)
            if j is not None:
                super().__setitem__(slice(a, a + j), bytes(v)[:j])
                raise Crash()
        else:
            S.fs.change()
        return super().__setitem__(k, v)

    def __new__(cls, fd, *a, **k):
        r = super().__new__(cls, fd, *a, **k)
        if fd >= 0:
            st = os.fstat(fd)
            r.sxino = st.st_ino
        return r

    def flush(self, *a):
        r = super().flush(*a)
        S = CUR[0]
        if S is not None and S.fs is not None:
            off, size = (tuple(a) + (0, len(self))[len(a):])
            S.fs.sync(self.sxino, super().__getitem__(slice(0, len(self))), off, off + size)
        return r

    def resize(self, n):
        S = CUR[0]
        if S is not None and S.fs is not None:
            S.fs.change()
        return super().resize(n)


def count_changes():
    def copen(path, mode='r', *a, **k):
        S = CUR[0]
        if S is None or S.fs is None or not S.fs.ours(path) or 'b' not in mode:
            return REAL_OPEN(path, mode, *a, **k)
        if 'w' in mode or 'x' in mode and not os.path.exists(path) or 'a' in mode and not os.path.exists(path):
            S.fs.change()
        f = CFile(path, mode.replace('b', ''))
        f.sxfs = S.fs
        return f
    builtins.open = copen
    mmap.mmap = CMap

    def wrap(n):
        def f(path, *a, **k):
            S = CUR[0]
            if S is not None and S.fs is not None and (isinstance(path, int) or S.fs.ours(path)):
                if isinstance(path, int) or os.path.exists(path):
                    S.fs.change()
            return REAL_OS[n](path, *a, **k)
        setattr(os, n, f)
    for n in REAL_OS:
        wrap(n)

    def wrap_sync(n, real):
        def f(fd):
            S = CUR[0]
            real(fd)
            if S is not None and S.fs is not None and isinstance(fd, int):
                size = os.fstat(fd).st_size
                with REAL_OPEN('/proc/self/fd/%d' % fd, 'rb') as f:
                    S.fs.sync(os.fstat(fd).st_ino, f.read(), 0, size)
        setattr(os, n, f)
    wrap_sync('fsync', os.fsync)
    wrap_sync('fdatasync', os.fdatasync)


def enc_obs(v, depth=3):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (bytes, bytearray, memoryview)):
        return 'b:' + bytes(v).hex()
    if isinstance(v, str):
        return 's:' + v
    if v is None:
        return None
    if isinstance(v, BaseException) or isinstance(v, type):
        return 'x:' + (v if isinstance(v, type) else type(v)).__name__
    if isinstance(v, (list, tuple)) and depth:
        return [enc_obs(x, depth - 1) for x in v]
    return 'o:' + type(v).__name__


# ---------------------------------------------------------------------------------------------- oracle tables
TABLE = {}


def install_oracles():
    """Hash functions answer from TABLE first; installed before bitcoinx is imported."""
    import hashlib
    import hmac
    real_new = hashlib.new
    real_digest = hmac.digest
    real_pb = hashlib.pbkdf2_hmac

    class H:
        def __init__(self, name, data=b''):
            self.name = name
            self.data = bytes(data)
            h = real_new(name)
            self.digest_size, self.block_size = h.digest_size, h.block_size

        def update(self, d):
            self.data += bytes(d)

        def digest(self):
            r = TABLE.get((self.name, self.data))
            return real_new(self.name, self.data).digest() if r is None else r

        def hexdigest(self):
            return self.digest().hex()

        def copy(self):
            return H(self.name, self.data)

    def mk(name):
        def f(data=b'', **kw):
            return H(name, data)
        f.__name__ = 'openssl_' + name
        f.sxname = name
        return f
    names = {}
    for n in ('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'md5'):
        names[getattr(hashlib, n)] = n
        setattr(hashlib, n, mk(n))
    hashlib.new = lambda name, data=b'', **kw: H(name.lower().replace('-', ''), data)

    def nm(d):
        if isinstance(d, str):
            return d.lower().replace('-', '')
        return getattr(d, 'sxname', None) or names[d]

    def digest(key, msg, digest):
        n = nm(digest)
        r = TABLE.get(('hmac_' + n, bytes(key), bytes(msg)))
        return real_digest(key, msg, n) if r is None else r
    hmac.digest = digest

    class HM:
        def __init__(self, key, msg=None, digestmod=''):
            self.key, self.data, self.n = bytes(key), bytes(msg or b''), nm(digestmod)

        def update(self, d):
            self.data += bytes(d)

        def digest(self):
            return digest(self.key, self.data, self.n)

        def hexdigest(self):
            return self.digest().hex()
    hmac.new = HM
    hmac.HMAC = HM

    def pbkdf2(name, password, salt, iterations, dklen=None):
        n = nm(name)
        dk = dklen or real_new(n).digest_size
        r = TABLE.get(('pbkdf2_%s_%d_%d' % (n, iterations, dk), bytes(password), bytes(salt)))
        return real_pb(n, password, salt, iterations, dklen) if r is None else r
    hashlib.pbkdf2_hmac = pbkdf2
    from Cryptodome.Cipher import AES
    real_aes = AES.new

    class CBC:
        def __init__(self, key, mode, *a, **k):
            self.c = real_aes(key, mode, *a, **k)
            self.k, self.iv = bytes(key), bytes(a[0] if a else k.get('iv', k.get('IV')))

        def go(self, name, f, data):
            r = TABLE.get((name, self.k, self.iv, bytes(data)))
            return f(data) if r is None else r

        def encrypt(self, data):
            return self.go('aesenc', self.c.encrypt, data)

        def decrypt(self, data):
            return self.go('aesdec', self.c.decrypt, data)
    AES.new = CBC
    import pyaes

    def feeder(name, cls):
        class Feeder:
            def __init__(self, mode, *a, **k):
                self.real, self.buf = cls(mode, *a, **k), b''
                self.k, self.iv = mode.sx_key

            def feed(self, data=None):
                if data is not None:
                    self.buf += bytes(data)
                    return b''
                r = TABLE.get((name, self.k, self.iv, self.buf))
                return self.real.feed(self.buf) + self.real.feed() if r is None else r
        return Feeder

    class Mode(pyaes.AESModeOfOperationCBC):
        def __init__(self, key, iv=None):
            super().__init__(key, iv)
            self.sx_key = bytes(key), bytes(16) if iv is None else bytes(iv)
    pyaes.AESModeOfOperationCBC = Mode
    pyaes.Encrypter = feeder('aesenc', pyaes.Encrypter)
    pyaes.Decrypter = feeder('aesdec', pyaes.Decrypter)


def set_table(rec):
    TABLE.clear()
    for name, args, out in rec.get('oracles') or []:
        if name.split('_')[0] in ('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'ripemd160', 'md5', 'hmac', 'pbkdf2', 'aesenc', 'aesdec'):
            TABLE[(name,) + tuple(bytes.fromhex(a) for a in args)] = bytes.fromhex(out)
            if name in ('aesenc', 'aesdec'):    # and its inverse
                k, iv, d = args
                TABLE[('aesdec' if name == 'aesenc' else 'aesenc', bytes.fromhex(k), bytes.fromhex(iv), bytes.fromhex(out))] = bytes.fromhex(d)


CUR = [None]


def count_hmacs():
    import hmac

    def tick():
        S = CUR[0]
        if S is not None and S.hmacs is not None:
            S.hmacs -= 1
            if S.hmacs < 0:
                raise Skip('more HMAC evaluations than the bound')
    d = hmac.digest

    def digest(key, msg, digest):
        tick()
        return d(key, msg, digest)
    hmac.digest = digest


def load(prop):
    count_hmacs()
    count_changes()
    import os as _os
    real_urandom = _os.urandom

    def urandom(n):
        S = CUR[0]
        if S is None:
            return real_urandom(n)
        name = 'urandom_%d' % S.draws
        if S.drawfn and S.draws >= S.maxdraws:
            raise Skip('more draws than the bound')
        if S.drawfn or name in S.ins:
            return S.draw('urandom', n)
        return real_urandom(n)
    if getattr(_os.urandom, '__name__', '') != 'sx_urandom':
        urandom.__name__ = 'sx_urandom'
        _os.urandom = urandom
    from engine import reg
    import props
    for f in sorted(_os.listdir(_os.path.join(ROOT, 'props'))):
        if f.endswith('.py') and f != '__init__.py' and not f.startswith('_'):
            with open(_os.path.join(ROOT, 'props', f)) as fh:
                if "'%s'" % prop in fh.read():
                    importlib.import_module('props.' + f[:-3])
    return reg.HARNESSES[prop]


FRESH = [None]


def run_one(h, rec):
    """('held'|'violated'|'skip', label, detail, obs)"""
    if FRESH[0] is None:
        from engine.fresh import Fresh
        FRESH[0] = Fresh('bitcoinx')
    FRESH[0].restore()
    S = Conc(rec)
    S.detail = ''
    S.drawfn = h.opts.get('drawfn')
    S.maxdraws = h.opts.get('draws', 2)
    S.hmacs = h.opts.get('hmacs')
    CUR[0] = S
    set_table(rec)
    import logging
    logging.disable(logging.CRITICAL)
    try:
        h.fn(S, **rec['case'])
        r = ('held', '', '')
    except Skip as e:
        r = ('skip', str(e), '')
    except Violation:
        r = ('violated', S.viol, S.detail)
    except MemoryError:
        r = ('error', 'memory', '')
    except Exception as e:
        r = ('violated', 'uncaught ' + type(e).__name__, ''.join(traceback.format_exception(e)[-4:]))
    finally:
        CUR[0] = None
        if S.fs is not None:
            S.fs.remove()
    return r + (S.obs,)


class Slow(BaseException):
    pass


def slow(*_):
    raise Slow


def main():
    sys.path.insert(0, ROOT)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    if sys.argv[1] == '--batch':
        with open(sys.argv[2]) as f:
            job = json.load(f)
        if job.get('oracles'):
            install_oracles()
        hs = {h.name: h for h in load(job['property'])}
        resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
        signal.signal(signal.SIGALRM, slow)
        with open(sys.argv[3], 'w') as f:
            for rec in job['records']:
                try:
                    signal.setitimer(signal.ITIMER_REAL, job.get('each', 60), 1)
                    r = list(run_one(hs[rec['harness']], rec))
                except BaseException as e:
                    if isinstance(e, KeyboardInterrupt):
                        raise
                    r = ['error', type(e).__name__, ''.join(traceback.format_exception(e)[-4:]), []]
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                f.write(json.dumps(r) + '\n')
                f.flush()
        return 0
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    if rec.get('use_oracles'):
        install_oracles()
    hs = {h.name: h for h in load(rec['property'])}
    st, label, detail, obs = run_one(hs[rec['harness']], rec)
    print('%s: %s %s' % (st, label, detail))
    return 1 if st == 'violated' else 0


if __name__ == '__main__':
    sys.exit(main())
