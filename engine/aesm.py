"""AES-CBC as an arbitrary keyed permutation of whole messages (the block cipher libraries are not executed symbolically)."""
from Cryptodome.Cipher import AES
import pyaes
from . import core as K, sbytes as B
from . import rt
from .core import And, Or, Not
from .sbytes import SymBytes, mkbytes

BL = (bytes, bytearray, memoryview, SymBytes)
NEW = AES.new


def real(enc, k, iv, data):
    c = NEW(bytes(k), AES.MODE_CBC, bytes(iv))
    return c.encrypt(bytes(data)) if enc else c.decrypt(bytes(data))


def run(enc, k, iv, data):
    C = K.C
    k, iv, data = rt.settled(rt.bytesarg(k)), rt.settled(rt.bytesarg(iv)), rt.settled(rt.bytesarg(data))
    if C is None:
        return real(enc, k, iv, data)
    log = C.state.setdefault('aes', [])
    n = rt.m_len(data) if isinstance(data, SymBytes) else len(data)
    n = C.force(n) if not isinstance(n, int) else n
    if n == 0:
        return b''
    for (k2, iv2, p, c, m) in log:
        if m == n and rt.args_eq((k, iv, data), (k2, iv2, p if enc else c), True) is True:
            return c if enc else p
    if not rt.deep_sym((k, iv, data), 1):
        out = real(enc, k, iv, data)
    else:
        nm = 'aes_%d' % len(C.oracles)
        out = mkbytes([[C.fresh(0, 255, '%s_%d' % (nm, i)) for i in range(n)]])
    p, c = (data, out) if enc else (out, data)
    for (k2, iv2, p2, c2, m) in log:
        if m != n:
            continue
        e = rt.args_eq((k, iv), (k2, iv2))
        if e is False or e is None:
            continue
        pe, ce = B.sb_eq(p, p2), B.sb_eq(c, c2)
        e, pe, ce = rt.SBool(e), rt.SBool(pe), rt.SBool(ce)
        C.lazy.append(Or(Not(e), And(pe, ce), And(Not(pe), Not(ce))))
    log.append((k, iv, p, c, n))
    C.oracles.append(('aesenc' if enc else 'aesdec', (k, iv, data), out, n))
    return out


def check(key, iv):
    for x in (key, iv):
        if not isinstance(x, BL):
            raise TypeError('Object type cannot be passed to C code')
    if rt.m_len(key) not in (16, 24, 32):
        raise ValueError('Incorrect AES key length')
    if rt.m_len(iv) != 16:
        raise ValueError('Incorrect IV length (it must be 16 bytes long)')


class CBC:
    def __init__(self, key, iv):
        check(key, iv)
        self.key, self.iv, self.used = key, iv, None

    def go(self, enc, data):
        if not isinstance(data, BL):
            raise TypeError('Object type cannot be passed to C code')
        if self.used is not None:
            raise K.Unsupported('cipher object used twice')
        self.used = enc
        if rt.m_len(data) % 16:
            raise ValueError('Data must be padded to 16 byte boundary in CBC mode')
        return run(enc, self.key, self.iv, data)

    def encrypt(self, data):
        return self.go(True, data)

    def decrypt(self, data):
        return self.go(False, data)


def new(key, mode, *args, **kw):
    if K.C is None:
        return NEW(key, mode, *args, **kw)
    if mode != AES.MODE_CBC:
        raise K.Unsupported('AES mode')
    iv = args[0] if args else kw.get('iv', kw.get('IV'))
    if iv is None:
        raise K.Unsupported('random IV')
    return CBC(key, iv)


class PyMode:
    def __init__(self, key, iv=None):
        check(key, b'\0' * 16 if iv is None else iv)
        self.key, self.iv = key, b'\0' * 16 if iv is None else iv


class Feeder:
    """pyaes block feeder without padding; hands out everything at the end"""
    def __init__(self, enc, mode, padding):
        if padding != pyaes.PADDING_NONE:
            raise K.Unsupported('pyaes padding')
        self.enc, self.mode, self.buf, self.done = enc, mode, b'', False

    def feed(self, data=None):
        if self.done:
            raise ValueError('already finished feeder')
        if data is None:
            self.done = True
            n = rt.m_len(self.buf)
            if n % 16 or n == 0:
                raise Exception('invalid data length for final block')
            return run(self.enc, self.mode.key, self.mode.iv, self.buf)
        self.buf = rt.b_join(b'', [self.buf, data])
        return b''


def install():
    rt.FUNCS[NEW] = new

    def ty(cls, f):
        rt.TYPES[cls] = lambda *a, **k: cls(*a, **k) if K.C is None else f(*a, **k)
    ty(pyaes.AESModeOfOperationCBC, PyMode)
    ty(pyaes.Encrypter, lambda mode, padding=pyaes.PADDING_DEFAULT: Feeder(True, mode, padding))
    ty(pyaes.Decrypter, lambda mode, padding=pyaes.PADDING_DEFAULT: Feeder(False, mode, padding))
