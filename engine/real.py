"""The real functions behind the uninterpreted ones (used to make counterexamples concrete)."""
import hashlib
import hmac
from . import ec

UNKNOWN = object()


def off_curve(v):
    if len(v) == 1:
        return ec.on_curve_x(v[0]) is None
    x, y = v
    return x >= ec.Pm or y >= ec.Pm or (x ** 3 + 7 - y * y) % ec.Pm != 0


def nonce(msg, key):
    """RFC 6979 with SHA-256, as libsecp256k1's default nonce function"""
    def h(k, m):
        return hmac.digest(k, m, 'sha256')
    k, v = bytes(32), b'\1' * 32
    data = key + msg
    k = h(k, v + b'\0' + data)
    v = h(k, v)
    k = h(k, v + b'\1' + data)
    v = h(k, v)
    while True:
        v = h(k, v)
        n = int.from_bytes(v, 'big')
        if 0 < n < ec.N:
            yield n
        k = h(k, v + b'\0')
        v = h(k, v)


def sign(m, d):
    for k in nonce(m.to_bytes(32, 'big'), d.to_bytes(32, 'big')):
        x, y = ec.pmul(k)
        r = x % ec.N
        s = pow(k, -1, ec.N) * (m + r * d) % ec.N
        if r == 0 or s == 0:
            continue
        rid = (2 if x >= ec.N else 0) | (y & 1)
        if s > ec.N // 2:
            s = ec.N - s
            rid ^= 1
        return r, s, rid


def verify(r, s, m, d):
    if not (0 < r < ec.N and 0 < s <= ec.N // 2):
        return 0
    w = pow(s, -1, ec.N)
    p = ec.pmul((m * w + r * w * d) % ec.N)
    return 1 if p is not None and p[0] % ec.N == r else 0


def call(name, v, ol):
    base = name.split('_')[0]
    try:
        if name == 'ec':
            return ec.pmul(v[0])
        if name == 'ecsign':
            return sign(*v)
        if name == 'ecver':
            return verify(*v)
        if name == 'ecrec':
            return UNKNOWN
        if base in ('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'md5', 'ripemd160') and len(v) == 1:
            return hashlib.new(name, v[0]).digest()
        if base == 'hmac':
            return hmac.digest(v[0], v[1], name[5:])
        if base == 'pbkdf2':
            _, n, it, dk = name.split('_')
            return hashlib.pbkdf2_hmac(n, v[0], v[1], int(it), int(dk))
        if base in ('aesenc', 'aesdec'):
            from . import aesm
            return aesm.real(base == 'aesenc', *v)
    except Exception:
        return UNKNOWN
    return UNKNOWN
