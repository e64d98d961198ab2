"""E01-E11: keys, signatures, encryption."""
from base64 import b64encode
import hashlib
import hmac

from Cryptodome.Cipher import AES
from bitcoinx import (
    PrivateKey, PublicKey, Coin, Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest, Base58Error,
    base58_encode_check, sha256, double_sha256, sha512, hash160, DecryptionError, InvalidSignatureError, Signature, SigHash,
    der_signature_to_compact, compact_signature_to_der, BIP32PrivateKey, P2PKH_Address, is_minikey, pack_varbytes,
)
from bitcoinx import aes
from bitcoinx.keys import CURVE_ORDER
from bitcoinx.signature import to_recoverable_signature, to_message_signature
from engine.reg import prop

HASH = 'hash and HMAC functions are arbitrary functions (equal inputs give equal outputs)'
EC = 'libsecp256k1 follows its documented contract (engine/ec.py)'
CBC = 'AES-CBC is an arbitrary invertible function of the data for each key and IV'
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
COINS = (Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest)
WIFB = (0x80, 0xef, 0xef, 0xef)
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def sym_secret(S, name):
    d = S.bytes(name, 32, word='big')
    v = int.from_bytes(d, 'big')
    S.assume(v > 0)
    S.assume(v < N)
    return d, v


def sym_key(S, name, both=True):
    d, v = sym_secret(S, name)
    return PrivateKey(d, S.flag('c_' + name) if both else True, S.choice('coin_' + name, COINS[:2]) if both else Bitcoin), v


# ------------------------------------------------------------------------------------------------ E01
@prop('E01', bounds='every 32-byte string', assumes=[EC], reach=('valid', 'invalid'))
def secret_bytes(S):
    b = S.bytes('b', 32, word='big')
    v = int.from_bytes(b, 'big')
    good = v != 0 and v < N
    c = S.flag('compressed')
    for f, x in ((lambda x: PrivateKey(x, c), b), (PrivateKey.from_hex, b.hex()), (PrivateKey.from_int, v)):
        ok, k = S.attempt(f, x)
        S.check(ok == good, 'valid exactly for 1..n-1')
        if ok:
            S.check_eq(k.to_bytes(), b, 'bytes')
            S.check_eq(k.to_int(), v, 'int')
            S.check_eq(k.to_hex(), b.hex(), 'hex')
            S.check(k.coin() is Bitcoin, 'default coin')
        else:
            S.check(S.isa(k, ValueError), 'ValueError')
    if good:
        S.reach('valid')
        S.check(PrivateKey(b, c).is_compressed() is c, 'compression')
        S.check(PrivateKey(b, c).public_key.is_compressed() is c, 'compression')
        S.check(PrivateKey(b, c, BitcoinTestnet).coin() is BitcoinTestnet, 'coin')
        S.check(PrivateKey(b, c, BitcoinTestnet).public_key.coin() is BitcoinTestnet, 'coin')
    else:
        S.reach('invalid')


@prop('E01', bounds='every integer from -2^600 to 2^600', assumes=[EC], reach=('valid', 'invalid'))
def secret_int(S):
    v = S.int('v', -2 ** 600, 2 ** 600)
    ok, k = S.attempt(PrivateKey.from_int, v)
    good = 1 <= v and v < N
    S.check(ok == good, 'valid exactly for 1..n-1')
    if ok:
        S.check_eq(k.to_int(), v, 'int')
        S.check_eq(int.from_bytes(k.to_bytes(), 'big'), v, 'bytes')
    S.reach('valid' if good else 'invalid')


@prop('E01', cases=[dict(n=n) for n in (0, 1, 31, 33, 64)], bounds='every string of 0, 1, 31, 33, 64 bytes; wrong types; hex text of those lengths', assumes=[EC])
def secret_size(S, n):
    b = S.bytes('b', n)
    S.raises('size', ValueError, PrivateKey, b)
    S.raises('size', ValueError, PrivateKey.from_hex, b.hex())
    for x in (bytearray(b'a' * 32), 'a' * 32, None, 5, memoryview(b'a' * 32)):
        S.raises('type', TypeError, PrivateKey, x)


@prop('E01', cases=[dict(n=n) for n in (0, 1, 31, 32, 33, 40, 65, 97, 130)], thorough=[dict(n=n) for n in (64, 100, 257, 600)],
      bounds='arbitrary byte strings of 0, 1, 31..33, 40, 65, 97, 130 (thorough: 64, 100, 257, 600) bytes', assumes=[EC], reach=())
def arbitrary(S, n):
    b = S.bytes('b', n, word='big')
    v = int.from_bytes(b, 'big') % N
    ok, k = S.attempt(PrivateKey.from_arbitrary_bytes, b)
    S.check(ok == (v != 0), 'valid unless zero')
    if ok:
        S.check_eq(k.to_int(), v, 'value modulo the order')
    else:
        S.check(S.isa(k, ValueError), 'ValueError')


@prop('E01', bounds='every pair of valid secrets', assumes=[EC], reach=('same', 'differ'))
def secret_eq(S):
    k, v = sym_key(S, 'k')
    l, w = sym_key(S, 'l')
    S.check((k == l) == (v == w), 'equal exactly when the secrets are')
    if v == w:
        S.reach('same')
        S.check(hash(k) == hash(l), 'hash equally')
    else:
        S.reach('differ')
    S.check(k != v and k != k.to_bytes() and k != None, 'not equal to other types')     # noqa: E711


# ------------------------------------------------------------------------------------------------ E02
@prop('E02', bounds='every secret, all coins, compression and override arguments', assumes=[EC, HASH], hash_order='bytes')
def wif(S):
    d, v = sym_secret(S, 'd')
    c, i = S.flag('c'), S.choice('coin', range(4))
    k = PrivateKey(d, c, COINS[i])
    oc = S.choice('override', (None, True, False))
    oi = S.choice('ocoin', (None, 0, 1))
    if oc is None and oi is None:
        t = k.to_WIF()
    elif oc is None:
        t = k.to_WIF(coin=COINS[oi])
    elif oi is None:
        t = k.to_WIF(compressed=oc)
    else:
        t = k.to_WIF(coin=COINS[oi], compressed=oc)
    ec = c if oc is None else oc
    ei = i if oi is None else oi
    S.check_eq(t, base58_encode_check(bytes([WIFB[ei]]) + d + (b'\1' if ec else b'')), 'WIF layout')
    for f in (PrivateKey.from_WIF, PrivateKey.from_text):
        r = S.ok('parses', f, t)
        S.check_eq(r.to_bytes(), d, 'secret')
        S.check(r == k, 'equal')
        S.check(r.is_compressed() is ec, 'compression')
        S.check_eq(r.coin().WIF_byte, WIFB[ei], 'network')


@prop('E02', bounds='a secret with any last byte, either form; written for four networks in turn, two of them with own version bytes that agree in some bits', assumes=[EC, HASH], hash_order='bytes')
def wif_in_turn(S):
    d = bytes(range(1, 32)) + S.bytes('d', 1)
    c = S.flag('c')
    k = PrivateKey(d, c)
    own = [Coin('own%d' % i, Bitcoin.genesis_header.hex(), None, S.choice('v%d' % i, ((0, 128), (0, 5))[i]), 5, (130, 2)[i],
                bytes([9, 9, i, 1]), bytes([9, 9, i, 2]), 'own') for i in range(2)]
    seen = S.choice('order', ((Bitcoin, own[0], own[1], Bitcoin), (own[0], own[1], own[0], None), (BitcoinTestnet, own[0], None, BitcoinTestnet)))
    for coin in seen:
        for form in (None, not c, c):
            t = k.to_WIF(coin=coin, compressed=form)
            S.check_eq(t, base58_encode_check(bytes([(coin or Bitcoin).WIF_byte]) + d + (b'\1' if (c if form is None else form) else b'')), 'WIF layout')


@prop('E02', cases=[dict(n=n) for n in (0, 1, 2, 32, 33, 34, 35)], thorough=[dict(n=n) for n in (3, 20, 31, 36, 66)],
      bounds='every Base58Check payload of 0..2, 32..35 (thorough: more) bytes', assumes=[EC, HASH], hash_order='bytes', reach=())
def wif_payload(S, n):
    p = S.bytes('p', n)
    t = base58_encode_check(p)
    ok, k = S.attempt(PrivateKey.from_WIF, t)
    good = n in (33, 34)
    if good:
        s = int.from_bytes(p[1:33], 'big')
        good = s != 0 and s < N and (p[0] == 0x80 or p[0] == 0xef) and (n == 33 or p[33] == 1)
    S.check(ok == good, 'accepted iff well formed')
    if ok:
        S.check_eq(k.to_bytes(), p[1:33], 'secret')
        S.check(k.is_compressed() == (n == 34), 'compression')
        S.check(k.coin().WIF_byte == p[0], 'network')
    else:
        S.check(S.isa(k, ValueError), 'ValueError')


@prop('E02', cases=[dict(n=n) for n in (0, 1, 2, 5)], thorough=[dict(n=n) for n in (50, 51, 52, 53)],
      bounds='every base58 text of 0, 1, 2, 5 (thorough: 50..53) characters', assumes=[EC, HASH], hash_order='bytes', reach=())
def wif_text(S, n):
    t = S.str('t', n, B58)
    ok, k = S.attempt(PrivateKey.from_WIF, t)
    if ok:
        S.check_eq(k.to_WIF(), t, 'only WIF text is accepted')
    else:
        S.check(S.isa(k, ValueError), 'ValueError')


# ------------------------------------------------------------------------------------------------ E03
def same_attrs(S, r, k):
    S.check(r.is_compressed() is k.is_compressed(), 'compression kept')
    S.check(r.coin() is k.coin(), 'coin kept')


@prop('E03', bounds='every key and every 32-byte tweak', assumes=[EC], reach=('ok', 'bad'))
def tweak_add(S):
    k, v = sym_key(S, 'k')
    t = S.bytes('t', 32, word='big')
    w = int.from_bytes(t, 'big')
    P = k.public_key
    want = (v + w) % N
    good = w < N and want != 0
    ok, r = S.attempt(k.add, t)
    S.check(ok == good, 'private: succeeds iff in range')
    ok2, R = S.attempt(P.add, t)
    S.check(ok2 == good, 'public: succeeds iff in range')
    S.reach('ok' if good else 'bad')
    if ok:
        S.check_eq(r.to_int(), want, 'sum')
        S.check(type(r) is PrivateKey, 'type')
        same_attrs(S, r, k)
        S.check(R == PrivateKey.from_int(want).public_key, 'public sum')
        S.check(R == r.public_key, 'agree')
        same_attrs(S, R, k)
        same_attrs(S, r.public_key, k)
    else:
        S.check(S.isa(r, ValueError) and S.isa(R, ValueError), 'ValueError')
    S.check_eq(k.to_int(), v, 'operand unchanged')
    S.check(P == PrivateKey.from_int(v).public_key, 'operand unchanged')


@prop('E03', bounds='every key and every 32-byte tweak', assumes=[EC], reach=('ok', 'bad'))
def tweak_mul(S):
    k, v = sym_key(S, 'k')
    t = S.bytes('t', 32, word='big')
    w = int.from_bytes(t, 'big')
    P = k.public_key
    good = w < N and w != 0
    ok, r = S.attempt(k.multiply, t)
    S.check(ok == good, 'private: succeeds iff in range')
    ok2, R = S.attempt(P.multiply, t)
    S.check(ok2 == good, 'public: succeeds iff in range')
    S.reach('ok' if good else 'bad')
    if ok:
        want = S.mulmod(v, w)
        S.check_eq(r.to_int(), want, 'product')
        same_attrs(S, r, k)
        S.check(R == PrivateKey.from_int(want).public_key, 'public product')
        S.check(R == r.public_key, 'agree')
        same_attrs(S, R, k)
    else:
        S.check(S.isa(r, ValueError) and S.isa(R, ValueError), 'ValueError')
    S.check_eq(k.to_int(), v, 'operand unchanged')
    S.check(P == PrivateKey.from_int(v).public_key, 'operand unchanged')


@prop('E03', cases=[dict(n=n) for n in (1, 2, 3)], bounds='1..3 arbitrary keys', assumes=[EC])
def combine(S, n):
    ks, vs = [], []
    for i in range(n):
        d, v = sym_secret(S, 'k%d' % i)
        ks.append(PrivateKey(d, S.flag('c%d' % i) if i < 2 else True, COINS[i % 2]))
        vs.append(v)
    t = sum(vs) % N
    ok, R = S.attempt(PublicKey.combine_keys, [k.public_key for k in ks])
    S.check(ok == (t != 0), 'fails only for the point at infinity')
    if ok:
        S.check(R == PrivateKey.from_int(t).public_key, 'sum of the secrets')
        same_attrs(S, R, ks[0])
    else:
        S.check(S.isa(R, ValueError), 'ValueError')
    for k, v in zip(ks, vs):
        S.check(k.public_key == PrivateKey.from_int(v).public_key, 'operands unchanged')


@prop('E03', cases=[dict(n=n) for n in (0, 31, 33)], bounds='tweaks of 0, 31, 33 bytes and of other types; no keys to combine', assumes=[EC])
def tweak_bad(S, n):
    k = PrivateKey.from_int(5)
    t = S.bytes('t', n)
    for x in (k, k.public_key):
        for f in (x.add, x.multiply):
            S.raises('size', ValueError, f, t)
            for y in (bytearray(32), '1' * 32, 1, None):
                S.raises('type', TypeError, f, y)
    S.raises('nothing', ValueError, PublicKey.combine_keys, [])


# ------------------------------------------------------------------------------------------------ E04
@prop('E04', bounds='every public key, own and requested form', assumes=[EC], reach=('c', 'u'))
def pub_roundtrip(S):
    k, v = sym_key(S, 'k')
    P = k.public_key
    own = P.is_compressed()
    o = S.choice('form', (None, True, False))
    b = P.to_bytes() if o is None else P.to_bytes(compressed=o)
    f = own if o is None else o
    S.reach('c' if f else 'u')
    x, y = P.to_point()
    xb = x.to_bytes(32, 'big')
    S.check_eq(b, (b'\3' if y % 2 else b'\2') + xb if f else b'\4' + xb + y.to_bytes(32, 'big'), 'encoding')
    S.check_eq(P.to_hex() if o is None else P.to_hex(compressed=o), b.hex(), 'hex')
    for Q in (S.ok('bytes', PublicKey.from_bytes, b), S.ok('hex', PublicKey.from_hex, b.hex())):
        S.check(Q == P, 'equal')
        S.check(Q.is_compressed() is f, 'compression as in the encoding')
        S.check(hash(Q) == hash(P), 'hashes equally')
        S.check_eq(Q.to_bytes(), b, 'same bytes again')
    Q = S.ok('point', PublicKey.from_point, x, y)
    S.check(Q == P, 'equal')
    S.check(Q.is_compressed() is False, 'point form is uncompressed')
    C = P.complement()
    S.check(C == P and hash(C) == hash(P), 'complement is equal')
    S.check(C.is_compressed() is not own, 'complement flips compression')
    S.check(C.coin() is P.coin(), 'complement keeps coin')
    S.check(C.complement().is_compressed() is own, 'twice')
    S.check(P.is_compressed() is own, 'operand unchanged')


@prop('E04', bounds='every pair of keys', assumes=[EC], reach=('same', 'differ'))
def pub_eq(S):
    k, v = sym_key(S, 'k')
    l, w = sym_key(S, 'l')
    S.check((k.public_key == l.public_key) == (v == w), 'equal exactly when the points are')
    if v == w:
        S.reach('same')
        S.check(hash(k.public_key) == hash(l.public_key), 'hash equally')
    else:
        S.reach('differ')
    S.check(k.public_key != k.public_key.to_bytes(), 'other types')


@prop('E04', cases=[dict(n=n) for n in (0, 1, 32, 33, 34, 64, 65, 66)], bounds='every string of 0, 1, 32..34, 64..66 bytes', assumes=[EC], reach=())
def pub_parse(S, n):
    b = S.bytes('b', n)
    ok, P = S.attempt(PublicKey.from_bytes, b)
    if n not in (33, 65):
        S.check(not ok, 'length')
    if ok:
        if n == 33:
            S.check(b[0] == 2 or b[0] == 3, 'prefix')
        else:
            S.check(b[0] == 4 or b[0] == 6 or b[0] == 7, 'prefix')
        S.check(P.is_compressed() == (n == 33), 'compression')
        x, y = P.to_point()
        S.check_eq(x, int.from_bytes(b[1:33], 'big'), 'x')
        if n == 33:
            S.check(y % 2 == b[0] % 2, 'parity')
        else:
            S.check_eq(y, int.from_bytes(b[33:], 'big'), 'y')
    else:
        S.check(S.isa(P, ValueError), 'ValueError')


@prop('E04', bounds='coordinates from -2 to 2^257', assumes=[EC])
def pub_point(S):
    x, y = S.int('x', -2, 2 ** 257), S.int('y', -2, 2 ** 257)
    ok, P = S.attempt(PublicKey.from_point, x, y)
    if ok:
        S.check(P.to_point() == (x, y), 'coordinates')
    else:
        S.check(S.isa(P, (ValueError, OverflowError)), 'rejected')


FIELD = 2 ** 256 - 2 ** 32 - 977


def near(x=None, y=None):
    """the point with the first x (or y) from there on that has one"""
    while True:
        if y is None:
            r = pow(x ** 3 + 7, (FIELD + 1) // 4, FIELD)
            if r * r % FIELD == (x ** 3 + 7) % FIELD:
                return x, r
            x += 1
        else:
            r = pow(y * y - 7, (FIELD + 2) // 9, FIELD)
            if r ** 3 % FIELD == (y * y - 7) % FIELD:
                return r, y
            y += 1


ODD_POINTS = [near(x=1 << b) for b in (0, 8, 100, 231, 240, 247, 248)] + [near(y=1 << b) for b in (0, 8, 100, 231, 240, 247, 248)] + \
    [near(x=FIELD - 50), near(y=FIELD - 50), near(x=N), near(y=N), near(x=7 << 248), near(y=7 << 240)]


@prop('E04', bounds='points with x or y near powers of 2 from 1 to 2^248, near the order and near the prime of the field, both signs of y; every form', assumes=[EC], reach=('even', 'odd'))
def odd_points(S):
    x, y = ODD_POINTS[S.int('i', 0, len(ODD_POINTS) - 1)]
    if S.flag('negative'):
        y = FIELD - y
    S.reach('odd' if y % 2 else 'even')
    xb, yb = x.to_bytes(32, 'big'), y.to_bytes(32, 'big')
    c, u = bytes([2 + y % 2]) + xb, b'\4' + xb + yb
    ps = [S.ok('point', PublicKey.from_point, x, y), S.ok('compressed', PublicKey.from_bytes, c), S.ok('uncompressed', PublicKey.from_bytes, u),
          S.ok('hex', PublicKey.from_hex, c.hex())]
    for P in ps:
        S.check(P == ps[0] and hash(P) == hash(ps[0]), 'the same point')
        S.check(P.to_point() == (x, y), 'coordinates')
        S.check(P.to_bytes(compressed=True) == c and P.to_bytes(compressed=False) == u, 'encodings')


# ------------------------------------------------------------------------------------------------ E05
@prop('E05', bounds='every two key pairs of either form and every 32-byte message hash', assumes=[EC, HASH], reach=('ok',))
def shared(S):
    k, v = sym_key(S, 'k')
    l, w = sym_key(S, 'l')
    h = S.choice('hasher', (0, 1, 2))
    m = S.bytes('m', 32)
    if h == 0:
        args, t = (m,), sha256(m)
    elif h == 1:
        args, t = (m, None), m
    else:
        args, t = (m, double_sha256), double_sha256(m)
    t = int.from_bytes(t, 'big')
    ok1, a = S.attempt(k.shared_secret, l.public_key, *args)
    ok2, b = S.attempt(l.shared_secret, k.public_key, *args)
    S.check(ok1 == ok2, 'both or neither')
    good = t < N and (v + t) % N != 0 and (w + t) % N != 0
    S.check(ok1 == good, 'fails only out of range')
    if ok1:
        S.reach('ok')
        S.check(a == b, 'same secret')
        S.check(a == PrivateKey.from_int(S.mulmod((v + t) % N, (w + t) % N)).public_key, 'product of the sums')


@prop('E05', bounds='every two key pairs', assumes=[EC])
def ecdh(S):
    k, v = sym_key(S, 'k')
    l, w = sym_key(S, 'l')
    a, b = k.ecdh_shared_secret(l.public_key), l.ecdh_shared_secret(k.public_key)
    S.check(a == b, 'same secret')
    S.check(a == PrivateKey.from_int(S.mulmod(v, w)).public_key, 'product')


@prop('E05', bounds='every private key, two keys of theirs; secrets with both forms of one and with a second key in turn, then again', assumes=[EC, HASH])
def in_turn(S):
    k, v = sym_key(S, 'k', False)
    l, w = PrivateKey.from_int(77), 77
    other = PrivateKey.from_int(9)
    L = l.public_key if S.flag('form') else l.public_key.complement()
    for P, x in ((L, w), (L.complement(), w), (other.public_key, 9), (L, w)):
        r = S.ok('secret', k.ecdh_shared_secret, P)
        S.check(r == PrivateKey.from_int(S.mulmod(v, x)).public_key, 'product')
        S.check(r.is_compressed() is P.is_compressed(), 'in the form of their key')
        S.check(len(r.to_bytes()) == (33 if P.is_compressed() else 65), 'bytes in the form of their key')


@prop('E05', bounds='two fixed keys, every two message hashes in turn', assumes=[EC, HASH], reach=('ok',))
def messages_in_turn(S):
    k, v, l, w = PrivateKey.from_int(12345), 12345, PrivateKey.from_int(77), 77
    m1, m2 = S.bytes('m1', 32), S.bytes('m2', 32)
    for P, m in ((l.public_key, m1), (l.public_key.complement(), m2)):
        t = int.from_bytes(m, 'big')
        ok, a = S.attempt(k.shared_secret, P, m, None)
        S.check(ok == (t < N and (v + t) % N != 0 and (w + t) % N != 0), 'fails only out of range')
        if ok:
            S.reach('ok')
            S.check(a == PrivateKey.from_int(S.mulmod((v + t) % N, (w + t) % N)).public_key, 'product of the sums')
            S.check(a.is_compressed() is P.is_compressed(), 'in the form of their key')


@prop('E05', cases=[dict(n=n) for n in (0, 5, 31, 32, 33)], bounds='messages of 0, 5, 31..33 bytes', assumes=[EC, HASH], reach=())
def shared_message(S, n):
    k, v = sym_key(S, 'k', False)
    l, w = sym_key(S, 'l', False)
    m = S.bytes('m', n)
    if n != 32:
        S.raises('hash must have 32 bytes', ValueError, k.shared_secret, l.public_key, m, None)
    ok, a = S.attempt(k.shared_secret, l.public_key, m)
    t = int.from_bytes(sha256(m), 'big')
    good = t < N and (v + t) % N != 0 and (w + t) % N != 0
    S.check(ok == good, 'hashed to 32 bytes')
    if ok:
        S.check(a == PrivateKey.from_int(S.mulmod((v + t) % N, (w + t) % N)).public_key, 'secret')
    else:
        S.check(S.isa(a, ValueError), 'ValueError')


# ------------------------------------------------------------------------------------------------ E06
def der_number(v):
    """DER integer of v with 0 <= v < 2^256 (its length is decided by branching)"""
    n = 1
    while v >= 1 << (8 * n - 1):
        n += 1
    return bytes([2, n]) + v.to_bytes(n, 'big')


def der_of(r, s):
    body = der_number(r) + der_number(s)
    return bytes([0x30, len(body)]) + body


def bounded(S, name, n):
    """number whose DER encoding has exactly n content bytes, as (32 bytes, value)"""
    if n < 33:
        v = int.from_bytes(S.bytes(name, n, word='big'), 'big')
        S.assume(v < 1 << (8 * n - 1))
        if n > 1:
            S.assume(v >= 1 << (8 * n - 9))
    else:
        v = int.from_bytes(S.bytes(name, 32, word='big'), 'big')
        S.assume(v >= 1 << 255)
    return v.to_bytes(32, 'big'), v


SIZES = [(33, 33), (32, 32), (33, 32), (32, 33), (1, 1), (1, 33), (33, 1), (31, 32), (2, 5)]


@prop('E06', cases=[dict(a=a, b=b) for a, b in SIZES], thorough=[dict(a=a, b=b) for a in range(1, 34) for b in (1, 7, 16, 30, 31, 32, 33) if (a, b) not in SIZES],
      bounds='r and s with DER lengths (33,33), (32,32), (33,32), (32,33), (1,1), (1,33), (33,1), (31,32), (2,5) (thorough: all r lengths, s lengths 1, 7, 16, 30..33)', assumes=[EC])
def convert(S, a, b):
    rb, r = bounded(S, 'r', a)
    sb, s = bounded(S, 's', b)
    good = r < N and s < N
    c = rb + sb
    ok, d = S.attempt(compact_signature_to_der, c)
    S.check(ok == good, 'compact accepted iff in range')
    want = der_of(r, s)
    if ok:
        S.check_eq(d, want, 'DER encoding')
        S.check_eq(S.ok('back', der_signature_to_compact, d), c, 'compact to DER to compact')
    else:
        S.check(S.isa(d, InvalidSignatureError), 'InvalidSignatureError')
    ok, c2 = S.attempt(der_signature_to_compact, want)
    S.check(ok == good, 'DER accepted iff in range')
    if ok:
        S.check_eq(c2, c, 'numbers')
        S.check_eq(S.ok('back', compact_signature_to_der, c2), want, 'DER to compact to DER')
    else:
        S.check(S.isa(c2, InvalidSignatureError), 'InvalidSignatureError')
    h = S.int('sighash', 0, 255)
    for f, x in ((Signature, (want + bytes([h]),)), (Signature.from_hex, ((want + bytes([h])).hex(),)), (Signature.from_der_sig, (want, h))):
        ok, g = S.attempt(f, *x)
        S.check(ok == good, 'Signature accepted iff in range')
        if not ok:
            S.check(S.isa(g, InvalidSignatureError), 'InvalidSignatureError')
            continue
        S.check_eq(g.r_value(), r, 'r')
        S.check_eq(g.s_value(), s, 's')
        S.check_eq(g.to_compact(), c, 'compact')
        S.check_eq(g.der_signature, want, 'DER')
        S.check(g.sighash == h and isinstance(g.sighash, SigHash), 'sighash')
        S.check_eq(g.to_bytes(), want + bytes([h]), 'bytes')
        S.check_eq(bytes(g), want + bytes([h]), 'bytes')
        S.check_eq(g.to_hex(), (want + bytes([h])).hex(), 'hex')
        S.check(g.is_present() is True, 'present')
        S.check(g == want + bytes([h]), 'equals its bytes')
        S.check(hash(g) == hash(want + bytes([h])), 'hash as its bytes')


def der_read(b, n):
    """(r, s) of a strictly DER encoded signature in the n bytes b (n < 120), or None"""
    if n < 8 or b[0] != 0x30 or b[1] != n - 2:
        return None
    i, out = 2, []
    for _ in range(2):
        if i + 2 > n or b[i] != 2:
            return None
        w = b[i + 1]
        i += 2
        if w == 0 or w > n - i:
            return None
        if b[i] >= 128:
            return None
        if w > 1 and b[i] == 0 and b[i + 1] < 128:
            return None
        v = 0
        k = 0
        while k < w:
            v = v * 256 + b[i + k]
            k += 1
        i += k
        if v >= N:
            return None
        out.append(v)
    return out if i == n else None


@prop('E06', cases=[dict(n=n) for n in (0, 1, 2, 6, 7, 8, 9, 10)], thorough=[dict(n=n) for n in (3, 4, 5, 11, 12, 13, 14, 16, 20, 30)],
      bounds='every buffer of 0, 1, 2, 6..10 (thorough: 0..14, 16, 20, 30) bytes offered as DER', assumes=[EC], reach=())
def der_arbitrary(S, n):
    d = S.bytes('d', n)
    want = der_read(d, n)
    ok, c = S.attempt(der_signature_to_compact, d)
    S.check(ok == (want is not None), 'accepted iff strict DER')
    ok2, g = S.attempt(Signature, d + b'\x41')
    S.check(ok2 == ok or (n == 0 and False), 'Signature likewise')
    if ok:
        S.check_eq(c, want[0].to_bytes(32, 'big') + want[1].to_bytes(32, 'big'), 'numbers')
        S.check_eq(compact_signature_to_der(c), d, 'same encoding')
    else:
        S.check(S.isa(c, InvalidSignatureError) and S.isa(g, InvalidSignatureError), 'InvalidSignatureError')


@prop('E06', cases=[dict(k=k) for k in range(8)], bounds='70-byte DER signatures with one structural byte replaced by any other value (fixed numbers where the length of a number is replaced)', assumes=[EC], reach=())
def der_altered(S, k):
    if k in (3, 5):
        r, s = bytes(range(0x41, 0x61)), bytes(range(0x51, 0x71))
    else:
        r = S.bytes('r', 32, word='big')
        s = S.bytes('s', 32, word='big')
    S.assume(r[0] < 128 and s[0] < 128 and r[0] > 0 and s[0] > 0)
    x = S.int('x', 0, 255)
    d = [0x30, 68, 2, 32] + list(r) + [2, 32] + list(s)
    at = (0, 1, 2, 3, 36, 37, 4, 38)[k]
    S.assume(x != d[at])
    d[at] = x
    b = bytes(d)
    ok, c = S.attempt(der_signature_to_compact, b)
    if k < 6:
        S.check(not ok, 'structure byte altered')
    elif x >= 128:
        S.check(not ok, 'negative')
    elif x == 0 and d[at + 1] < 128:
        S.check(not ok, 'padded')
    else:
        S.check(ok, 'a different number')
    if ok:
        S.check_eq(compact_signature_to_der(c), b, 'same encoding')
    else:
        S.check(S.isa(c, InvalidSignatureError), 'InvalidSignatureError')


@prop('E06', cases=[dict(n=n) for n in (0, 1, 63, 65, 66, 128)], bounds='buffers of 0, 1, 63, 65, 66, 128 bytes offered as compact signatures and as message signatures (64 instead of 65); wrong types', assumes=[EC])
def sizes(S, n):
    b = S.bytes('b', n)
    S.raises('compact size', InvalidSignatureError, compact_signature_to_der, b)
    m = b[:64] if n == 65 else b
    S.raises('message signature size', InvalidSignatureError, to_recoverable_signature, m)
    S.raises('message signature text', InvalidSignatureError, to_recoverable_signature, b64encode(m).decode())
    msg = S.bytes('m', 3)
    S.raises('recoverable size', InvalidSignatureError, PublicKey.from_recoverable_signature, m, msg)
    S.raises('recoverable size', InvalidSignatureError, PrivateKey.from_int(5).public_key.verify_recoverable_signature, m, msg)
    if n == 0:
        for x in (bytearray(64), memoryview(bytes(64)), 'a' * 64, None, [1] * 64):
            S.raises('compact type', InvalidSignatureError, compact_signature_to_der, x)
        for x in (bytearray(65), None, [28] * 65, 5):
            S.raises('message signature type', InvalidSignatureError, to_recoverable_signature, x)


@prop('E06', cases=[dict(text=t) for t in (False, True)], bounds='every 65-byte message signature, as bytes and as base64', reach=('good', 'bad'))
def message_sig(S, text):
    b = S.bytes('b', 65)
    x = b64encode(b).decode() if text else b
    ok, r = S.attempt(to_recoverable_signature, x)
    h = b[0]
    good = h >= 27 and h < 35
    S.check(ok == good, 'header byte 27..34')
    S.reach('good' if good else 'bad')
    if ok:
        S.check_eq(r, b[1:] + bytes([(h - 27) % 4]), 'layout')
        S.check_eq(to_message_signature(r, h >= 31), b, 'back')
    else:
        S.check(S.isa(r, InvalidSignatureError), 'InvalidSignatureError')


@prop('E06', bounds='every 64 bytes, recovery id and compression flag')
def recoverable(S):
    b = S.bytes('b', 64)
    i = S.int('id', 0, 3)
    c = S.flag('c')
    m = to_message_signature(b + bytes([i]), c)
    S.check_eq(m, bytes([27 + i + (4 if c else 0)]) + b, 'layout')
    S.check_eq(to_recoverable_signature(m), b + bytes([i]), 'back')
    S.check_eq(to_recoverable_signature(b64encode(m).decode()), b + bytes([i]), 'back from text')


@prop('E06', cases=[dict(n=n) for n in (0, 1, 2, 3, 4, 5, 8)], bounds='every text of 0..5, 8 characters up to U+00FF', reach=())
def message_text(S, n):
    t = S.str('t', n, [chr(i) for i in range(256)])
    S.raises('too short', InvalidSignatureError, to_recoverable_signature, t)


@prop('E06', bounds='88-character base64 text of any message signature with one character replaced by any character up to U+00FF', reach=('good', 'bad'))
def message_text_altered(S):
    b = bytes([31]) + bytes(range(64))
    t = b64encode(b).decode()
    c = S.str('c', 1, [chr(i) for i in range(256)])
    at = S.choice('at', (0, 1, 40, 86, 87))
    x = t[:at] + c + t[at + 1:]
    ok, r = S.attempt(to_recoverable_signature, x)
    if ok:
        S.reach('good')
        k = (r[64] + 27, r[64] + 31)
        S.check(len(r) == 65, 'size')
        S.check(b64encode(bytes([k[0]]) + r[:64])[2:86] == x.encode()[2:86] or b64encode(bytes([k[1]]) + r[:64])[2:86] == x.encode()[2:86], 'decoded text')
    else:
        S.reach('bad')
        S.check(S.isa(r, InvalidSignatureError), 'InvalidSignatureError')


@prop('E06', bounds='every 65-byte recoverable signature', assumes=[EC, HASH], reach=())
def recoverable_arbitrary(S):
    b = S.bytes('b', 65)
    m = S.bytes('m', 3)
    P = PrivateKey.from_int(7).public_key
    r, s = int.from_bytes(b[:32], 'big'), int.from_bytes(b[32:64], 'big')
    good = b[64] < 4 and r < N and s < N
    ok, v = S.attempt(P.verify_recoverable_signature, b, m)
    S.check(ok == good, 'accepted iff well formed')
    if ok:
        S.check(v is True or v is False, 'boolean')
    else:
        S.check(S.isa(v, InvalidSignatureError), 'InvalidSignatureError')
    ok, v = S.attempt(PublicKey.from_recoverable_signature, b, m)
    if ok:
        S.check(good, 'well formed')
        S.check(v.is_compressed() is True, 'compressed')
    else:
        S.check(S.isa(v, InvalidSignatureError), 'InvalidSignatureError')


@prop('E06', bounds='the missing signature marker')
def missing(S):
    g = S.ok('marker', Signature, b'\xff')
    S.check(g.is_present() is False and g == Signature.MISSING, 'absent')
    S.check_eq(g.to_bytes(), b'\xff', 'bytes')
    S.raises('der', InvalidSignatureError, lambda: g.der_signature)
    S.raises('sighash', InvalidSignatureError, lambda: g.sighash)
    S.raises('compact', InvalidSignatureError, g.to_compact)
    S.raises('r', InvalidSignatureError, g.r_value)
    S.raises('s', InvalidSignatureError, g.s_value)
    b = S.bytes('b', 1)
    S.assume(b[0] != 255)
    S.raises('other single bytes', InvalidSignatureError, Signature, b)
    S.raises('nothing', InvalidSignatureError, Signature, b'')


@prop('E06', bounds='every sighash byte', reach=('residual',))
def sighash(S):
    v = S.int('v', 0, 255)
    h = SigHash(v)
    S.check(h.base == v % 32, 'base')
    S.check(h.anyone_can_pay == (v >= 128), 'ANYONE_CAN_PAY')
    words = []
    k = v % 4
    if k == 1:
        words.append('ALL')
    elif k == 2:
        words.append('NONE')
    elif k == 3:
        words.append('SINGLE')
    if v >= 128:
        words.append('ANYONE_CAN_PAY')
    if v // 64 % 2 == 1:
        words.append('FORKID')
    x = v // 4 % 16 * 4
    if x:
        S.reach('residual')
        words.append('0x%02x' % x)
    S.check_eq(h.to_string(), '|'.join(words), 'text')
    d = bytes([0x30, 6, 2, 1, 1, 2, 1, 1])
    S.check_eq(Signature(d + bytes([v])).to_string(), d.hex() + '[' + '|'.join(words) + ']', 'ASM text')


# ------------------------------------------------------------------------------------------------ E07
def message_hash(m, hasher=double_sha256):
    return hasher(b'\x18Bitcoin Signed Message:\n' + pack_varbytes(m))


@prop('E07', cases=[dict(n=n, u=u) for n, u in ((0, 0), (1, 1), (5, 0), (32, 0))], thorough=[dict(n=n, u=u) for n, u in ((3, 1), (80, 0), (252, 0), (253, 0))],
      bounds='every key and message of 0, 1, 5, 32 (thorough: 80, 252, 253) bytes, text of 1 (3) characters up to U+07FF', assumes=[EC, HASH], collision_free=True, hash_order='bytes')
def signed(S, n, u):
    k, v = sym_key(S, 'k')
    if u:
        m = S.str('m', n, [chr(i) for i in range(0x800)])
        raw = m.encode()
    else:
        m = raw = S.bytes('m', n)
    P = k.public_key
    h = message_hash(raw)
    sig = k.sign_message(m)
    S.check(len(sig) == 65, 'size')
    S.check_eq(sig, to_message_signature(k.sign_recoverable(h, None), k.is_compressed()), 'signature of the prefixed message')
    S.check((sig[0] >= 31) == k.is_compressed(), 'header')
    text = S.ok('text', k.sign_message_to_base64, m)
    S.check_eq(text, b64encode(sig).decode(), 'text')
    for x in (sig, text):
        S.check(S.ok('verify', P.verify_message, x, m) is True, 'verifies')
        S.check(S.ok('complement', P.complement().verify_message, x, raw) is True, 'verifies')
        Q = S.ok('recover', PublicKey.from_signed_message, x, m)
        S.check(Q == P, 'recovers the signer')
        for c in (True, False):
            A = P.to_address(compressed=c)
            S.check(S.ok('address', PublicKey.verify_message_and_address, x, m, A) is True, 'address object')
    S.check(P.verify_recoverable_signature(to_recoverable_signature(sig), h, None) is True, 'hash')


@prop('E07', cases=[dict(c=c, i=i) for c in (False, True) for i in (0, 1)], bounds='every key, 4-byte messages, address text of both networks', assumes=[EC, HASH], hash_order='bytes')
def signed_text_address(S, c, i):
    k, v = sym_key(S, 'k', False)
    m = S.bytes('m', 4)
    sig = k.sign_message(m)
    t = k.public_key.to_address(compressed=c, coin=COINS[i]).to_string()
    S.check(S.ok('text', PublicKey.verify_message_and_address, sig, m, t) is True, 'address text')


@prop('E07', bounds='every key, other hash160, 4-byte messages, address objects and text', assumes=[EC, HASH], hash_order='bytes', reach=('match', 'other'))
def other_address(S):
    k, v = sym_key(S, 'k', False)
    m = S.bytes('m', 4)
    sig = k.sign_message(m)
    h = S.bytes('h', 20)
    P = k.public_key
    A = P2PKH_Address(h, Bitcoin)
    x = A.to_string() if S.flag('text') else A
    mine = h == P.hash160(compressed=True) or h == P.hash160(compressed=False)
    S.check(S.ok('address', PublicKey.verify_message_and_address, sig, m, x) == mine, 'only own addresses')
    S.reach('match' if mine else 'other')


@prop('E07', cases=[dict(n=n) for n in (0, 1, 4, 10, 19, 21, 40)], bounds='every message of 4 bytes, one key; address texts whose payload is the own hash160 cut to 0, 1, 4, 10, 19 bytes or followed by 1 or 20 bytes of itself', assumes=[EC, HASH], hash_order='bytes')
def odd_address_text(S, n):
    k = PrivateKey(bytes(31) + b'\5')
    m = S.bytes('m', 4)
    sig = k.sign_message(m)
    h = k.public_key.hash160(compressed=S.flag('c'))
    t = base58_encode_check(b'\0' + (h + h)[:n])
    ok, r = S.attempt(PublicKey.verify_message_and_address, sig, m, t)
    S.check(r is False if ok else S.isa(r, ValueError), 'not an address of the signer')


ALPHA64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/='


@prop('E07', cases=[dict(at=i) for i in (0, 1, 44, 86, 87, 88)], bounds='every message of 3 bytes, one key; the text of its signature with any character U+0000..U+017F that is not a base64 one inserted at 6 places, or replacing the one there', assumes=[EC, HASH], hash_order='bytes', reach=('insert', 'replace'))
def odd_text(S, at):
    k = PrivateKey(bytes(31) + b'\5')
    m = S.bytes('m', 3)
    t = k.sign_message_to_base64(m)
    c = S.str('c', 1, [chr(i) for i in range(0x180) if chr(i) not in ALPHA64])
    if at < 88 and S.flag('replace'):
        S.reach('replace')
        bad = t[:at] + c + t[at + 1:]
    else:
        S.reach('insert')
        bad = t[:at] + c + t[at:]
    S.raises('not base64', InvalidSignatureError, k.public_key.verify_message, bad, m)
    S.raises('not base64', InvalidSignatureError, PublicKey.from_signed_message, bad, m)
    S.check(S.ok('malformed', PublicKey.verify_message_and_address, bad, m, k.public_key.to_address()) is False, 'malformed: False')


@prop('E07', cases=[dict(n=n) for n in (0, 4, 33)], bounds='arbitrary 65-byte signatures and messages of 0, 4, 33 bytes against any key', assumes=[EC, HASH], reach=('true', 'false', 'malformed'), hash_order='bytes')
def arbitrary_sig(S, n):
    k, v = sym_key(S, 'k', False)
    P = k.public_key
    b = S.bytes('b', 65)
    m = S.bytes('m', n)
    h = message_hash(m)
    head = b[0] >= 27 and b[0] < 35
    good = head and int.from_bytes(b[1:33], 'big') < N and int.from_bytes(b[33:], 'big') < N
    ok, r = S.attempt(P.verify_message, b, m)
    S.check(ok == good, 'raises iff malformed')
    if ok:
        want = P.verify_recoverable_signature(b[1:] + bytes([(b[0] - 27) % 4]), h, None)
        S.check(r is want, 'verifies the prefixed hash')
        S.reach('true' if r else 'false')
    else:
        S.reach('malformed')
        S.check(S.isa(r, InvalidSignatureError), 'InvalidSignatureError')
        A = P.to_address()
        S.check(S.ok('address', PublicKey.verify_message_and_address, b, m, A) is False, 'malformed: False')
        S.raises('recovery', InvalidSignatureError, PublicKey.from_signed_message, b, m)


@prop('E07', bounds='arbitrary 65-byte signatures, any 20-byte hash', assumes=[EC, HASH], reach=('true', 'false'), hash_order='bytes')
def arbitrary_sig_address(S):
    b = S.bytes('b', 65)
    m = S.bytes('m', 4)
    a = S.bytes('a', 20)
    r = S.ok('address', PublicKey.verify_message_and_address, b, m, P2PKH_Address(a, Bitcoin))
    ok, Q = S.attempt(PublicKey.from_signed_message, b, m)
    if not ok:
        S.check(S.isa(Q, InvalidSignatureError), 'InvalidSignatureError')
        S.check(r is False, 'not recoverable')
        return
    mine = a == Q.hash160(compressed=True) or a == Q.hash160(compressed=False)
    want = mine and Q.verify_message(b, m)
    S.check(r == want, 'recovered key verifies and owns the address')
    S.reach('true' if r else 'false')


@prop('E07', bounds='two keys and two messages of 5 bytes; signatures of one against the other', assumes=[EC, HASH], collision_free=True, reach=('other',))
def other_message(S):
    k, v = sym_key(S, 'k', False)
    m = S.bytes('m', 5)
    m2 = m if S.flag('same') else S.bytes('m2', 5)
    sig = k.sign_message(m)
    h2 = message_hash(m2)
    r = k.public_key.verify_message(sig, m2)
    S.check(r == k.public_key.verify_recoverable_signature(to_recoverable_signature(sig), h2, None), 'hash of the message claimed')
    if m2 is m:
        S.check(r is True, 'same message')
    elif not r:
        S.reach('other')


@prop('E07', bounds='hasher omitted or custom; 3-byte messages', assumes=[EC, HASH])
def hashers(S):
    k, v = sym_key(S, 'k', False)
    m = S.bytes('m', 3)
    P = k.public_key
    sig = k.sign_message(m)
    S.raises('sign', ValueError, k.sign_message, m, None)
    S.raises('sign text', ValueError, k.sign_message_to_base64, m, None)
    S.raises('verify', ValueError, P.verify_message, sig, m, None)
    S.raises('recover', ValueError, PublicKey.from_signed_message, sig, m, None)
    S.raises('address', ValueError, lambda: PublicKey.verify_message_and_address(sig, m, P.to_address(), hasher=None))
    S.raises('address type', TypeError, PublicKey.verify_message_and_address, sig, m, P.hash160())
    t = k.sign_message(m, sha256)
    S.check_eq(t, to_message_signature(k.sign_recoverable(message_hash(m, sha256), None), True), 'custom hasher')
    S.check(P.verify_message(t, m, sha256) is True, 'custom hasher')
    S.check(PublicKey.from_signed_message(t, m, sha256) == P, 'custom hasher')
    S.check(PublicKey.verify_message_and_address(t, m, P.to_address(), hasher=sha256) is True, 'custom hasher')


@prop('E07', cases=[dict(n=n) for n in (0, 4, 32)], bounds='every key; messages of 0, 4, 32 bytes', assumes=[EC, HASH])
def plain_sign(S, n):
    k, v = sym_key(S, 'k', False)
    m = S.bytes('m', n)
    P = k.public_key
    h = sha256(m)
    rs = k.sign_recoverable(m)
    S.check_eq(rs, k.sign_recoverable(h, None), 'hashed once')
    S.check(P.verify_recoverable_signature(rs, m) is True, 'verifies')
    S.check(P.verify_recoverable_signature(rs, h, None) is True, 'verifies')
    S.check(PublicKey.from_recoverable_signature(rs, m) == P, 'recovers')
    if n != 32:
        S.raises('unhashed size', ValueError, k.sign, m, None)
        S.raises('unhashed size', ValueError, k.sign_recoverable, m, None)
        S.raises('unhashed size', ValueError, P.verify_recoverable_signature, rs, m, None)
        S.raises('unhashed size', ValueError, P.verify_der_signature, b'', m, None)


@prop('E07', bounds='every key; 32-byte hashes; r and s of 32 bytes', assumes=[EC, HASH])
def plain_der(S):
    k, v = sym_key(S, 'k', False)
    h = S.bytes('h', 32)
    rs = k.sign_recoverable(h, None)
    S.assume(rs[0] >= 128 and rs[32] < 128 and rs[32] > 0)
    d = k.sign(h, None)
    S.check_eq(der_signature_to_compact(d), rs[:64], 'same numbers')
    S.check(k.public_key.verify_der_signature(d, h, None) is True, 'verifies')
    m = S.bytes('m', 2)
    S.check(k.public_key.verify_der_signature(d, m) == k.public_key.verify_der_signature(d, sha256(m), None), 'hashed once')


# ------------------------------------------------------------------------------------------------ E08
def pad(m, n):
    k = 16 - n % 16
    return m + bytes([k]) * k


def ecies(shared, magic, eph, m, n):
    key = sha512(shared)
    c = AES.new(key[16:32], AES.MODE_CBC, key[:16]).encrypt(pad(m, n))
    data = magic + eph + c
    return data + hmac.digest(key[32:], data, 'sha256')


@prop('E08', cases=[dict(n=n, u=u) for n, u in ((0, 0), (1, 1), (15, 0), (16, 0), (17, 0))], thorough=[dict(n=n, u=u) for n, u in ((3, 1), (31, 0), (32, 0), (33, 0), (48, 0))],
      bounds='every key, messages of 0, 15..17 (thorough: 31..33, 48) bytes, text of 1 (3) characters up to U+07FF', assumes=[EC, HASH, CBC])
def encrypted(S, n, u):
    k, v = sym_key(S, 'k')
    P = k.public_key
    if u:
        m = S.str('m', n, [chr(i) for i in range(0x800)])
        raw = m.encode()
    else:
        m = raw = S.bytes('m', n)
    magic = S.choice('magic', (None, b'BIE1', b'', b'xyz12'))
    a = () if magic is None else (magic,)
    mg = b'BIE1' if magic is None else magic
    e = S.ok('encrypt', P.encrypt_message, m, *a)
    eph = e[len(mg):len(mg) + 33]
    E = S.ok('ephemeral', PublicKey.from_bytes, eph)
    shared = k.ecdh_shared_secret(E).to_bytes(compressed=True)
    S.check_eq(e, ecies(shared, mg, eph, raw, len(raw)), 'layout')
    S.check_eq(S.ok('decrypt', k.decrypt_message, e, *a), raw, 'decrypts')
    S.check_eq(S.ok('decrypt text', k.decrypt_message, b64encode(e).decode(), *a), raw, 'decrypts text')


@prop('E08', bounds='every key, 3-byte messages', assumes=[EC, HASH, CBC])
def encrypted_text(S):
    k, v = sym_key(S, 'k', False)
    m = S.bytes('m', 3)
    t = S.ok('encrypt', k.public_key.encrypt_message_to_base64, m, b'ab')
    S.check_eq(S.ok('decrypt', k.decrypt_message, t, b'ab'), m, 'decrypts')


def reference_decrypt(k, b, n, magic):
    """the message, or None when b is to be rejected"""
    ml = len(magic)
    if n < 81 + ml or b[:ml] != magic:
        return None
    eph = b[ml:ml + 33]
    if eph[0] != 2 and eph[0] != 3:
        return None
    try:
        E = PublicKey.from_bytes(eph)
    except ValueError:
        return None
    key = sha512(E.multiply(k.to_bytes()).to_bytes(compressed=True))
    if hmac.digest(key[32:], b[:n - 32], 'sha256') != b[n - 32:]:
        return None
    c = b[ml + 33:n - 32]
    if (n - ml - 65) % 16:
        return None
    p = AES.new(key[16:32], AES.MODE_CBC, key[:16]).decrypt(c)
    q = p[-1]
    if q < 1 or q > 16:
        return None
    for i in range(2, 17):
        if i <= q and p[-i] != q:
            return None
    return p[:len(p) - q]


@prop('E08', cases=[dict(n=n, ml=ml) for n, ml in ((85, 4), (101, 4), (84, 4), (86, 4), (81, 0), (0, 4), (4, 4), (36, 4), (37, 4), (69, 4), (65, 0), (70, 5), (71, 6))], thorough=[dict(n=n, ml=ml) for n, ml in ((117, 4), (97, 0), (84, 3), (100, 3), (90, 4))],
      bounds='arbitrary messages of 0, 4, 36, 37, 69, 84..86, 101 (thorough: 90, 117) bytes with 4-byte magic, 65 and 81 without, 70 and 71 with a magic of 5 and 6 bytes', assumes=[EC, HASH, CBC], reach=(), hash_order='bytes')
def decrypt_arbitrary(S, n, ml):
    k, v = sym_key(S, 'k', False)
    b = S.bytes('b', n)
    magic = b'BIE1xy'[:ml]
    want = reference_decrypt(k, b, n, magic)
    ok, r = S.attempt(k.decrypt_message, b, magic)
    S.check(ok == (want is not None), 'accepted iff intact')
    if ok:
        S.reach('accepted')
        S.check_eq(r, want, 'message')
    else:
        S.check(S.isa(r, DecryptionError), 'DecryptionError')


@prop('E08', cases=[dict(n=n, at=at) for n in (16, 32) for at in (0, 1, 2)], bounds='one fixed key pair, every ciphertext of 16 and 32 bytes, every authentication tag; one byte of magic or key altered', assumes=[HASH, CBC], reach=('accepted', 'rejected'), hash_order='bytes')
def tampered(S, n, at):
    k, e = PrivateKey.from_int(0x1234567), PrivateKey.from_int(99)
    head = bytearray(b'BIE1' + e.public_key.to_bytes())
    if at == 1:
        head[S.choice('i', (0, 3))] ^= 32
    elif at == 2:
        head[4] ^= 1
    c, tag = S.bytes('c', n), S.bytes('tag', 32)
    b = bytes(head) + c + tag
    want = reference_decrypt(k, b, 37 + n + 32, b'BIE1')
    ok, r = S.attempt(k.decrypt_message, b)
    S.check(ok == (want is not None), 'accepted iff intact')
    S.reach('accepted' if ok else 'rejected')
    if ok:
        S.check_eq(r, want, 'message')
    else:
        S.check(S.isa(r, DecryptionError), 'DecryptionError')


@prop('E08', cases=[dict(n=n) for n in (0, 1, 2, 3, 4, 5, 8)], bounds='every text of 0..5, 8 characters up to U+00FF', assumes=[EC], reach=())
def decrypt_text(S, n):
    t = S.str('t', n, [chr(i) for i in range(256)])
    S.raises('too short', DecryptionError, PrivateKey.from_int(5).decrypt_message, t)


# ------------------------------------------------------------------------------------------------ E09
def with_backend(S, other, f):
    """run f with the bundled fallback cipher in place of the default when asked to"""
    old = aes.AES
    if other:
        aes.AES = None
    try:
        return f()
    finally:
        aes.AES = old


SIZES9 = (0, 1, 14, 15, 16, 17, 31, 32, 33)


@prop('E09', cases=[dict(n=n, o=o) for n in SIZES9 for o in (0, 1)], thorough=[dict(n=n, o=o) for n in range(48) if n not in SIZES9 for o in (0, 1)],
      bounds='data of 0, 1, 14..17, 31..33 (thorough: 0..47) bytes, any key and IV, both backends', assumes=[CBC])
def aes_roundtrip(S, n, o):
    key, iv, d = S.bytes('key', 16), S.bytes('iv', 16), S.bytes('d', n)
    c = with_backend(S, o, lambda: aes.aes_encrypt_with_iv(key, iv, d))
    S.check(len(c) == (n // 16 + 1) * 16, 'next multiple of 16')
    S.check_eq(c, AES.new(key, AES.MODE_CBC, iv).encrypt(pad(d, n)), 'PKCS7 and CBC')
    r = with_backend(S, o, lambda: S.ok('decrypts', aes.aes_decrypt_with_iv, key, iv, c))
    S.check_eq(r, d, 'original data')


@prop('E09', cases=[dict(n=n, o=o) for n in (16, 32) for o in (0, 1)], thorough=[dict(n=n, o=o) for n in (48, 64) for o in (0, 1)],
      bounds='every ciphertext of 16, 32 (thorough: 48, 64) bytes, both backends', assumes=[CBC], reach=('good', 'zero', 'big', 'bad'))
def aes_strip(S, n, o):
    key, iv, c = S.bytes('key', 16), S.bytes('iv', 16), S.bytes('c', n)
    p = AES.new(key, AES.MODE_CBC, iv).decrypt(c)
    q = p[n - 1]
    ok, r = with_backend(S, o, lambda: S.attempt(aes.aes_decrypt_with_iv, key, iv, c))
    if ok:
        S.reach('good')
        S.check(q >= 1 and q <= 16, 'padding length')
        k = n - len(r)
        S.check(k == q, 'stripped length')
        for i in range(1, k + 1):
            S.check(p[n - i] == k, 'padding byte')
        S.check_eq(r, p[:n - k], 'data')
    else:
        S.check(S.isa(r, aes.BadPaddingError), 'BadPaddingError')
        if q == 0:
            S.reach('zero')
        elif q > 16:
            S.reach('big')
        else:
            S.reach('bad')
            S.check(p[n - q:] != bytes([q]) * q, 'padding is inconsistent')


@prop('E09', cases=[dict(n=n, o=o) for n in (0, 1, 15, 17, 31, 33) for o in (0, 1)], bounds='ciphertexts of 0, 1, 15, 17, 31, 33 bytes', assumes=[CBC])
def aes_sizes(S, n, o):
    key, iv, c = S.bytes('key', 16), S.bytes('iv', 16), S.bytes('c', n)
    ok, r = with_backend(S, o, lambda: S.attempt(aes.aes_decrypt_with_iv, key, iv, c))
    S.check(not ok, 'rejected')
    if n == 0 and not o:
        S.check(S.isa(r, aes.BadPaddingError), 'BadPaddingError')


# ------------------------------------------------------------------------------------------------ E10
def minikey_spec(t, n):
    if n not in (22, 30) or t[0] != 'S':
        return False
    for c in t:
        if c not in B58:
            return False
    return sha256(t.encode() + b'?')[0] == 0


@prop('E10', cases=[dict(n=n) for n in (22, 30)], bounds='text of 22 and 30 characters: every base58 text', assumes=[EC, HASH], hash_order='bytes', reach=('mini', 'other'))
def minikey(S, n):
    t = S.str('t', n, B58)
    m = minikey_spec(t, n)
    S.check(is_minikey(t) == m, 'validity')
    d = sha256(t.encode())
    v = int.from_bytes(d, 'big')
    if m:
        S.reach('mini')
        for f in (PrivateKey.from_text, PrivateKey.from_minikey):
            ok, k = S.attempt(f, t)
            S.check(ok == (v != 0 and v < N), 'secret in range')
            if ok:
                S.check_eq(k.to_bytes(), d, 'secret')
                S.check(k.is_compressed() is False, 'uncompressed')
                S.check(k.coin() is Bitcoin, 'coin')
            else:
                S.check(S.isa(k, ValueError), 'ValueError')
    else:
        S.reach('other')
        S.raises('invalid', ValueError, PrivateKey.from_minikey, t)


@prop('E10', cases=[dict(n=n) for n in list(range(34)) + [44, 51, 52, 60, 66]], bounds='text of 0..33, 44, 51, 52, 60, 66 characters; one arbitrary character up to U+00FF at the start, in the middle or at the end', assumes=[EC, HASH], hash_order='bytes', reach=())
def minikey_chars(S, n):
    t = ('S6c56bnXQiBjk9mqSYE7ykVQ7NzrRyA' * 3)[:n]
    if n:
        at = S.choice('at', (0, n // 2, n - 1))
        t = t[:at] + S.str('c', 1, [chr(i) for i in range(256)]) + t[at + 1:]
    m = minikey_spec(t, n)
    S.check(is_minikey(t) == m, 'validity')
    if not m:
        S.raises('invalid', ValueError, PrivateKey.from_minikey, t)


HEXC = '0123456789abcdefABCDEF'


@prop('E10', bounds='every text of 64 hex digits', assumes=[EC], reach=('good', 'bad'))
def text_hex(S):
    b = S.bytes('b', 32, word='big')
    t = b.hex()
    if S.flag('upper'):
        t = t.upper()
    v = int.from_bytes(b, 'big')
    ok, k = S.attempt(PrivateKey.from_text, t)
    S.check(ok == (v != 0 and v < N), 'valid secret')
    if ok:
        S.reach('good')
        S.check_eq(k.to_bytes(), b, 'secret')
        S.check(k.is_compressed() is True, 'compressed')
        S.check(k.coin() is Bitcoin, 'coin')
    else:
        S.reach('bad')
        S.check(S.isa(k, ValueError), 'ValueError')


@prop('E10', bounds='64 characters, of which one is arbitrary up to U+00FF', assumes=[EC], reach=('good', 'bad'))
def text_64(S):
    at = S.choice('at', (0, 31, 63))
    c = S.str('c', 1, [chr(i) for i in range(256)])
    t = '1' * at + c + '1' * (63 - at)
    ok, k = S.attempt(PrivateKey.from_text, t)
    good = c in HEXC
    S.check(ok == good, 'hex')
    if ok:
        S.reach('good')
        S.check_eq(k.to_hex(), t.lower(), 'secret')
    else:
        S.reach('bad')
        S.check(S.isa(k, ValueError), 'ValueError')


@prop('E10', cases=[dict(n=n) for n in (30, 31, 32, 33)], bounds='hex of 30..33 bytes with one to three spaces, tabs or line ends at the start, in the middle or at the end, or at all three; the first byte below 16', assumes=[EC], reach=())
def text_spaced_hex(S, n):
    t = '0' + S.bytes('b', n, word='big').hex()[1:]
    c = S.choice('space', (' ', '\t', '\n', '  ', '\r\n', '   '))
    where = S.choice('where', (0, 1, 2, 3))
    if where == 0:
        t = c + t
    elif where == 1:
        t = t[:32] + c + t[32:]
    elif where == 2:
        t = t + c
    else:
        t = c + t[:16] + c + t[16:] + c
    S.raises('neither hex of a key nor WIF', ValueError, PrivateKey.from_text, t)


@prop('E10', cases=[dict(n=n) for n in (0, 1, 2, 5, 22, 30)], thorough=[dict(n=n) for n in (21, 23, 29, 31, 51, 52)], bounds='every base58 text of 0, 1, 2, 5, 22, 30 (thorough: 21, 23, 29, 31, 51, 52) characters that is no minikey', assumes=[EC, HASH], hash_order='bytes', reach=())
def text_wif(S, n):
    t = S.str('t', n, B58)
    if minikey_spec(t, n):
        return
    ok, k = S.attempt(PrivateKey.from_text, t)
    ok2, k2 = S.attempt(PrivateKey.from_WIF, t)
    S.check(ok == ok2, 'as from_WIF')
    if ok:
        S.check(k == k2, 'same key')
        same_attrs(S, k, k2)
    else:
        S.check(S.isa(k, ValueError), 'ValueError')


# ------------------------------------------------------------------------------------------------ E11
class Source:
    def __init__(self, S, k, n):
        self.S, self.k, self.n, self.drawn, self.sizes = S, k, n, [], []

    def __call__(self, n):
        S = self.S
        self.sizes.append(n)
        b = S.bytes('draw%d' % len(self.drawn), n, word='big')
        v = int.from_bytes(b[:32], 'big')
        self.drawn.append(b)
        if self.k > 2 and len(self.drawn) <= self.k:
            S.assume(v == 0 if len(self.drawn) == 2 else v >= N)
            return b
        bad = v == 0 or v >= N
        if len(self.drawn) <= self.k:
            S.assume(bad)
        else:
            S.assume(not bad)
        return b


@prop('E11', cases=[dict(k=k) for k in (0, 1, 2, 5, 11)], thorough=[dict(k=k) for k in (3, 8, 20, 40)], bounds='0, 1, 2, 5, 11 (thorough: 3, 8, 20, 40) rejected draws (beyond 2: out of range upwards, one of them zero) followed by a good one', assumes=[EC])
def random_key(S, k):
    src = Source(S, k, 32)
    r = S.ok('generates', lambda: PrivateKey.from_random(source=src))
    S.check(len(src.drawn) == k + 1, 'redraws until in range')
    S.check(all(n == 32 for n in src.sizes), '32 bytes each')
    S.check_eq(r.to_bytes(), src.drawn[-1], 'first good draw')
    S.check(r.is_compressed() is True, 'compressed')


@prop('E11', cases=[dict(k=k) for k in (0, 1, 2, 5, 11)], thorough=[dict(k=k) for k in (3, 8, 20, 40)], bounds='0, 1, 2, 5, 11 (thorough: 3, 8, 20, 40) rejected draws (beyond 2: out of range upwards, one of them zero) followed by a good one', assumes=[EC])
def random_bip32(S, k):
    src = Source(S, k, 64)
    r = S.ok('generates', lambda: BIP32PrivateKey.from_random(source=src))
    S.check(len(src.drawn) == k + 1, 'redraws until in range')
    S.check(all(n == 64 for n in src.sizes), '64 bytes each')
    S.check_eq(r.to_bytes(), src.drawn[-1][:32], 'secret')
    S.check_eq(r.derivation().chain_code, src.drawn[-1][32:], 'chain code')
    S.check(r.is_compressed() is True and r.derivation().depth == 0, 'master key')


@prop('E11', bounds='keys from the default source, up to two draws', assumes=[EC], reach=())
def random_default(S):
    ok, r = S.attempt(PrivateKey.from_random)
    S.check(ok, 'never fails')
    if ok:
        v = r.to_int()
        S.check(v > 0 and v < N, 'valid')
