"""H01, Q01, Q02: hash and integer helpers, equality and hashing, sighash flags."""
from bitcoinx import (
    sha1, sha256, sha512, double_sha256, ripemd160, hash160, hmac_digest, hmac_sha512, hmac_sha512_halves, hash_to_hex_str,
    hex_str_to_hash, hash_to_value, be_bytes_to_int, le_bytes_to_int, int_to_be_bytes, int_to_le_bytes, Bitcoin, BitcoinTestnet,
    P2PKH_Address, P2SH_Address, P2PK_Output, P2MultiSig_Output, OP_RETURN_Output, PrivateKey, PublicKey, Script, Signature,
    SigHash,
)
import hashlib
import hmac
from engine.reg import prop

HASH = 'hash and HMAC functions are arbitrary functions (equal inputs give equal outputs)'
EC = 'point multiplication is an arbitrary function of the scalar with values on the curve, injective'
HEX = '0123456789abcdef'


# ------------------------------------------------------------------------------------------------ H01
@prop('H01', cases=[dict(n=n) for n in (0, 1, 2, 4, 20, 32)], thorough=[dict(n=n) for n in (3, 31, 33, 40, 64)], bounds='every byte string of 0, 1, 2, 4, 20, 32 (thorough: also 3, 31, 33, 40, 64) bytes')
def display(S, n):
    h = S.bytes('h', n)
    t = S.ok('shown', hash_to_hex_str, h)
    S.check(len(t) == 2 * n, 'two digits for each byte')
    for i in range(n):
        b = h[n - 1 - i]
        S.check(t[2 * i:2 * i + 2] == HEX[b >> 4] + HEX[b & 15], 'hex of the reversed bytes')
    S.check_eq(S.ok('parsed', hex_str_to_hash, t), h, 'parsing restores the hash')
    v = 0
    for i in range(n):
        v = v + h[i] * 256 ** i
    S.check_eq(S.ok('value', hash_to_value, h), v, 'little-endian value')
    S.check_eq(le_bytes_to_int(h), v, 'little-endian value')
    S.check_eq(be_bytes_to_int(bytes(reversed(h))), v, 'big-endian value')


@prop('H01', cases=[dict(n=n) for n in (0, 1, 2, 4, 8)], thorough=[dict(n=n) for n in (3, 20, 32)], bounds='every text of 0..4, 8 (thorough: also 20, 32) pairs of hex digits in either case; odd counts and one bad character refused')
def hex_parse(S, n):
    t = S.str('t', 2 * n, HEX + 'ABCDEF')
    h = S.ok('parsed', hex_str_to_hash, t)
    S.check(len(h) == n, 'one byte for two digits')
    S.check_eq(S.ok('shown', hash_to_hex_str, h), t.lower(), 'shown as parsed')
    S.raises('odd', ValueError, hex_str_to_hash, t + 'a')
    S.raises('bad', ValueError, hex_str_to_hash, t + 'ag')


@prop('H01', bounds='every integer from -2^330 to 2^330, every requested size 0..45', reach=('ok', 'negative', 'small'), cases=[dict(order=o) for o in ('big', 'little')])
def int_bytes(S, order):
    v = S.int('v', -2 ** 330, 2 ** 330)
    enc, dec = (int_to_be_bytes, be_bytes_to_int) if order == 'big' else (int_to_le_bytes, le_bytes_to_int)
    if v < 0:
        S.reach('negative')
        S.raises('negative', OverflowError, enc, v)
        S.raises('negative', OverflowError, enc, v, 45)
        return
    if S.flag('sized'):
        size = S.choice('size', range(46))
        if v >= 256 ** size:
            S.reach('small')
            S.raises('too small', OverflowError, enc, v, size)
            return
        b = S.ok('encodes', enc, v, size)
        S.check(len(b) == size, 'requested size')
    else:
        b = S.ok('encodes', enc, v)
        n = len(b)
        S.check(v < 256 ** n and (n == 0 or v >= 256 ** (n - 1)), 'minimal size')
    S.reach('ok')
    S.check_eq(dec(b), v, 'read back')
    S.check_eq(int.from_bytes(b, order), v, 'order')


@prop('H01', cases=[dict(n=n) for n in (0, 1, 33, 80)], thorough=[dict(n=n) for n in (64, 200)], bounds='every message and key of 0, 1, 33, 80 bytes', assumes=[HASH], hash_order='bytes')
def helpers(S, n):
    m, k = S.bytes('m', n), S.bytes('k', n)

    def rm(x):
        h = hashlib.new('ripemd160')
        h.update(x)
        return h.digest()
    s = hashlib.sha256(m).digest()
    S.check_eq(sha1(m), hashlib.sha1(m).digest(), 'sha1')
    S.check_eq(sha256(m), s, 'sha256')
    S.check_eq(sha512(m), hashlib.sha512(m).digest(), 'sha512')
    S.check_eq(ripemd160(m), rm(m), 'ripemd160')
    S.check_eq(double_sha256(m), hashlib.sha256(s).digest(), 'double sha256')
    S.check_eq(hash160(m), rm(s), 'hash160')
    h = hmac.digest(k, m, hashlib.sha512)
    S.check_eq(hmac_sha512(k, m), h, 'hmac_sha512')
    S.check_eq(hmac_digest(k, m, hashlib.sha512), h, 'hmac_digest')
    a, b = hmac_sha512_halves(k, m)
    S.check_eq(a, h[:32], 'first half')
    S.check_eq(b, h[32:], 'second half')


# ------------------------------------------------------------------------------------------------ Q01
def unrelated(S, x, *more):
    for y in (None, 5, '', 'abc', (), [], 1.5, object(), 2 ** 300) + more:
        ok, r = S.attempt(lambda: x == y)
        S.check(ok and r is False, 'not equal to other things')
        ok, r = S.attempt(lambda: x != y)
        S.check(ok and r is True, 'not equal to other things')


def same(S, x, y, want):
    S.check((x == y) == want and (y == x) == want and (x != y) != want, 'equal exactly when the same')
    if want:
        S.reach('same')
        S.check(hash(x) == hash(y), 'equal objects hash equally')
    else:
        S.reach('differ')


COINS = (Bitcoin, BitcoinTestnet)


@prop('Q01', bounds='every pair of 20-byte hashes, two coins, both kinds', reach=('same', 'differ'))
def addresses(S):
    a, b = S.bytes('a', 20, word='big'), S.bytes('b', 20, word='big')
    ka, kb = S.choice('ka', (P2PKH_Address, P2SH_Address)), S.choice('kb', (P2PKH_Address, P2SH_Address))
    x, y = ka(a, S.choice('ca', COINS)), kb(b, S.choice('cb', COINS))
    same(S, x, y, ka is kb and bool(a == b))
    unrelated(S, x, a, x.to_script(), OP_RETURN_Output())


def key(S, name, coins=True):
    v = S.int(name, 1, 2 ** 256)
    S.assume(v < 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141)
    return PrivateKey(v.to_bytes(32, 'big'), S.flag('c' + name), S.choice('n' + name, COINS) if coins else Bitcoin), v


@prop('Q01', bounds='every pair of keys, either compression, two coins', assumes=[EC], reach=('same', 'differ'))
def pubkeys(S):
    k, v = key(S, 'a')
    l, w = key(S, 'b')
    x, y = k.public_key, l.public_key
    same(S, x, y, bool(v == w))
    same(S, k, l, bool(v == w))
    S.check(not (k == x) and not (x == k), 'private and public differ')


@prop('Q01', bounds='keys of either compression and coin', assumes=[EC], reach=())
def key_unrelated(S):
    k, v = key(S, 'a')
    unrelated(S, k, v, k.to_bytes(), k.public_key)
    x = k.public_key
    unrelated(S, x, v, x.to_bytes(), x.to_bytes().hex(), k, P2PK_Output(x, Bitcoin))


@prop('Q01', bounds='every pair of keys, either compression, two coins', assumes=[EC], reach=('same', 'differ'))
def p2pk(S):
    k, v = key(S, 'a')
    l, w = key(S, 'b')
    x, y = P2PK_Output(k.public_key, S.choice('oa', COINS)), P2PK_Output(l.public_key, Bitcoin)
    same(S, x, y, bool(v == w))
    unrelated(S, x, k.public_key, P2MultiSig_Output([k.public_key], 1), OP_RETURN_Output(), x.to_script_bytes())


@prop('Q01', cases=[dict(n=1, m=1), dict(n=2, m=2), dict(n=1, m=2)], bounds='every two lists of 1 and 2 keys, every threshold', assumes=[EC], reach=(), max_steps=60000)
def multisig(S, n, m):
    ks = [key(S, 'a%d' % i, False) for i in range(n)]
    ls = [key(S, 'b%d' % i, False) for i in range(m)]
    t, u = S.choice('t', range(1, n + 1)), S.choice('u', range(1, m + 1))
    x = P2MultiSig_Output([k.public_key for k, v in ks], t)
    y = P2MultiSig_Output([k.public_key for k, v in ls], u)
    want = n == m and t == u
    for (k, v), (l, w) in zip(ks, ls):
        want = want and bool(v == w)
    same(S, x, y, want)
    unrelated(S, x, ks[0][0].public_key, P2PK_Output(ks[0][0].public_key, Bitcoin), x.public_keys)


class _Bytes:
    def __init__(self, b):
        self.b = b

    def __bytes__(self):
        return self.b


@prop('Q01', cases=[dict(n=n, m=m) for n, m in ((0, 0), (1, 1), (25, 25), (3, 4))], bounds='every two scripts of 0, 1, 25 and of 3 and 4 bytes; byte strings, byte arrays, memory views', reach=())
def scripts(S, n, m):
    a, b = S.bytes('a', n), S.bytes('b', m)
    want = n == m and bool(a == b)
    x, y = Script(a), Script(b)
    same(S, x, y, want)
    same(S, x, b, want)
    S.check((x == bytearray(b)) == want, 'equal to byte arrays of the same bytes')
    S.check((x == memoryview(b)) == want, 'equal to views of the same bytes')
    S.check((x == _Bytes(b)) == want, 'equal to things with the same bytes')
    unrelated(S, x, a.hex(), [v for v in a])


@prop('Q01', bounds='signatures with every sighash byte over DER with 1-byte r and s; MISSING', reach=('same', 'differ'))
def signatures(S):
    def sig(name):
        if S.flag('m' + name):
            return b'\xff'
        r, s = S.int('r' + name, 1, 127), S.int('s' + name, 1, 127)
        return bytes([0x30, 6, 2, 1, r, 2, 1, s, S.int('h' + name, 0, 255)])
    a, b = sig('a'), sig('b')
    x, y = Signature(a), Signature(b)
    want = bool(a == b)
    same(S, x, y, want)
    same(S, x, b, want)
    S.check((x == bytearray(b)) == want and (x == Script(b)) == want and (x == memoryview(b)) == want and (x == _Bytes(b)) == want, 'equal to other holders of the same bytes')
    unrelated(S, x, a.hex())


@prop('Q01', bounds='OP_RETURN outputs', reach=('same',))
def op_return(S):
    x = OP_RETURN_Output()
    same(S, x, OP_RETURN_Output.from_template(b'a'), True)
    unrelated(S, x, x.to_script_bytes(), x.to_script())


# ------------------------------------------------------------------------------------------------ Q02
@prop('Q02', bounds='every sighash byte')
def flags(S):
    v = S.int('v', 0, 255)
    h = SigHash(v)
    S.check(h == v, 'the byte')
    S.check(h.base == v % 32, 'base type is the low five bits')
    S.check(h.anyone_can_pay is (v >= 128) or h.anyone_can_pay == (v >= 128), 'anyone can pay is the top bit')
    t = S.ok('text', h.to_string)
    parts = t.split('|') if t else []
    S.check(all(parts), 'no empty part')
    S.check(('ANYONE_CAN_PAY' in parts) == (v >= 128), 'names anyone-can-pay exactly when set')
    S.check(('FORKID' in parts) == bool(v & 64), 'names fork id exactly when set')
    names = [p for p in parts if p in ('ALL', 'NONE', 'SINGLE')]
    S.check(names == (['ALL', 'NONE', 'SINGLE'][v % 4 - 1:][:1] if v % 4 else []), 'names the type')
    rest = [p for p in parts if p not in ('ALL', 'NONE', 'SINGLE', 'ANYONE_CAN_PAY', 'FORKID')]
    S.check(len(rest) <= 1, 'at most one number')
    left = v & 0x3c
    if left:
        S.check(len(rest) == 1 and rest[0][:2] == '0x' and int(rest[0], 16) == left, 'names the other bits')
    else:
        S.check(not rest, 'no other bits')


@prop('Q02', bounds='every pair of sighash bytes', reach=('same', 'differ'))
def injective(S):
    v, w = S.int('v', 0, 255), S.int('w', 0, 255)
    a, b = SigHash(v).to_string(), SigHash(w).to_string()
    if a == b:
        S.reach('same')
        S.check(v == w, 'different bytes never render alike')
    else:
        S.reach('differ')
