"""C01-C03: headers, compact targets, work."""
import struct

from bitcoinx import (
    Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest, bits_to_target, target_to_bits, bits_to_work, double_sha256,
)
from engine.reg import prop

HASH = 'SHA-256 is an arbitrary function (equal inputs give equal outputs)'
COINS = (Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest)
MAX = 0xffff << 208


# ------------------------------------------------------------------------------------------------ C01
@prop('C01', bounds='every 80-byte header, every height', assumes=[HASH], hash_order='bytes')
def fields(S):
    raw = S.bytes('raw', 80)
    coin = S.choice('coin', COINS)
    height = S.int('height', -1, 2 ** 40)
    h = S.ok('deserialized', coin.deserialized_header, raw, height)

    def le(a, n):
        return int.from_bytes(raw[a:a + n], 'little')
    v = le(0, 4)
    S.check_eq(h.version, v - 2 ** 32 if v >= 2 ** 31 else v, 'version')
    S.check_eq(h.prev_hash, raw[4:36], 'previous hash')
    S.check_eq(h.merkle_root, raw[36:68], 'merkle root')
    S.check_eq(h.timestamp, le(68, 4), 'timestamp')
    S.check_eq(h.bits, le(72, 4), 'bits')
    S.check_eq(h.nonce, le(76, 4), 'nonce')
    hh = double_sha256(raw)
    S.check_eq(h.hash, hh, 'hash')
    S.check_eq(h.raw, raw, 'raw')
    S.check_eq(h.height, height, 'height')
    S.check_eq(coin.header_hash(raw), hh, 'hash accessor')
    S.check_eq(coin.header_prev_hash(raw), raw[4:36], 'previous hash accessor')
    S.check_eq(coin.header_timestamp(raw), le(68, 4), 'timestamp accessor')
    S.check_eq(coin.header_bits(raw), le(72, 4), 'bits accessor')
    v = 0
    for i in range(32):
        v = v + hh[i] * 256 ** i
    S.check_eq(h.hash_value(), v, 'hash value')
    S.check_eq(h.hex_str(), bytes(reversed(hh)).hex(), 'displayed hash')


@prop('C01', bounds='every 80-byte header, every two heights: one header changed by its holder, then another made from the same bytes', assumes=[HASH], hash_order='bytes')
def header_again(S):
    raw = S.bytes('raw', 80)
    coin = S.choice('coin', COINS)
    height = S.int('height', -1, 2 ** 40)
    other = S.int('other', -1, 2 ** 40)
    first = coin.deserialized_header(raw, height)
    try:
        first.height = other
        first.prev_hash = bytes(32)
        first.bits = 0
    except AttributeError:
        S.reach('immutable')
    second = S.ok('deserialized', coin.deserialized_header, raw, height)
    third = S.ok('deserialized', coin.deserialized_header, raw, other)
    for h, n in ((second, height), (third, other)):
        S.check_eq(h.height, n, 'height')
        S.check_eq(h.prev_hash, raw[4:36], 'previous hash')
        S.check_eq(h.bits, int.from_bytes(raw[72:76], 'little'), 'bits')
        S.check_eq(h.raw, raw, 'raw')
    S.reach('twice')


@prop('C01', cases=[dict(n=n) for n in (0, 1, 79, 81, 160)], bounds='every buffer of 0, 1, 79, 81, 160 bytes', assumes=[HASH], hash_order='bytes')
def other_size(S, n):
    raw = S.bytes('raw', n)
    for coin in COINS[:2]:
        S.raises('size', (struct.error, ValueError, TypeError), coin.deserialized_header, raw, 5)


# ------------------------------------------------------------------------------------------------ C02
def target(bits):
    '''the target of a compact value, or None'''
    size, word = bits >> 24, bits & 0xffffff
    if bits < 0 or bits > 0x2100ffff:
        return None
    if bits == 0:
        return 0
    if word < 0x8000 or word > 0x7fffff:
        return None
    if size >= 3:
        return word * 256 ** (size - 3)
    d = 256 ** (3 - size)
    if word % d:
        return None
    return word // d


@prop('C02', bounds='every integer from -2^40 to 2^40', reach=('ok', 'bad'))
def bits(S):
    b = S.int('b', -2 ** 40, 2 ** 40)
    S.assume(b < 0 or b > 0x2100ffff or b >> 24 < 3)
    one_bits(S, b)


@prop('C02', cases=[dict(size=s) for s in range(3, 34)], bounds='every mantissa for every exponent 3..33')
def bits_by_size(S, size):
    b = S.int('b', size << 24, min(0x2100ffff, ((size + 1) << 24) - 1))
    one_bits(S, b)


def one_bits(S, b):
    want = target(b)
    ok, t = S.attempt(bits_to_target, b)
    S.check(ok == (want is not None), 'accepted exactly when canonical')
    if not ok:
        S.reach('bad')
        S.check(S.isa(t, ValueError), 'ValueError')
        return
    S.reach('ok')
    S.check_eq(t, want, 'target')
    S.check_eq(S.ok('back', target_to_bits, t), b, 'compact form of the target')


@prop('C02', bounds='every integer below 2^256 and above -2^270, 2^256..2^270', cases=[dict(n=n) for n in range(-2, 33)])
def targets(S, n):
    if n < 0:
        t = S.int('t', *((-2 ** 270, -1) if n == -2 else (2 ** 256, 2 ** 270)))
        S.raises('out of range', ValueError, target_to_bits, t)
        return
    t = S.int('t', 256 ** (n - 1) if n else 0, 256 ** n - 1)
    b = S.ok('converts', target_to_bits, t)
    S.check(b & 0x800000 == 0, 'sign bit clear')
    S.check(0 <= b and b <= 0x2100ffff, 'in range')
    v = S.ok('back', bits_to_target, b)
    S.check(v <= t, 'not above the target')
    # the next larger compact value
    size, word = b >> 24, b & 0xffffff
    if n:
        S.check(0x8000 <= word, 'canonical')
        w = word + 1
        nxt = w * 256 ** (size - 3) if size >= 3 else w // 256 ** (3 - size)
        if size < 3:
            S.check(v == t, 'small targets exact')
        else:
            S.check(nxt > t, 'largest representable')


# ------------------------------------------------------------------------------------------------ C03
@prop('C03', cases=[dict(size=s) for s in range(0, 34)], bounds='every accepted compact value')
def work(S, size):
    b = S.int('b', size << 24, min(0x2100ffff, ((size + 1) << 24) - 1))
    t = target(b)
    ok, w = S.attempt(bits_to_work, b)
    S.check(ok == (t is not None), 'defined exactly for valid bits')
    if ok:
        S.check(w * (t + 1) <= 2 ** 256 and 2 ** 256 < (w + 1) * (t + 1), 'floor of 2^256 / (target + 1)')


@prop('C03', cases=[dict(size=s) for s in range(1, 34)], bounds='every header with accepted bits', assumes=[HASH])
def header_work(S, size):
    """header work, target and difficulty are those of its bits"""
    b = S.int('b', size << 24, min(0x2100ffff, ((size + 1) << 24) - 1))
    t = target(b)
    raw = b'\1' + bytes(67) + S.bytes('time', 4) + b.to_bytes(4, 'little') + b'\2\3\4\5'
    coin = S.choice('coin', COINS[:2])
    h = coin.deserialized_header(raw, 7)
    if t is None:
        S.raises('invalid bits', ValueError, h.work)
        S.raises('invalid bits', ValueError, h.target)
        S.raises('invalid bits', ValueError, coin.header_work, raw)
        return
    S.check_eq(S.ok('target', h.target), t, 'target')
    w = 2 ** 256 // (t + 1)
    S.check_eq(S.ok('work', h.work), w, 'work')
    S.check_eq(S.ok('work', coin.header_work, raw), w, 'work of the raw header')
    S.check_eq(S.ok('difficulty', h.difficulty), MAX / t, 'difficulty')
    S.check_eq(S.ok('difficulty', coin.bits_to_difficulty, b), MAX / t, 'difficulty')
