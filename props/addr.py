"""A01-A06: base58, addresses, cashaddr, output scripts."""
from bitcoinx import (
    base58_encode, base58_decode, base58_encode_check, base58_decode_check, Base58Error, Address, P2PKH_Address, P2SH_Address,
    P2PK_Output, P2MultiSig_Output, OP_RETURN_Output, Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest,
    PublicKey, PrivateKey, double_sha256, hash160, sha256, cashaddr,
)
from engine.reg import prop

HASH = 'SHA-256 / RIPEMD-160 are arbitrary functions (equal inputs give equal outputs)'
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
COINS = (Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest)
VER = ((0, 5), (0x6f, 0xc4), (0x6f, 0xc4), (0x6f, 0xc4))
PREFIX = ('bitcoincash', 'bchtest', 'bchtest', 'bchtest')


# ------------------------------------------------------------------------------------------------ A01
@prop('A01', cases=[dict(n=n) for n in (1, 2, 3, 4, 5, 8, 21, 25, 37)], thorough=[dict(n=n) for n in (6, 7, 16, 20, 32, 33, 34, 38, 82)],
      bounds='every byte string of 1..5, 8, 21, 25, 37 (thorough: also 6, 7, 16, 20, 32..34, 38, 82) bytes')
def bytes_roundtrip(S, n):
    d = S.bytes('d', n)
    t = S.ok('encodes', base58_encode, d)
    S.check_eq(S.ok('decodes', base58_decode, t), d, 'decode(encode(b)) == b')
    z = 0
    while z < n and d[z] == 0:
        z += 1
    S.check(t[:z] == '1' * z and (z == len(t) or t[z] != '1'), 'one leading 1 for each leading zero byte')


@prop('A01', cases=[dict(n=n) for n in (1, 2, 3, 4, 5, 11, 22, 34, 35)], thorough=[dict(n=n) for n in (6, 7, 8, 20, 30, 51, 52, 111)],
      bounds='every base58 text of 1..5, 11, 22, 34, 35 (thorough: also 6..8, 20, 30, 51, 52, 111) characters')
def text_roundtrip(S, n):
    t = S.str('t', n, B58)
    d = S.ok('decodes', base58_decode, t)
    v = 0
    for c in t:
        v = v * 58 + B58.index(c)
    S.check_eq(int.from_bytes(d, 'big'), v, 'the number in base 58')
    S.check_eq(S.ok('encodes', base58_encode, d), t, 'encode(decode(t)) == t')


@prop('A01', cases=[dict(n=n) for n in range(0, 8)], thorough=[dict(n=n) for n in (12, 20)],
      bounds='every text of 0..7 (thorough: 20) characters of a 149-character alphabet (all ASCII and unusual Unicode); non-strings')
def bad_text(S, n):
    if n == 0:
        S.raises('empty', Base58Error, base58_decode, '')
        for x in (b'11', 11, None, ['1']):
            S.raises('not text', TypeError, base58_decode, x)
        S.check_eq(base58_encode(b''), '', 'nothing')
        return
    t = S.str('t', n)
    good = all(c in B58 for c in t)
    ok, r = S.attempt(base58_decode, t)
    S.reach('good' if good else 'bad')
    S.check(ok == good, 'accepts exactly texts in the alphabet')
    if not ok:
        S.check(S.isa(r, Base58Error), 'base58 error')


# ------------------------------------------------------------------------------------------------ A02
@prop('A02', cases=[dict(n=n) for n in (0, 1, 2, 3, 4, 21, 33, 34)], thorough=[dict(n=n) for n in (5, 8, 16, 20, 78)],
      bounds='every payload of 0..4, 21, 33, 34 (thorough: also 5, 8, 16, 20, 78) bytes with every 4-byte checksum', assumes=[HASH], hash_order='bytes')
def check_codec(S, n):
    p = S.bytes('p', n)
    c = S.bytes('c', 4)
    good = double_sha256(p)[:4]
    t = base58_encode(p + c)
    if n == 0 and c == bytes(4):
        S.check(t == '1111', 'text')
    ok, r = S.attempt(base58_decode_check, t)
    S.check(ok == (c == good), 'accepted iff the checksum is right')
    S.reach('accept' if ok else 'reject')
    if ok:
        S.check_eq(r, p, 'payload')
    else:
        S.check(S.isa(r, Base58Error), 'base58 error')


@prop('A02', cases=[dict(n=n) for n in (0, 1, 2, 21, 34)], thorough=[dict(n=n) for n in (3, 4, 5, 20, 33, 78)],
      bounds='every payload of 0..2, 21, 34 (thorough: more) bytes', assumes=[HASH], hash_order='bytes')
def check_roundtrip(S, n):
    p = S.bytes('p', n)
    t = S.ok('encodes', base58_encode_check, p)
    S.check_eq(base58_decode(t), p + double_sha256(p)[:4], 'payload and checksum')
    S.check_eq(S.ok('decodes', base58_decode_check, t), p, 'decodes to the payload')


@prop('A02', cases=[dict(n=n) for n in range(0, 9)], thorough=[dict(n=n) for n in (10, 12)],
      bounds='every base58 text of 0..8 (thorough: 12) characters', assumes=[HASH], hash_order='bytes')
def check_text(S, n):
    t = S.str('t', n, B58)
    ok, r = S.attempt(base58_decode_check, t)
    if n == 0:
        S.check(not ok, 'empty')
    if not ok:
        S.check(S.isa(r, Base58Error), 'base58 error')
        if n == 0:
            return
    d = base58_decode(t)
    if len(d) < 4:
        S.reach('short')
        S.check(not ok, 'shorter than a checksum')
    else:
        S.check(ok == (d[-4:] == double_sha256(d[:-4])[:4]), 'accepted iff the checksum is right')
        if ok:
            S.check_eq(r, d[:-4], 'payload')


# ------------------------------------------------------------------------------------------------ A03
@prop('A03', bounds='every 20-byte hash, both kinds, all four coins', assumes=[HASH], hash_order='bytes', reach=('P2PKH_Address', 'P2SH_Address'))
def addr_text(S):
    i = S.choice('coin', range(4))
    k = S.choice('kind', range(2))
    h = S.bytes('h', 20)
    cls = (P2PKH_Address, P2SH_Address)[k]
    a = cls(h, COINS[i])
    t = S.ok('text', a.to_string)
    S.check_eq(str(a), t, 'str')
    S.check_eq(base58_decode(t)[:-4], bytes([VER[i][k]]) + h, 'version byte and hash')
    b = S.ok('parses', Address.from_string, t, COINS[i])
    S.check(type(b) is cls, 'kind')
    S.check_eq(b.hash160(), h, 'hash')
    S.check(b.coin() is COINS[i], 'coin')
    S.check(a == b, 'equal')
    S.check(hash(a) == hash(b), 'hashes equally')
    S.reach(cls.__name__)
    j = S.choice('other', range(4))
    if VER[j] != VER[i]:
        S.raises('wrong network', ValueError, Address.from_string, t, COINS[j])
    else:
        c = S.ok('parses', Address.from_string, t, COINS[j])
        S.check(c.coin() is COINS[j] and type(c) is cls and c == a, 'parsed for the coin given')
        S.check(b.coin() is COINS[i], 'the first is as it was')
    S.check(S.ok('parses again', Address.from_string, t, COINS[i]).coin() is COINS[i], 'parsed for the coin given')


@prop('A03', bounds='every pair of addresses of either kind', reach=('same', 'differ'))
def addr_eq(S):
    h, g = S.bytes('h', 20), S.bytes('g', 20)
    a = (P2PKH_Address, P2SH_Address)[S.choice('k', range(2))](h, COINS[S.choice('c', range(2))])
    b = (P2PKH_Address, P2SH_Address)[S.choice('l', range(2))](g, COINS[0])
    same = type(a) is type(b) and h == g
    S.check((a == b) == same, 'equal exactly when kind and hash are')
    if same:
        S.check(hash(a) == hash(b), 'hashes equally')
    S.reach('same' if same else 'differ')


@prop('A03', cases=[dict(n=n) for n in (0, 1, 19, 20, 21, 22)], thorough=[dict(n=n) for n in (2, 5, 10)],
      bounds='every correctly checksummed payload of 0, 1, 19..21 (thorough: also 2, 5, 10) bytes, and of 22 bytes with the first 1, 2 or 3', assumes=[HASH], hash_order='bytes',
      reach=())
def addr_payload(S, n):
    i = S.choice('coin', range(2))
    p = S.bytes('p', n)
    if n == 22:
        S.assume(1 <= p[0])
        S.assume(p[0] < 4)
    t = base58_encode_check(p)
    ok, r = S.attempt(Address.from_string, t, COINS[i])
    good = n == 21 and (p[0] == VER[i][0] or p[0] == VER[i][1])
    S.check(ok == good, 'accepted iff 21 bytes with one of the version bytes')
    if ok:
        S.check(type(r) is (P2PKH_Address if p[0] == VER[i][0] else P2SH_Address), 'kind')
        S.check_eq(r.hash160(), p[1:], 'hash')
    else:
        S.check(S.isa(r, ValueError), 'ValueError')


@prop('A03', cases=[dict(n=n) for n in (0, 1, 20, 34, 35)] + [dict(n=36, one=0)], thorough=[dict(n=n) for n in (5, 32, 33, 36)] + [dict(n=44, one=0), dict(n=60, one=0)],
      bounds='every base58 text of 0, 1, 20, 34, 35 (thorough: also 5, 32, 33, 36) characters, and of 36 (thorough: also 44, 60) characters not starting with 1', assumes=[HASH], hash_order='bytes', reach=())
def addr_any_text(S, n, one=1):
    i = S.choice('coin', range(2)) if n < 36 else 0
    t = S.str('t', n, B58)
    if not one:
        S.assume(t[0] != '1')
    ok, r = S.attempt(Address.from_string, t, COINS[i])
    if ok:
        d = base58_decode(t)
        S.check_eq(len(d), 25, 'version, hash and checksum')
        S.check_eq(d[-4:], double_sha256(d[:-4])[:4], 'checksum')
        S.check(d[0] == VER[i][0] or d[0] == VER[i][1], 'version byte')
        S.check(type(r) is (P2PKH_Address if d[0] == VER[i][0] else P2SH_Address), 'kind')
        S.check_eq(r.hash160(), d[1:-4], 'hash')
    else:
        S.check(S.isa(r, ValueError), 'ValueError')


# ------------------------------------------------------------------------------------------------ cashaddr reference
CHARSET = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
GEN = (0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470)
SIZES = (20, 24, 28, 32, 40, 48, 56, 64)


def ref_polymod(vals):
    c = 1
    for d in vals:
        t = c >> 35
        c = ((c & 0x07ffffffff) << 5) ^ d
        for i in range(5):
            if (t >> i) & 1:
                c ^= GEN[i]
    return c ^ 1


def ref_checksum(prefix, syms):
    pm = ref_polymod([ord(x) & 31 for x in prefix] + [0] + syms + [0] * 8)
    return [(pm >> 5 * (7 - i)) & 31 for i in range(8)]


def to_syms(data):
    """8 bits to 5 bits, zero padded"""
    out = []
    nbits = len(data) * 8
    for i in range(0, nbits, 5):
        v = 0
        for k in range(5):
            b = i + k
            bit = (data[b // 8] >> (7 - b % 8)) & 1 if b < nbits else 0
            v = v * 2 + bit
        out.append(v)
    return out


def text_of(syms):
    return ''.join([CHARSET[v] for v in syms])


def ref_encode(prefix, version, h):
    syms = to_syms(bytes([version]) + h)
    return prefix + ':' + text_of(syms + ref_checksum(prefix, syms))


# ------------------------------------------------------------------------------------------------ A04
LOWP = [c for c in range(33, 127) if not 65 <= c <= 90 and c != 58]
UPP = [c for c in range(33, 127) if not 97 <= c <= 122 and c != 58]


@prop('A04', cases=[dict(n=n) for n in SIZES], bounds='every hash of the permitted sizes, both kinds, both cases, prefix bitcoincash or bchtest')
def cash_roundtrip(S, n):
    h = S.bytes('h', n, word='bits')
    kind = S.choice('kind', (0, 1))
    prefix = S.choice('prefix', PREFIX[:2])
    t = ref_encode(prefix, kind * 8 + SIZES.index(n), h)
    if S.flag('upper'):
        t = t.upper()
        prefix = prefix.upper()
    p, k, g = S.ok('decodes', cashaddr.decode, t)
    S.check_eq(p, prefix, 'prefix')
    S.check_eq(k, kind, 'kind')
    S.check_eq(g, h, 'hash')


@prop('A04', cases=[dict(m=m) for m in (1, 2)], thorough=[dict(m=3)], bounds='every prefix of 1 or 2 (thorough: 3) characters, 20-byte hashes')
def cash_prefix(S, m):
    h = S.bytes('h', 20, word='bits')
    up = S.flag('upper')
    prefix = S.str('prefix', m, UPP if up else LOWP)
    t = ref_encode(prefix, 8, h)
    if up:
        t = t.upper()
        if prefix == prefix.lower():
            S.reach('uncased prefix')
    p, k, g = S.ok('decodes', cashaddr.decode, t)
    S.check_eq(p, prefix, 'prefix')
    S.check_eq((k, g), (1, h), 'kind and hash')


@prop('A03', bounds='every 20-byte hash as cashaddr text, both kinds, two coins, with and without prefix, both cases', reach=('P2PKH_Address', 'P2SH_Address'))
@prop('A04', bounds='every 20-byte hash, both kinds, two coins, with and without prefix, both cases', reach=('P2PKH_Address', 'P2SH_Address'))
def cash_address(S):
    i = S.choice('coin', (0, 1))
    kind = S.choice('kind', (0, 1))
    h = S.bytes('h', 20, word='bits')
    t = ref_encode(PREFIX[i], kind * 8, h)
    with_ = S.flag('with')
    if not with_:
        t = t[len(PREFIX[i]) + 1:]
    if S.flag('upper'):
        t = t.upper()
    a = S.ok('parses', Address.from_string, t, COINS[i])
    cls = (P2PKH_Address, P2SH_Address)[kind]
    S.check(type(a) is cls, 'kind')
    S.check_eq(a.hash160(), h, 'hash')
    S.check(a.coin() is COINS[i], 'coin')
    S.check(a == cls(h, COINS[i]), 'equal')
    S.reach(cls.__name__)


@prop('A03', bounds='every 20-byte hash, both kinds, two coins, prefixed, both cases, given to the other coin')
def cash_other_network(S):
    i = S.choice('coin', (0, 1))
    t = ref_encode(PREFIX[i], S.choice('kind', (0, 1)) * 8, S.bytes('h', 20, word='bits'))
    if S.flag('upper'):
        t = t.upper()
    S.raises('other network', ValueError, Address.from_string, t, COINS[1 - i])


@prop('A04', cases=[dict(i=0, up=0), dict(i=1, up=1)], thorough=[dict(i=0, up=1), dict(i=1, up=0)], bounds='every 20-byte hash, without prefix, given to the other coin')
def cash_other(S, i, up):
    t = ref_encode(PREFIX[i], 0, S.bytes('h', 20, word='bits'))[len(PREFIX[i]) + 1:]
    if up:
        t = t.upper()
    S.raises('other network', ValueError, Address.from_string, t, COINS[1 - i])


@prop('A04', cases=[dict(n=n) for n in (21, 24, 32, 0, 64)], bounds='correctly encoded hashes of 0, 21, 24, 32, 64 bytes given to a coin')
def cash_address_size(S, n):
    h = S.bytes('h', n, word='bits')
    k = S.choice('kind', (0, 1))
    t = ref_encode('bitcoincash', k * 8 + (SIZES.index(n) if n in SIZES else 0), h)
    ok, r = S.attempt(Address.from_string, t, Bitcoin)
    S.check(not ok, 'only 20-byte hashes make an address')
    S.check(S.isa(r, ValueError), 'ValueError')


def strict(S, t, spec, label):
    """decode(t) must give spec (None: ValueError)"""
    ok, r = S.attempt(cashaddr.decode, t)
    S.check(ok == (spec is not None), label + ': accepted iff valid')
    S.reach('valid' if ok else 'invalid')
    if ok:
        S.check_eq(r[0], spec[0], label + ': prefix')
        S.check_eq(r[1], spec[1], label + ': kind')
        S.check_eq(r[2], spec[2], label + ': hash')
    else:
        S.check(S.isa(r, ValueError), label + ': ValueError')


def ref_inner(prefix, syms):
    """meaning of payload symbols (checksum already verified)"""
    n = len(syms) * 5
    extra = n % 8
    if not syms or extra >= 5 or n < 8:
        return None
    if syms[-1] & ((1 << extra) - 1):
        return None
    data = []
    for i in range(n // 8):
        v = 0
        for k in range(8):
            b = i * 8 + k
            v = v * 2 + ((syms[b // 5] >> (4 - b % 5)) & 1)
        data.append(v)
    if data[0] >= 16:
        return None
    if SIZES[data[0] & 7] != len(data) - 1:
        return None
    return prefix, data[0] >> 3, bytes(data[1:])


@prop('A04', cases=[dict(n=n) for n in (0, 1, 2, 3, 4, 8, 33, 34, 35, 40, 41, 47, 53, 66, 105)],
      thorough=[dict(n=n) for n in range(5, 117) if n not in (8, 33, 34, 35, 40, 41, 47, 53, 66, 105)],
      bounds='every sequence of 0..4, 8, 33..35, 40, 41, 47, 53, 66, 105 (thorough: all of 0..116) payload symbols with a correct checksum', reach=('invalid',))
def cash_inner(S, n):
    syms = [S.bits('d%d' % i, 5) for i in range(n)]
    t = 'bchtest:' + text_of(syms + ref_checksum('bchtest', syms))
    strict(S, t, ref_inner('bchtest', syms), 'checksummed symbols')


@prop('A04', cases=[dict(n=n) for n in (0, 7, 8, 9, 42, 113, 124, 125)], thorough=[dict(n=n) for n in (10, 20, 34, 61)],
      bounds='payloads of 0, 7..9, 42, 113, 124, 125 (thorough: more) characters of the alphabet, any checksum', reach=())
def cash_checksum(S, n):
    syms = [S.bits('d%d' % i, 5) for i in range(n)]
    t = 'bitcoincash:' + text_of(syms)
    good = n >= 8 and ref_checksum('bitcoincash', syms[:-8]) == syms[-8:]
    strict(S, t, ref_inner('bitcoincash', syms[:-8]) if good and n <= 112 + 8 else None, 'symbols')


VALID = ('bitcoincash:ppm2qsznhks23z7629mms6s4cwef74vcwvn0h829pq', 'BCHTEST:QPM2QSZNHKS23Z7629MMS6S4CWEF74VCWVQCW003AP')


@prop('A04', cases=[dict(n=n) for n in range(0, 13)], thorough=[dict(n=n) for n in (14, 16)],
      bounds='every text of up to 12 (thorough: 16) ASCII characters', reach=('invalid',))
def cash_text(S, n):
    strict(S, S.str('t', n, range(128)), None, 'short text')


GARBLE = (0, 11, 12, 21, 53, 54)


@prop('A04', cases=[dict(at=i, rep=r, up=u) for i in GARBLE for r, u in ((0, 0), (1, 1)) if i or not r],
      thorough=[dict(at=i, rep=r, up=u) for i in range(55) for r in (0, 1) for u in (0, 1) if not (i in GARBLE and r == u and (i or not r))],
      bounds='a valid address with any one character of a 149-character alphabet put in place of, or inserted before, the characters at positions 0, 11, 12, 21, 53, 54 (thorough: any position)')
def cash_garbled(S, at, rep, up):
    v = 'bitcoincash:ppm2qsznhks23z7629mms6s4cwef74vcwvn0h829pq'
    if up:
        v = v.upper()
    c = S.str('c', 1)
    t = v[:at] + c + v[at + (1 if rep else 0):]
    ok, r = S.attempt(cashaddr.decode, t)
    same = rep and c == v[at:at + 1]
    if ok and not same:
        # the checksum covers only the low five bits of prefix characters
        col = v.index(':')
        S.check(at < col and rep and ord(c) & 31 == ord(v[at]) & 31, 'garbled text accepted')
        S.check_eq(r[0], t[:col], 'prefix as given')
    elif not ok:
        S.check(not same, 'valid text accepted')
        S.check(S.isa(r, ValueError), 'ValueError')
    if at in (0, 11, 21):
        ok, r = S.attempt(Address.from_string, t, Bitcoin)
        S.check(ok == same, 'address accepted only ungarbled')
        if not ok:
            S.check(S.isa(r, ValueError), 'ValueError')


@prop('A04', bounds='non-text and structural corner cases')
def cash_fixed(S):
    for x in (b'bitcoincash:qq', None, 5, ['a']):
        ok, r = S.attempt(cashaddr.decode, x)
        S.check(not ok and S.isa(r, (TypeError, ValueError)), 'non-text rejected')
    for x in ('', ':', 'bitcoincash', 'bitcoincash:', ':' + VALID[0].split(':')[1], VALID[0].split(':')[1],
              VALID[0][:12] + VALID[0][12:].upper(), VALID[0].upper()[:12] + VALID[0][12:], 'a:' + VALID[0]):
        S.raises('rejected', ValueError, cashaddr.decode, x)


# ------------------------------------------------------------------------------------------------ A05
def corrupt(S, prefix, n, i, js):
    """a valid n-symbol payload with symbols i and (each of) js replaced"""
    syms = [S.bits('d%d' % i, 5) for i in range(n - 8)]
    e = S.bits('e', 5)
    S.assume(e != 0)
    f = S.bits('f', 5)
    syms = syms + ref_checksum(prefix, syms)
    for j in js:
        bad = list(syms)
        bad[i] = bad[i] ^ e
        bad[j] = bad[j] ^ f
        ok, r = S.attempt(cashaddr.decode, prefix + ':' + text_of(bad))
        S.check(not ok, 'corruption accepted')
        S.check(S.isa(r, ValueError), 'ValueError')


@prop('A05', cases=[dict(p=p, i=i) for p in (0, 1) for i in range(0, 41)], bounds='every valid 42-symbol address (either prefix) with any two symbols changed in any way')
def two(S, p, i):
    if p == 1 and i % 8:
        return
    corrupt(S, PREFIX[p], 42, i, range(i + 1, 42))


@prop('A05', cases=[dict(n=42, k=k) for k in range(2)] + [dict(n=61, k=k) for k in range(4)], thorough=[dict(n=112, k=k) for k in range(8)],
      bounds='every valid address of 42 or 61 (thorough: 112) symbols with any one symbol changed')
def one(S, n, k):
    syms = [S.bits('d%d' % i, 5) for i in range(n - 8)]
    prefix = S.choice('prefix', PREFIX[:2])
    syms = syms + ref_checksum(prefix, syms)
    e = S.bits('e', 5)
    S.assume(e != 0)
    for i in range(k * n // (8 if n > 61 else n // 15), (k + 1) * n // (8 if n > 61 else n // 15)):
        bad = list(syms)
        bad[i] = bad[i] ^ e
        ok, r = S.attempt(cashaddr.decode, prefix + ':' + text_of(bad))
        S.check(not ok, 'corruption accepted')
        S.check(S.isa(r, ValueError), 'ValueError')


@prop('A05', cases=[dict(i=i) for i in range(11)], bounds='every valid 42-symbol address with any character of the prefix changed to one whose low five bits differ')
def prefix_change(S, i):
    syms = [S.bits('d%d' % i, 5) for i in range(34)]
    prefix = S.choice('prefix', PREFIX[:2])
    t = text_of(syms + ref_checksum(prefix, syms))
    i = i % len(prefix)
    c = S.str('c', 1, LOWP)
    S.assume(ord(c) & 31 != ord(prefix[i]) & 31)
    S.raises('prefix changed', ValueError, cashaddr.decode, prefix[:i] + c + prefix[i + 1:] + ':' + t)


# ------------------------------------------------------------------------------------------------ A06
EC = 'libsecp256k1 follows its documented contract (engine/ec.py)'
G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)


def push(x):
    return bytes([len(x)]) + x


@prop('A06', bounds='every 20-byte hash', reach=())
def hash_outputs(S):
    h = S.bytes('h', 20)
    S.check_eq(P2PKH_Address(h, Bitcoin).to_script_bytes(), b'\x76\xa9\x14' + h + b'\x88\xac', 'P2PKH')
    S.check_eq(P2PKH_Address(h, Bitcoin).to_script().to_bytes(), b'\x76\xa9\x14' + h + b'\x88\xac', 'P2PKH')
    S.check_eq(P2SH_Address(h, BitcoinTestnet).to_script_bytes(), b'\xa9\x14' + h + b'\x87', 'P2SH')
    S.check_eq(P2SH_Address(h, Bitcoin).to_script().to_bytes(), b'\xa9\x14' + h + b'\x87', 'P2SH')
    S.check_eq(OP_RETURN_Output().to_script_bytes(), b'\x6a', 'OP_RETURN')
    S.check_eq(OP_RETURN_Output().to_script().to_bytes(), b'\x6a', 'OP_RETURN')


@prop('A06', cases=[dict(n=n) for n in (0, 19, 21, 32)], bounds='hashes of 0, 19, 21, 32 bytes; non-bytes')
def bad_hash(S, n):
    h = S.bytes('h', n)
    for cls in (P2PKH_Address, P2SH_Address):
        S.raises('size', ValueError, cls, h, Bitcoin)
        for x in (bytearray(20), 'a' * 20, None, 20, memoryview(bytes(20))):
            S.raises('type', TypeError, cls, x, Bitcoin)


def sym_key(S, name):
    d = S.bytes(name, 32, word='big')
    v = int.from_bytes(d, 'big')
    S.assume(v > 0)
    S.assume(v < 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141)
    return PrivateKey(d, S.flag('c_' + name), S.choice('coin_' + name, COINS[:2])).public_key


@prop('A06', bounds='every public key, compressed or not, two coins', assumes=[EC, HASH], reach=('c', 'u'))
def key_outputs(S):
    k = sym_key(S, 'k')
    comp = k.is_compressed()
    b = k.to_bytes()
    S.check_eq(len(b), 33 if comp else 65, 'size')
    S.check_eq(b, k.to_bytes(compressed=comp), 'own serialization')
    S.reach('c' if comp else 'u')
    pk = push(b) + b'\xac'
    S.check_eq(k.P2PK_script().to_bytes(), pk, 'P2PK script')
    S.check_eq(P2PK_Output(k, k.coin()).to_script_bytes(), pk, 'P2PK output')
    S.check_eq(P2PK_Output(b, k.coin()).to_script().to_bytes(), pk, 'P2PK output from bytes')
    S.check_eq(P2PK_Output(b.hex(), k.coin()).to_script().to_bytes(), pk, 'P2PK output from hex')
    S.check_eq(P2PK_Output(k, k.coin()).hash160(), hash160(b), 'hash160')
    a = P2PK_Output(k, BitcoinRegtest).to_address()
    S.check_eq(a.hash160(), hash160(b), 'address of P2PK')
    S.check(a.coin() is BitcoinRegtest, 'coin')
    S.check_eq(k.hash160(), hash160(b), 'key hash160')
    S.check_eq(k.P2PKH_script().to_bytes(), b'\x76\xa9\x14' + hash160(b) + b'\x88\xac', 'P2PKH script')
    S.check_eq(k.to_address().hash160(), hash160(b), 'address')
    S.check(k.to_address().coin() is k.coin(), 'address coin')
    S.check(k.to_address(coin=BitcoinRegtest).coin() is BitcoinRegtest, 'address coin')
    o = not comp
    S.check_eq(k.to_address(compressed=o).hash160(), hash160(k.to_bytes(compressed=o)), 'address, other form')
    S.check_eq(k.hash160(compressed=o), hash160(k.to_bytes(compressed=o)), 'hash160, other form')
    S.check(P2PK_Output(k, k.coin()) == P2PK_Output(b, Bitcoin), 'equal')


@prop('A06', cases=[dict(n=n) for n in (0, 1, 2, 3, 4, 16, 17, 20)], thorough=[dict(n=n) for n in (15, 18, 40)],
      bounds='0..4, 16, 17, 20 keys (thorough: 15, 18, 40; the first symbolic), any threshold from -2 to n+2', assumes=[EC, HASH])
def multisig(S, n):
    keys = []
    fixed = PrivateKey((7).to_bytes(32, 'big')).public_key
    for i in range(n):
        keys.append(sym_key(S, 'k%d' % i) if i < 1 else fixed.complement() if i % 2 else fixed)
    m = S.int('m', -2, n + 2)
    ok, r = S.attempt(P2MultiSig_Output, keys, m)
    S.check(ok == (1 <= m <= n), 'threshold between 1 and the key count')
    if not ok:
        S.check(S.isa(r, ValueError), 'ValueError')
        return

    def num(v):
        return bytes([0x50 + v]) if v <= 16 else bytes([1, v])
    want = num(m) + b''.join([push(k.to_bytes()) for k in keys]) + num(n) + b'\xae'
    S.check_eq(r.to_script_bytes(), want, 'script')
    S.check_eq(r.to_script().to_bytes(), want, 'script')
    S.check_eq(r.hash160(), hash160(want), 'hash160')
    S.check_eq(r.public_key_count(), n, 'count')
    r2 = P2MultiSig_Output([k.to_hex() if i % 2 else k.to_bytes() for i, k in enumerate(keys)], m)
    S.check_eq(r2.to_script_bytes(), want, 'script from serialized keys')
    S.check(r == r2, 'equal')
