"""B01-B04: BIP32."""
import hmac

from bitcoinx import (
    PrivateKey, PublicKey, Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest, BIP32PrivateKey, BIP32PublicKey, BIP32Derivation,
    base58_encode_check, base58_decode_check, bip32_key_from_string, bip32_decompose_chain_string, bip32_is_valid_chain_string,
    bip32_build_chain_string, bip32_validate_derivation, hash160,
)
from engine.reg import prop

HASH = 'hash and HMAC functions are arbitrary functions (equal inputs give equal outputs)'
EC = 'libsecp256k1 follows its documented contract (engine/ec.py)'
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
H = 1 << 31
COINS = (Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest)
XPUB = {0: '0488b21e', 1: '043587cf'}
XPRV = {0: '0488ade4', 1: '04358394'}


def master(S, depth=254, coin=None):
    d = S.bytes('d', 32, word='big')
    v = int.from_bytes(d, 'big')
    S.assume(v > 0 and v < N)
    cc, fp = S.bytes('cc', 32), S.bytes('fp', 4)
    n, dep = S.int('n', 0, (1 << 32) - 1), S.int('depth', 0, depth)
    coin = S.choice('coin', COINS[:2]) if coin is None else coin
    return BIP32PrivateKey(d, BIP32Derivation(cc, n, dep, fp), coin), d, v, cc, dep


def ext(k):
    D = k.derivation()
    return D.chain_code, D.n, D.depth, D.parent_fingerprint


def check_child(S, c, kind, want_cc, i, dep, fp, coin):
    S.check(type(c) is kind, 'kind')
    a, b, e, f = ext(c)
    S.check_eq(a, want_cc, 'chain code')
    S.check(b == i, 'index')
    S.check(e == dep + 1, 'depth')
    S.check_eq(f, fp, 'parent fingerprint')
    S.check(c.coin() is coin, 'coin')
    S.check(c.is_compressed() is True, 'compressed')


# ------------------------------------------------------------------------------------------------ B01
@prop('B01', cases=[dict(hard=h) for h in (False, True)], bounds='every parent key, chain code, depth 0..254, fingerprint and index', assumes=[EC, HASH], reach=('valid', 'invalid'))
def child_private(S, hard):
    k, d, v, cc, dep = master(S)
    i = S.int('i', H if hard else 0, (1 << 32) - 1 if hard else H - 1)
    pub = PrivateKey(d).public_key.to_bytes(compressed=True)
    ser = b'\0' + d if hard else pub
    I = hmac.digest(cc, ser + i.to_bytes(4, 'big'), 'sha512')
    L = int.from_bytes(I[:32], 'big')
    want = (v + L) % N
    good = L < N and want != 0
    ok, c = S.attempt(k.child, i)
    S.check(ok == good, 'derived iff valid')
    fp = hash160(pub)[:4]
    S.check_eq(k.fingerprint(), fp, 'fingerprint')
    S.check_eq(k.identifier(), hash160(pub), 'identifier')
    S.check_eq(k.public_key.fingerprint(), fp, 'fingerprint')
    if ok:
        S.reach('valid')
        S.check_eq(c.to_int(), want, 'secret')
        check_child(S, c, BIP32PrivateKey, I[32:], i, dep, fp, k.coin())
    else:
        S.reach('invalid')
        S.check(S.isa(c, ValueError), 'ValueError')
    S.check(k.to_int() == v and k.derivation().depth == dep, 'parent unchanged')
    K = k.public_key
    S.check(type(K) is BIP32PublicKey and K.derivation() == k.derivation() and K.coin() is k.coin(), 'neutered parent')
    ok2, C = S.attempt(K.child, i)
    if hard:
        S.check(not ok2 and S.isa(C, ValueError), 'no hardened public child')
        return
    S.check(ok2 == good, 'public child derived iff valid')
    if ok2:
        S.check(C == c.public_key, 'commutes with neutering')
        S.check(C.derivation() == c.public_key.derivation(), 'commutes with neutering')
        S.check(C == PrivateKey.from_int(want).public_key, 'public key')
        check_child(S, C, BIP32PublicKey, I[32:], i, dep, fp, k.coin())
        S.check(type(c.public_key) is BIP32PublicKey and c.public_key.coin() is k.coin(), 'neutered child')
    else:
        S.check(S.isa(C, ValueError), 'ValueError')


@prop('B01', bounds='every public parent and non-hardened index', assumes=[EC, HASH], reach=('valid', 'invalid'))
def child_public(S):
    k, d, v, cc, dep = master(S)
    K = BIP32PublicKey(PrivateKey(d).public_key, k.derivation(), k.coin())
    i = S.int('i', 0, H - 1)
    I = hmac.digest(cc, K.to_bytes() + i.to_bytes(4, 'big'), 'sha512')
    L = int.from_bytes(I[:32], 'big')
    want = (v + L) % N
    good = L < N and want != 0
    ok, C = S.attempt(K.child, i)
    S.check(ok == good, 'derived iff valid')
    if ok:
        S.reach('valid')
        S.check(C == PrivateKey.from_int(want).public_key, 'public key')
        check_child(S, C, BIP32PublicKey, I[32:], i, dep, hash160(K.to_bytes(compressed=True))[:4], k.coin())
    else:
        S.reach('invalid')
        S.check(S.isa(C, ValueError), 'ValueError')


@prop('B01', bounds='every integer index outside the ranges between -2^40 and 2^40', assumes=[EC, HASH])
def bad_index(S):
    k = BIP32PrivateKey((5).to_bytes(32, 'big'), BIP32Derivation(bytes(32), 0, 0, bytes(4)), Bitcoin)
    i = S.int('i', -(1 << 40), 1 << 40)
    S.assume(i < 0 or i >= 1 << 32)
    S.raises('private', ValueError, k.child, i)
    S.raises('private', ValueError, k.child_safe, i)
    j = S.int('j', -(1 << 40), 1 << 40)
    S.assume(j < 0 or j >= H)
    S.raises('public', ValueError, k.public_key.child, j)
    S.raises('public', ValueError, k.public_key.child_safe, j)


@prop('B01', cases=[dict(n=n) for n in (0, 16, 32, 64)], bounds='every seed of 0, 16, 32, 64 bytes, all coins', assumes=[EC, HASH])
def from_seed(S, n):
    s = S.bytes('s', n)
    coin = S.choice('coin', COINS)
    I = hmac.digest(b'Bitcoin seed', s, 'sha512')
    v = int.from_bytes(I[:32], 'big')
    ok, k = S.attempt(BIP32PrivateKey.from_seed, s, coin)
    S.check(ok == (v != 0 and v < N), 'valid master secret')
    if ok:
        S.check_eq(k.to_bytes(), I[:32], 'secret')
        S.check(ext(k) == (I[32:], 0, 0, bytes(4)), 'metadata')
        S.check(k.coin() is coin, 'coin')
    else:
        S.check(S.isa(k, ValueError), 'ValueError')


# ------------------------------------------------------------------------------------------------ B02
def layout(ver, D, tail):
    return bytes.fromhex(ver) + bytes([D[2]]) + D[3] + D[1].to_bytes(4, 'big') + D[0] + tail


@prop('B02', cases=[dict(i=i) for i in range(4)], bounds='every key, chain code, depth, fingerprint and index, all coins', assumes=[EC, HASH], hash_order='bytes')
def roundtrip(S, i):
    coin = COINS[i]
    k, d, v, cc, dep = master(S, 255, coin)
    D = ext(k)
    net = 0 if i == 0 else 1
    t = k.to_extended_key_string()
    S.check_eq(t, base58_encode_check(layout(XPRV[net], D, b'\0' + d)), 'private layout')
    r = S.ok('private', bip32_key_from_string, t)
    S.check(type(r) is BIP32PrivateKey and r == k, 'private key')
    S.check_eq(r.to_bytes(), d, 'secret')
    S.check(r.derivation() == k.derivation(), 'metadata')
    S.check(r.coin().xprv_verbytes == coin.xprv_verbytes, 'network')
    S.check_eq(r.to_extended_key_string(), t, 'text again')
    K = k.public_key
    T = K.to_extended_key_string()
    S.check_eq(T, base58_encode_check(layout(XPUB[net], D, K.to_bytes())), 'public layout')
    S.check_eq(str(K), T, 'str')
    R = S.ok('public', bip32_key_from_string, T)
    S.check(type(R) is BIP32PublicKey and R == K, 'public key')
    S.check(R.derivation() == K.derivation(), 'metadata')
    S.check(R.coin().xpub_verbytes == coin.xpub_verbytes, 'network')
    S.check_eq(R.to_extended_key_string(), T, 'text again')


@prop('B02', bounds='every key at depth 255 and its children and grandchildren', assumes=[EC, HASH], reach=('child',))
def too_deep(S):
    k, d, v, cc, dep = master(S, 255)
    S.assume(dep == 255)
    D = k.derivation()
    S.ok('deepest', k.to_extended_key_string)
    i = S.int('i', 0, H - 1)
    ok, c = S.attempt(k.child, i)
    if ok:
        S.reach('child')
        for x in (c, c.public_key):
            ok, t = S.attempt(x.to_extended_key_string)
            S.check(not ok, 'a depth that one byte does not hold is not written')


@prop('B02', cases=[dict(ver=v) for v in ('0488b21e', '0488ade4', '043587cf', '04358394', None)], bounds='every 78-byte payload with the four version codes; valid key payloads under every other version code', assumes=[EC, HASH], hash_order='bytes', reach=())
def payload(S, ver):
    codes = [bytes.fromhex(v) for v in list(XPUB.values()) + list(XPRV.values())]
    if ver is None:
        a = S.bytes('b', 4)
        for c in codes:
            S.assume(a != c)
        tail = bytes(32) + b'\1' if S.flag('private') else bytes.fromhex('79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798')
        b = a + bytes(41) + (b'\0' if len(tail) == 33 else b'\2') + tail[-32:]
    else:
        b = bytes.fromhex(ver) + S.bytes('b', 41)
        if ver in XPRV.values():
            b += bytes([S.int('prefix', 1, 255)]) if S.flag('prefixed') else b'\0'
            b += S.bytes('key', 32)
        else:
            b += S.bytes('key', 33)
    t = base58_encode_check(b)
    ok, k = S.attempt(bip32_key_from_string, t)
    if ver is None:
        S.check(not ok, 'unknown version')
    elif ver in XPRV.values():
        v = int.from_bytes(b[46:], 'big')
        S.check(ok == (b[45] == 0 and v != 0 and v < N), 'private key')
        if ok:
            S.check(type(k) is BIP32PrivateKey, 'kind')
            S.check_eq(k.to_bytes(), b[46:], 'secret')
    else:
        ok2, p = S.attempt(PublicKey.from_bytes, b[45:])
        S.check(ok == ok2, 'public key')
        if ok:
            S.check(type(k) is BIP32PublicKey and k == p, 'kind and value')
    if ok:
        S.check(k.derivation() == BIP32Derivation(b[13:45], int.from_bytes(b[9:13], 'big'), b[4], b[5:9]), 'fields')
        S.check_eq(k.to_extended_key_string(), t, 'text again')
    else:
        S.check(S.isa(k, ValueError), 'ValueError')


@prop('B02', cases=[dict(n=n, ver=v) for n in (0, 1, 4, 45, 46, 77, 79, 110) for v in ('0488b21e', '04358394')], bounds='payloads of 0, 1, 4, 45, 46, 77, 79, 110 bytes', assumes=[EC, HASH], hash_order='bytes')
def payload_size(S, n, ver):
    b = (bytes.fromhex(ver) + S.bytes('b', n))[:n]
    S.raises('size', ValueError, bip32_key_from_string, base58_encode_check(b))


# ------------------------------------------------------------------------------------------------ B03
def path_of(L):
    t = 'm'
    for n in L:
        t += '/' + (str(n) if n < H else str(n - H) + "'")
    return t


@prop('B03', cases=[dict(k=0, m=1), dict(k=1, m=1 << 32), dict(k=2, m=1 << 32), dict(k=3, m=12)], thorough=[dict(k=3, m=3000), dict(k=4, m=11)],
      bounds='every list of 0, 1, 2 indices below 2^32; of 3 below 12 or within 12 of 2^31 (thorough: 3 below 3000, 4 below 11)')
def indices(S, k, m):
    L = []
    for i in range(k):
        if m == 1 << 32:
            L.append(S.int('i%d' % i, 0, m - 1))
        else:
            L.append(S.int('i%d' % i, 0, m - 1) + (H if S.flag('h%d' % i) else 0))
    t = S.ok('builds', bip32_build_chain_string, L)
    S.check_eq(t, path_of(L), 'text')
    S.check(S.ok('parses', bip32_decompose_chain_string, t) == L, 'back')
    S.check(bip32_is_valid_chain_string(t) is True, 'valid')
    r = S.ok('validates', bip32_validate_derivation, tuple(L))
    S.check(type(r) is list and r == L, 'validated')


@prop('B03', cases=[dict(k=k) for k in (0, 1, 2)], bounds='every list of 0..2 indices (one of them arbitrary), the returned lists changed between calls')
def lists_are_own(S, k):
    L = [S.int('i', 0, (1 << 32) - 1), 5][:k]
    t = path_of(L)
    r = S.ok('parses', bip32_decompose_chain_string, t)
    S.check(type(r) is list, 'a list')
    r.append(7)
    r[0] = 9
    r2 = S.ok('parses again', bip32_decompose_chain_string, t)
    S.check(r2 == L, 'not affected by what the caller did with the first list')
    for text, want in (("m/1/2'", [1, H + 2]), ('m', []), ('m/0', [0])):
        a = S.ok('parses', bip32_decompose_chain_string, text)
        S.check(a == want, 'as written')
        a.append(5)
        S.check(bip32_decompose_chain_string(text) == want, 'not affected by what the caller did with the first list')
    v = bip32_validate_derivation(L)
    v2 = bip32_validate_derivation(v)
    v2.append(1)
    S.check(v == L and len(L) == k, 'arguments are left alone')


@prop('B03', bounds='indices from -2^40 to 2^40 at each place of a list of 2; other types', reach=('good', 'bad'))
def index_range(S):
    i = S.int('i', -(1 << 40), 1 << 40)
    good = i >= 0 and i < 1 << 32
    L = [7, i] if S.flag('last') else [i, 7]
    for f in (bip32_validate_derivation, bip32_build_chain_string):
        ok, r = S.attempt(f, L)
        S.check(ok == good, 'range')
        if not ok:
            S.check(S.isa(r, ValueError), 'ValueError')
    S.reach('good' if good else 'bad')
    for x in ('1', 1.0, None, b'1', [1]):
        for f in (bip32_validate_derivation, bip32_build_chain_string):
            S.raises('type', TypeError, f, [3, x])
            S.raises('type', TypeError, f, [x, i])
    for x in (None, 5, b'm', ['m'], bytearray(b'm/1')):
        S.raises('type', TypeError, bip32_decompose_chain_string, x)


def path_spec(t):
    """list of indices or None"""
    if t[:1] != 'm':
        return None
    out = []
    i, n = 1, len(t)
    while i < n:
        if t[i] != '/':
            return None
        i += 1
        v, digits = 0, 0
        while i < n and t[i] in '0123456789':
            v = v * 10 + '0123456789'.index(t[i])
            digits += 1
            i += 1
        if digits == 0 or v >= H:
            return None
        if i < n and t[i] == "'":
            v += H
            i += 1
        out.append(v)
    return out


def check_path(S, t):
    want = path_spec(t)
    ok, r = S.attempt(bip32_decompose_chain_string, t)
    S.check(ok == (want is not None), 'accepted iff well formed')
    if ok:
        S.check(r == want, 'indices')
    else:
        S.check(S.isa(r, ValueError), 'ValueError')
    S.check(bip32_is_valid_chain_string(t) is ok, 'validity agrees')


@prop('B03', cases=[dict(n=n) for n in (0, 1, 2, 3, 4)], thorough=[dict(n=n) for n in (5, 6)], bounds="every text of 0..4 (thorough: 6) characters over m / 0 1 9 ' h - + _ space newline ARABIC-INDIC DIGIT THREE M", reach=())
def text(S, n):
    check_path(S, S.str('t', n, "m/019'h-+_ \n٣M"))


@prop('B03', cases=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=4)], bounds="m/ followed by every text of 1..3 (thorough: 4) characters over / 0 7 ' - + _ space newline and a non-ASCII digit", reach=())
def tail(S, n):
    check_path(S, 'm/' + S.str('t', n, "/07'-+_ \n٣"))


@prop('B03', bounds='well-formed paths with one character replaced by or followed by any character up to U+00FF or a non-ASCII digit', reach=())
def altered(S):
    base = S.choice('base', ("m/12'/3", "m/2147483647'", 'm/2147483648', 'm'))
    c = S.str('c', 1, [chr(i) for i in range(256)] + list('٣３²\u2028'))
    at = S.choice('at', range(len(base) + 1))
    check_path(S, base[:at] + c + (base[at + 1:] if S.flag('replace') else base[at:]))


@prop('B03', cases=[dict(n=n) for n in (9, 10, 11, 12)], thorough=[dict(n=n) for n in (1, 5, 20)], bounds='one index of 9..12 (thorough: 1, 5, 20) decimal digits, hardened or not', reach=())
def digits(S, n):
    check_path(S, 'm/' + S.str('d', n, '0123456789') + ("'" if S.flag('h') else ''))


# ------------------------------------------------------------------------------------------------ B04
@prop('B04', cases=[dict(public=p, hard=h, top=t) for p in (False, True) for h in (False, True) for t in (False, True) if not (p and h)], thorough=[],
      bounds='every parent; starting indices anywhere in the range with at most 2 invalid children, or within 3 of its end with any number of invalid ones', assumes=[EC, HASH], reach=())
def safe(S, public, hard, top):
    k, d, v, cc, dep = master(S, 254, Bitcoin)
    lo = H if hard else 0
    hi = lo + H - 1
    i = hi - S.choice('from', (2, 1, 0)) if top else S.int('i', lo, hi - 2)
    pub = k.public_key.to_bytes()
    ser = b'\0' + d if hard else pub
    want = None
    j = i
    tries = 0
    while j <= hi:
        I = hmac.digest(cc, ser + j.to_bytes(4, 'big'), 'sha512')
        L = int.from_bytes(I[:32], 'big')
        s = (v + L) % N
        if L < N and s != 0:
            want = s
            break
        j += 1
        tries += 1
        if not top:
            S.assume(tries <= 2)
    ok, c = S.attempt((k.public_key if public else k).child_safe, i)
    S.check(ok == (want is not None), 'found iff any is left')
    if ok:
        S.reach('found')
        S.check(c.derivation().n == j, 'first valid index')
        S.check_eq(c.derivation().chain_code, I[32:], 'chain code')
        S.check(c.derivation().depth == dep + 1, 'depth')
        P = c if public else c.public_key
        S.check(P == PrivateKey.from_int(want).public_key, 'that child')
        S.check(type(c) is (BIP32PublicKey if public else BIP32PrivateKey), 'kind')
    else:
        S.check(S.isa(c, ValueError), 'ValueError')


@prop('B04', cases=[dict(public=p, below=b) for p in (False, True) for b in (False, True)], bounds='every starting index from -2^40 below the range and up to 2^40 above it', assumes=[EC, HASH], reach=())
def safe_outside(S, public, below):
    k, d, v, cc, dep = master(S, 254, Bitcoin)
    i = S.int('i', -1 << 40, -1) if below else S.int('i', H if public else 1 << 32, 1 << 40)
    S.raises('outside the range', ValueError, (k.public_key if public else k).child_safe, i)
