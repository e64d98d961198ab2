"""M01-M04: mnemonics."""
import hashlib
import hmac
import unicodedata
from math import ceil, log

from bitcoinx import sha256
from bitcoinx.mnemonic import BIP39Mnemonic, ElectrumMnemonic, Wordlists
from engine.reg import prop

HASH = 'hash and HMAC functions are arbitrary functions (equal inputs give equal outputs)'
WL = Wordlists.bip39_wordlist('english.txt')
OLD = Wordlists.original_electrum_wordlist()
CUSTOM = ['w%d' % i for i in range(2048)]


def words_of(S, n, wl, name='w'):
    idx = [S.int('%s%d' % (name, i), 0, len(wl) - 1) for i in range(n)]
    return idx, ' '.join([wl[i] for i in idx])


# ------------------------------------------------------------------------------------------------ M01
@prop('M01', cases=[dict(bits=b) for b in (128, 160, 192, 224, 256)], bounds='every entropy of the five sizes', assumes=[HASH], hash_order='big')
def generate(S, bits):
    wl = CUSTOM if S.flag('custom') else WL
    if bits == 128 and S.flag('default'):
        m = S.ok('generates', BIP39Mnemonic.generate, wl)
    else:
        m = S.ok('generates', BIP39Mnemonic.generate, wl, bits)
    drawn = S.drawn()
    S.check(len(drawn) == 1 and len(drawn[0]) == bits // 8, 'draws the entropy once')
    ent = drawn[0]
    words = m.split(' ')
    cs = bits // 32
    S.check(len(words) == (bits + cs) // 11, 'word count')
    v = 0
    for w in words:
        v = v * 2048 + wl.index(w)
    h = int.from_bytes(sha256(ent), 'big') >> (256 - cs)
    S.check_eq(v >> cs, int.from_bytes(ent, 'big'), 'words spell the entropy')
    S.check_eq(v % (1 << cs), h, 'then the checksum')
    S.check(S.ok('valid', BIP39Mnemonic.is_valid, m, wl) is True, 'valid')


@prop('M01', cases=[dict(n=n) for n in (12, 15, 18, 21, 24)], bounds='every list of 12, 15, 18, 21, 24 words', assumes=[HASH], hash_order='big', reach=('valid', 'invalid'))
def valid(S, n):
    wl = CUSTOM if S.flag('custom') else WL
    idx, m = words_of(S, n, wl)
    v = 0
    for i in idx:
        v = v * 2048 + i
    cs = n // 3
    ent = (v >> cs).to_bytes(cs * 4, 'big')
    want = v % (1 << cs) == int.from_bytes(sha256(ent), 'big') >> (256 - cs)
    r = S.ok('decides', BIP39Mnemonic.is_valid, m, wl)
    S.check(r == want, 'valid iff the checksum matches')
    S.reach('valid' if r else 'invalid')


@prop('M01', cases=[dict(n=n) for n in list(range(12)) + [13, 14, 16, 17, 19, 20, 22, 23, 25, 26, 27, 30]], bounds='every other count of words up to 27, and 30', assumes=[HASH])
def counts(S, n):
    idx, m = words_of(S, n, WL)
    S.check(S.ok('decides', BIP39Mnemonic.is_valid, m, WL) is False, 'wrong number of words')


@prop('M01', cases=[dict(n=n) for n in (12, 24)], bounds='12 and 24 words of which any subset of three places holds unknown words', assumes=[HASH], reach=('bad',))
def bad_words(S, n):
    words = [WL[i * 7] for i in range(n)]
    bad = []
    for p in (0, 5, n - 1):
        if S.flag('bad%d' % p):
            words[p] = 'qqq%d' % p
            bad.append('qqq%d' % p)
    m = ' '.join(words)
    ok, r = S.attempt(BIP39Mnemonic.is_valid, m, WL)
    S.check(ok == (not bad), 'unknown words raise')
    if bad:
        S.reach('bad')
        S.check(S.isa(r, BIP39Mnemonic.BadWords) and r.args[0] == bad, 'with the words')


@prop('M01', cases=[dict(n=n) for n in (0, 1, 2047, 2049, 4096)], bounds='word lists of 0, 1, 2047, 2049, 4096 words')
def wordlist_size(S, n):
    wl = ['w%d' % i for i in range(n)]
    S.raises('generate', ValueError, BIP39Mnemonic.generate, wl)
    S.raises('valid', ValueError, BIP39Mnemonic.is_valid, ' '.join(['w0'] * 12), wl)


@prop('M01', bounds='every number of bits from -10 to 600', reach=('good', 'bad'))
def bit_sizes(S):
    b = S.int('bits', -10, 600)
    good = b == 128 or b == 160 or b == 192 or b == 224 or b == 256
    if good:
        S.reach('good')
        S.ok('accepted', BIP39Mnemonic.generate, WL, b)
    else:
        S.reach('bad')
        S.raises('rejected', ValueError, BIP39Mnemonic.generate, WL, b)


@prop('M01', cases=[dict(order=o) for o in ('AB', 'BA', 'AC', 'AD', 'DA')], bounds='every 12 words, three lists of the same words in other orders and one with other words, same first and last words, used one after another; a list changed in place between uses', assumes=[HASH], hash_order='big', reach=('valid', 'invalid'))
def several_lists(S, order):
    A = list(WL)
    lists = dict(A=A, B=A[:1] + A[2:-1] + A[1:2] + A[-1:], C=A[:5] + A[6:4:-1] + A[7:], D=A[:700] + ['qqq'] + A[701:])
    first = lists[order[0]]
    known = ' '.join([first[7]] * 11 + [first[700]])
    S.ok('first list', BIP39Mnemonic.is_valid, known, first)
    if order == 'AC':
        A[5], A[6] = A[6], A[5]
    wl = lists[order[1]]
    idx = [S.int('w%d' % i, 0, 2047) for i in range(12)]
    m = ' '.join([wl[i] for i in idx])
    v = 0
    for i in idx:
        v = v * 2048 + i
    want = v % 16 == int.from_bytes(sha256((v >> 4).to_bytes(16, 'big')), 'big') >> 252
    r = S.ok('decides', BIP39Mnemonic.is_valid, m, wl)
    S.check(r == want, 'valid iff the checksum matches in the list given')
    S.reach('valid' if r else 'invalid')
    if order in ('AD', 'DA'):
        ok, e = S.attempt(BIP39Mnemonic.is_valid, known, wl)
        S.check(not ok and S.isa(e, BIP39Mnemonic.BadWords) and e.args[0] == [first[700]], 'not a word of the list given')


# ------------------------------------------------------------------------------------------------ M02
N = 1626


def old_words(seed):
    out = []
    for i in range(0, len(seed), 4):
        x = int.from_bytes(seed[i:i + 4], 'big')
        a = x % N
        b = (x // N + a) % N
        c = (x // N // N + b) % N
        out += [a, b, c]
    return out


@prop('M02', cases=[dict(n=n) for n in (16, 32)], bounds='every seed of 16 and 32 bytes')
def old_roundtrip(S, n):
    seed = S.bytes('s', n)
    m = S.ok('words', ElectrumMnemonic.hex_seed_to_old, seed.hex())
    words = m.split(' ')
    S.check(len(words) == n * 3 // 4, 'number of words')
    want = old_words(seed)
    for w, i in zip(words, want):
        S.check(OLD.index(w) == i, 'encoding')
    S.check_eq(S.ok('back', ElectrumMnemonic.old_to_hex_seed, m), seed.hex(), 'same seed')
    S.check(S.ok('valid', ElectrumMnemonic.is_valid_old, m) is True, 'valid')
    S.check(S.ok('hex', ElectrumMnemonic.is_valid_old, seed.hex()) is True, 'the hex is valid too')


@prop('M02', cases=[dict(n=n, g=g) for n in (12, 24) for g in range(n // 3)], bounds='every list of 12 and 24 words differing from a valid one in any one group of three words', reach=('valid', 'overflow'))
def old_indices(S, n, g):
    idx = []
    for k in range(n // 3):
        idx += [S.int('w%d' % j, 0, N - 1) for j in range(3)] if k == g else [(k * 37 + j) % N for j in range(3)]
    m = ' '.join([OLD[i] for i in idx])
    a, b, c = idx[3 * g:3 * g + 3]
    v = a + N * ((b - a) % N) + N * N * ((c - b) % N)
    good = v < 1 << 32
    ok, h = S.attempt(ElectrumMnemonic.old_to_hex_seed, m)
    S.check(ok == good, 'accepted iff the group fits in 32 bits')
    S.check(S.ok('validity', ElectrumMnemonic.is_valid_old, m) is ok, 'validity agrees')
    if ok:
        S.reach('valid')
        S.check_eq(h[8 * g:8 * g + 8], v.to_bytes(4, 'big').hex(), 'value')
        S.check(len(h) == n // 3 * 8, 'length')
        S.check_eq(S.ok('back', ElectrumMnemonic.hex_seed_to_old, h), m, 'words again')
    else:
        S.reach('overflow')
        S.check(S.isa(h, ValueError), 'ValueError')


@prop('M02', cases=[dict(n=n) for n in list(range(12)) + [13, 15, 18, 21, 23, 25, 36]], bounds='every list of 0..11, 13, 15, 18, 21, 23, 25, 36 known words')
def old_counts(S, n):
    idx, m = words_of(S, n, OLD)
    if n:
        S.assume(idx[0] != OLD.index('fade') and idx[0] != OLD.index('feed'))     # else the text may be hex
    S.raises('count', ValueError, ElectrumMnemonic.old_to_hex_seed, m)
    if n:
        S.check(S.ok('validity', ElectrumMnemonic.is_valid_old, m) is False, 'not valid')


@prop('M02', cases=[dict(n=n, p=p) for n in (12, 24) for p in (0, 5, n - 1)], bounds='12 and 24 words of which one is any English BIP39 word', reach=())
def old_unknown(S, n, p):
    words = [OLD[i] for i in range(n)]
    i = S.int('i', 0, 2047)
    words[p] = WL[i]
    m = ' '.join(words)
    known = WL[i] in OLD
    ok, h = S.attempt(ElectrumMnemonic.old_to_hex_seed, m)
    if not known:
        S.reach('unknown')
        S.check(not ok and S.isa(h, ValueError), 'unknown word')
        S.check(S.ok('validity', ElectrumMnemonic.is_valid_old, m) is False, 'not valid')
    else:
        S.check(S.ok('validity', ElectrumMnemonic.is_valid_old, m) is ok, 'validity agrees')


@prop('M02', cases=[dict(n=n) for n in (0, 1, 2, 15, 16, 17, 31, 32, 33, 48)], bounds='hex text of 0, 1, 2, 15..17, 31..33, 48 bytes in either case; one character of it arbitrary up to U+00FF', reach=())
def old_hex(S, n):
    b = S.bytes('b', n)
    t = b.hex()
    if S.flag('upper'):
        t = t.upper()
    S.check(S.ok('validity', ElectrumMnemonic.is_valid_old, t) is (n in (16, 32)), 'hex of 16 or 32 bytes')
    if n not in (16, 32):
        S.raises('size', ValueError, ElectrumMnemonic.hex_seed_to_old, t)
    elif S.flag('odd'):
        x = bytes(n).hex()
        at = S.choice('at', (0, 7, 2 * n - 1))
        c = S.str('c', 1, [chr(i) for i in range(256)])
        x = x[:at] + c + x[at + 1:]
        S.check(S.ok('validity', ElectrumMnemonic.is_valid_old, x) is (c in '0123456789abcdefABCDEF'), 'only hex')


@prop('M02', cases=[dict(n=n) for n in (12, 24)], bounds='every seed of the two sizes')
def old_generated(S, n):
    t = S.ok('generates', lambda: ElectrumMnemonic.generate_old_seed(word_count=n))
    S.check(len(S.drawn()) == 1, 'one draw')
    S.check_eq(t, S.drawn()[0].hex(), 'hex of the draw')
    S.check(len(t) == n * 8 // 3, 'size')
    S.check(len(ElectrumMnemonic.hex_seed_to_old(t).split()) == n, 'words')
    for k in (0, 11, 13, 15, 25):
        S.raises('count', ValueError, lambda: ElectrumMnemonic.generate_old_seed(word_count=k))


# ------------------------------------------------------------------------------------------------ M03
def prefix_ok(m, prefix):
    return hmac.digest(b'Seed version', m.encode(), 'sha512').hex().startswith(prefix)


FOUR = [w for w in OLD if len(w) == 4 and w not in ('fade', 'feed')]
PLAIN = ['z' + ''.join('ghijklmnopqrstuv'[i >> s & 15] for s in (8, 4, 0)) for i in range(4096)]          # no old word among them
assert not set(PLAIN) & set(OLD)
MIXED = (FOUR + PLAIN)[:2048]                      # starts with old words
LISTS = {'plain': PLAIN[:2048], 'long': PLAIN, 'mixed': MIXED, 'english': WL}


FILL = sum(5 * 2048 ** i for i in range(12)).to_bytes(19, 'big')


def drawfn(S, i, n):
    """random bytes of which the ends are arbitrary"""
    return b'\x5a\xc3' + S.bytes('top%d' % i, 1, word='big') + FILL[3:-1] + S.bytes('low%d' % i, 1, word='big')


def new_check(S, bits, prefix, wl, skip=None):
    size = len(wl)
    kw = {} if skip is None else dict(skip_old=skip)
    m = S.ok('generates', lambda: ElectrumMnemonic.generate_new(wl, prefix=prefix, bits=bits, **kw))
    words = m.split(' ')
    k = 1
    while size ** k < 1 << bits:
        k += 1
    S.check(len(words) == k, 'number of words')
    S.check(prefix_ok(m, prefix), 'prefix')
    S.check(S.ok('valid', ElectrumMnemonic.is_valid_new, m, prefix) is True, 'valid')
    v = 0
    for w in reversed(words):
        v = v * size + wl.index(w)
    d = v - int.from_bytes(S.drawn()[-1], 'big') % size ** k
    S.check(d >= -4 and d <= 4, 'draw, stepped once per retry')
    if d == 0:
        S.reach('drawn')
    else:
        S.reach('stepped' if d > 0 else 'down')
    return m


@prop('M03', cases=[dict(bits=b, prefix=p, wl=z) for b, p, z in ((132, '01', 'plain'), (132, '100', 'plain'), (133, '01', 'plain'), (264, '01', 'plain'), (140, '01', 'long'))],
      thorough=[dict(bits=b, prefix=p, wl=z) for b, p, z in ((143, '2', 'plain'), (200, '01', 'long'), (400, '', 'plain'))],
      bounds='every first draw; 132, 133, 140 and 264 bits (thorough: 143, 200, 400), lists of 2048 and 4096 words of four letters none of which is an old Electrum word; at most 2 retries', assumes=[HASH], reach=('drawn', 'stepped', 'down'), draws=1, hmacs=5)
def new(S, bits, prefix, wl):
    new_check(S, bits, prefix, LISTS[wl])


@prop('M03', cases=[dict(skip=s) for s in (None, False)], thorough=[dict(skip=True)], bounds='draws whose bits 128..131 and 0..7 are arbitrary and others fixed, from a list starting with old words; at most 1 retry', assumes=[HASH], reach=('both',), draws=1, hmacs=4, drawfn=drawfn)
def skipping(S, skip):
    m = new_check(S, 132, '01', MIXED, skip)
    old = ElectrumMnemonic.is_valid_old(m)
    if skip is not False:
        S.check(old is False, 'not also an old seed')
        S.reach('both')
    elif old:
        S.reach('both')


@prop('M03', cases=[dict(size=z) for z in (0, 1, 2047, 2048)], bounds='every number of bits from -5 to 131, lists of 0, 1, 2047 and 2048 words')
def refused(S, size):
    b = S.int('bits', -5, 131)
    S.raises('bits', ValueError, lambda: ElectrumMnemonic.generate_new(PLAIN[:size], bits=b))
    if size < 2048:
        S.raises('words', ValueError, lambda: ElectrumMnemonic.generate_new(PLAIN[:size], bits=132))


@prop('M03', cases=[dict(prefix=p) for p in ('01', '100', '101', '', '0')], bounds='every text of six arbitrary ASCII characters, five prefixes', assumes=[HASH])
def is_valid_new(S, prefix):
    t = S.str('t', 6, [chr(i) for i in range(128)])
    S.check(S.ok('validity', ElectrumMnemonic.is_valid_new, t, prefix) == prefix_ok(t.lower(), prefix), 'HMAC of the normalized text starts with the prefix')


# ------------------------------------------------------------------------------------------------ M04
TEXT = [chr(i) for i in range(128)] + ['\u3000']
SPACES = '\t\n\v\f\r\x1c\x1d\x1e\x1f \u3000'


def squeezed(t):
    """lower case, each run of white space one space, none at the ends"""
    out, gap = '', False
    for c in t:
        if c in SPACES:
            gap = out != ''
        else:
            if gap:
                out += ' '
            gap = False
            out += c.lower()
    return out


@prop('M04', cases=[dict(n=n) for n in range(6)], thorough=[dict(n=6), dict(n=7)], bounds='every text of up to 5 (thorough: 7) ASCII characters and ideographic spaces')
def normalized(S, n):
    t = S.str('t', n, TEXT)
    want = squeezed(t)
    for f in (BIP39Mnemonic.normalize, ElectrumMnemonic.normalize_new, ElectrumMnemonic.normalize_old):
        r = S.ok('normalizes', f, t)
        S.check_eq(r, want, 'normalized text')
        S.check_eq(S.ok('again', f, r), want, 'idempotent')


@prop('M04', cases=[dict(n=n, k=k) for n, k in ((0, 0), (0, 3), (3, 0), (3, 3), (4, 1))], thorough=[dict(n=5, k=2), dict(n=2, k=5)], bounds='mnemonics and passphrases of up to 4 and 3 characters (thorough: 5)', assumes=['PBKDF2 is an arbitrary function (equal inputs give equal outputs)'])
def seed(S, n, k):
    t, p = S.str('t', n, TEXT), S.str('p', k, TEXT)
    q = ''
    for c in p:
        q += ' ' if c == '\u3000' else c
    want = hashlib.pbkdf2_hmac('sha512', squeezed(t).encode(), b'mnemonic' + q.encode(), 2048)
    r = S.ok('seed', BIP39Mnemonic.to_seed, t, p)
    S.check(len(r) == 64, '512 bits')
    S.check_eq(r, want, 'PBKDF2 of the normalized mnemonic, salted with the passphrase as given')


EXOTIC = 'a Z\xe9\xc9\u0130\u30ac\u304c\ufb01\u212b\xa0\u3000\u2003\uff21\xdf\u1e9e\u2170\xb2\u0439\u0419\u1ec7\U0001d400'
NFKD = {c: unicodedata.normalize('NFKD', c) for c in EXOTIC}
GAPS = ' \xa0\u3000\u2003'


def squeezed_by(t, table):
    out, gap = '', False
    for c in t:
        if c in GAPS:
            gap = out != ''
        else:
            if gap:
                out += ' '
            gap = False
            out += table[c]
    return out


LOWER = {c: c.lower() for c in EXOTIC}
LOWER_NFKD = {c: NFKD[c].lower() for c in EXOTIC}


@prop('M04', cases=[dict(n=1), dict(n=2)], thorough=[dict(n=3)], bounds='every text of 1 and 2 (thorough: 3) of 22 letters, digits and spaces that have compatibility or canonical decompositions, or other lower case')
def other_letters(S, n):
    t = S.str('t', n, list(EXOTIC))
    want = squeezed_by(t, LOWER_NFKD)
    r = S.ok('normalizes', BIP39Mnemonic.normalize, t)
    S.check_eq(r, want, 'decomposed, lower case, spaces collapsed')
    S.check_eq(S.ok('again', BIP39Mnemonic.normalize, r), want, 'idempotent')
    want = squeezed_by(t, LOWER)
    for f in (ElectrumMnemonic.normalize_new, ElectrumMnemonic.normalize_old):
        r = S.ok('normalizes', f, t)
        S.check_eq(r, want, 'lower case, spaces collapsed')
        S.check_eq(S.ok('again', f, r), want, 'idempotent')


@prop('M04', cases=[dict(n=1, k=0), dict(n=0, k=1), dict(n=1, k=1), dict(n=0, k=2)], thorough=[dict(n=2, k=0)], bounds='mnemonics and passphrases of up to 2 of these 22 characters', assumes=['PBKDF2 is an arbitrary function (equal inputs give equal outputs)'])
def seed_letters(S, n, k):
    t, p = S.str('t', n, list(EXOTIC)), S.str('p', k, list(EXOTIC))
    q = ''
    for c in p:
        q += NFKD[c]
    want = hashlib.pbkdf2_hmac('sha512', squeezed_by(t, LOWER_NFKD).encode(), b'mnemonic' + q.encode(), 2048)
    S.check_eq(S.ok('seed', BIP39Mnemonic.to_seed, t, p), want, 'PBKDF2 of the normalized mnemonic, salted with the decomposed passphrase')


SEPS = ('  ', '\n', '\u3000', ' \t ')


@prop('M04', cases=[dict(old=o) for o in (False, True)], bounds='every 12 words, four other separators, leading and trailing space, both cases', assumes=[HASH])
def spacing(S, old):
    idx, m = words_of(S, 12, OLD if old else WL)
    words = m.split(' ')
    where = S.choice('where', (0, 1, 2))
    if where == 1:
        words = [''] + words + ['']
    x = S.choice('sep', SEPS).join(words)
    if where == 2:
        x = x.upper()
    if old:
        a, b = S.attempt(ElectrumMnemonic.old_to_hex_seed, m)
        c, d = S.attempt(ElectrumMnemonic.old_to_hex_seed, x)
        S.check(a == c, 'same validity')
        if a:
            S.check_eq(b, d, 'same seed')
        S.check(ElectrumMnemonic.is_valid_old(x) == a, 'is_valid_old')
    else:
        S.check(S.ok('decides', BIP39Mnemonic.is_valid, x, WL) == BIP39Mnemonic.is_valid(m, WL), 'same validity')
        S.check_eq(BIP39Mnemonic.normalize(x), m, 'same mnemonic')
