"""C03-C07: work over ranges, median time past and required bits."""
from bitcoinx import (
    Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest, Coin, CheckPoint, Headers, MissingHeader, bits_to_target,
    target_to_bits, bits_to_work, double_sha256,
)
from engine.reg import prop

HASH = 'SHA-256 is an arbitrary function (equal inputs give equal outputs)'
EASY = 0x207fffff


def raw(time, bits, nonce=0, prev=bytes(32)):
    def le(v):
        return v.to_bytes(4, 'little')
    return b'\1\0\0\0' + prev + bytes(32) + le(time) + le(bits) + le(nonce)


def coin_like(rule, bits=EASY):
    return Coin('test', raw(1, bits).hex(), rule, 1, 2, 3, b'pub1', b'prv1', 'test')


EASIER = coin_like(Bitcoin.required_bits, 0x1e00ffff)
WIDE = coin_like(Bitcoin.required_bits, EASY)


def open_at(S, coin, height, cp, others=(), work=0):
    """headers with a checkpoint at the height and the given (height, raw header) below it"""
    hs = Headers.from_file(coin, S.file('headers'), CheckPoint(cp, height, work))
    for h, r in others:
        hs.set_one(h, r)
    return hs, hs.chains()[0]


def times(S, n, name='t'):
    return [S.int('%s%d' % (name, i), 0, 2 ** 32 - 1) for i in range(n)]


# ------------------------------------------------------------------------------------------------ C07
def median_ok(S, m, ts, label):
    k = len(ts) // 2
    S.check(sum([(t < m) + 0 for t in ts]) <= k, label + ': at most n//2 smaller')
    S.check(sum([(t <= m) + 0 for t in ts]) > k, label + ': more than n//2 not larger')
    c = False
    for t in ts:
        c = c | (t == m)
    S.check(c, label + ': one of the times')


@prop('C07', cases=[dict(height=h) for h in (0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 500000)], thorough=[dict(height=h) for h in (6, 7, 8, 2016, 478558)],
      bounds='every eleven timestamps; heights 0..5, 9..12, 500000 (thorough: also 6..8, 2016, 478558)', assumes=[HASH], hash_order='bytes')
def median(S, height):
    n = min(height + 1, 11)
    ts = times(S, n)
    more = [(h, raw(77, EASY, 1000 + h)) for h in range(max(0, height - 13), height - n + 1)]
    hs, chain = open_at(S, Bitcoin, height, raw(ts[0], EASY), [(height - i, raw(ts[i], EASY, i)) for i in range(1, n)] + more)
    median_ok(S, S.ok('median', hs.median_time_past, chain, height), ts, 'median')


@prop('C07', cases=[dict(gap=g, low=b) for g, b in ((1, 50), (2, 50), (100, 50), (128, 50), (256, 50), (1000, 50), (1024, 50), (2016, 50), (4096, 50), (65536, 50), (65536, 600000))], bounds='two heights up to 65,536 apart (1, 2, 100, 128, 256, 1000, 1024, 2016, 4096, 65,536) one after another and again, either first, in the same headers, and again from other headers; every timestamp', assumes=[HASH], hash_order='bytes')
def median_twice(S, gap, low):
    top = low + gap
    a, b = times(S, 3, 'a'), times(S, 3, 'b')
    at = {top - i: raw(a[i % 3] if i < 3 else 50 + i, EASY, i) for i in range(11)}
    for i in range(11):
        if top - gap - i not in at:
            at[top - gap - i] = raw(b[i % 3] if i < 3 else 90 + i, EASY, 100 + i)
    cp = at.pop(top)
    hs, chain = open_at(S, Bitcoin, top, cp, list(at.items()))
    at[top] = cp
    for h in (top, low, top) if S.flag('down') else (low, top, low):
        median_ok(S, S.ok('median', hs.median_time_past, chain, h), [int.from_bytes(at[h - i][68:72], 'little') for i in range(11)], 'median')
    hs2, chain2 = open_at(S, BitcoinTestnet, top, raw(7, EASY, 7), [(top - i, raw(1000 + i, EASY, i)) for i in range(1, 11)])
    S.check(S.ok('median', hs2.median_time_past, chain2, top) == 1005, 'median of other headers')


# ------------------------------------------------------------------------------------------------ C04
def good_bits(S, name, size, top=0x1d00ffff):
    """accepted compact bits of the given exponent, at most the maximum"""
    b = S.int(name, (size << 24) | 0x8000, min((size << 24) | 0x7fffff, top))
    return b


def retarget(bits, t_prev, t_prior, coin):
    span = min(max(t_prev - t_prior, 302400), 4838400)
    return target_to_bits(min(bits_to_target(bits) * span // 1209600, coin.max_target))


@prop('C04', cases=[dict(height=h, size=s) for h in (2016, 477792) for s in (3, 4, 0x18, 0x1c, 0x1d)] + [dict(height=h, size=0x1b) for h in (4032, 40320, 479808)],
      thorough=[dict(height=2016, size=s) for s in range(5, 0x1c) if s != 0x18],
      bounds='every timestamp of the parent and of the header 2016 back, every parent mantissa, at exponents 3, 4, 0x18, 0x1b..0x1d (thorough: 3..0x1d); heights 2016, 4032, 40320, 477792, 479808',
      assumes=[HASH], hash_order='bytes', reach=())
def fortnightly(S, height, size):
    bits, other = good_bits(S, 'bits', size), S.int('other', 0, 2 ** 32 - 1)
    t0, t1, t2, t3 = times(S, 4)
    new = S.int('new', 0, 2 ** 32 - 1)
    near = [(height - 2017, raw(t2, EASY, 2))] if height > 2016 else []
    coin = S.choice('coin', (Bitcoin, EASIER))
    hs, chain = open_at(S, coin, height - 1, raw(t1, bits), [(height - 2016, raw(t0, other, 1)), (height - 2015, raw(t3, EASY, 3))] + near)
    S.check_eq(S.ok('required', hs.required_bits, chain, height, new), retarget(bits, t1, t0, coin), 'retarget')


@prop('C04', bounds='off-retarget heights 1, 2, 2015, 2017, 4031, 477793, 478557: any parent bits; height 0', cases=[dict(height=h) for h in (0, 1, 2, 2015, 2017, 4031, 477793, 478557)],
      assumes=[HASH], hash_order='bytes')
def unchanged(S, height):
    t, new, bits = S.int('t', 0, 2 ** 32 - 1), S.int('new', 0, 2 ** 32 - 1), S.int('bits', 0, 2 ** 32 - 1)
    coin = S.choice('coin', (Bitcoin, EASIER))
    hs, chain = open_at(S, coin, height, raw(5, EASY, 1), [(height - 1, raw(t, bits))] if height else [])
    S.check_eq(S.ok('required', hs.required_bits, chain, height, new), bits if height else coin.genesis_bits, 'bits of the parent')


@prop('C04', cases=[dict(height=h, size=s) for h in (478558, 500001, 504031) for s in (3, 0x1c, 0x1d)],
      thorough=[dict(height=490000, size=s) for s in range(4, 0x1c)],
      bounds='every 17 timestamps and parent mantissa at exponents 3, 0x1c, 0x1d (thorough: 3..0x1d); heights 478558, 500001, 504031', assumes=[HASH], hash_order='bytes')
def emergency(S, height, size):
    bits = good_bits(S, 'bits', size)
    ts = times(S, 17)
    new = S.int('new', 0, 2 ** 32 - 1)
    coin = S.choice('coin', (Bitcoin, EASIER))
    hs, chain = open_at(S, coin, height - 1, raw(ts[0], bits), [(height - 1 - i, raw(ts[i], EASY, i)) for i in range(1, 17)])
    got = S.ok('required', hs.required_bits, chain, height, new)
    a, b = hs.median_time_past(chain, height - 1), hs.median_time_past(chain, height - 7)
    t = bits_to_target(bits)
    if a - b >= 43200:
        S.reach('eased')
        S.check_eq(got, target_to_bits(min(t + t // 4, coin.max_target)), 'eased')
    else:
        S.reach('kept')
        S.check_eq(got, bits, 'kept')


# ------------------------------------------------------------------------------------------------ C05
def swap_median(h3):
    """the median of three (time, height) as the reference code picks it"""
    a, b, c = h3
    if a[0] > c[0]:
        a, c = c, a
    if a[0] > b[0]:
        a, b = b, a
    if b[0] > c[0]:
        b, c = c, b
    return b


def daa(ts, height, work, coin):
    """ts: the times of the three before height - 144 and of the three before height, oldest first; work(a, b): work of a..b-1"""
    s = swap_median([(ts[i], height - 147 + i) for i in range(3)])
    e = swap_median([(ts[3 + i], height - 3 + i) for i in range(3)])
    span = min(max(e[0] - s[0], 43200), 172800)
    w = work(s[1] + 1, e[1] + 1) * 600 // span
    return target_to_bits(min(2 ** 256 // w - 1, coin.max_target))


def headers_147(ts, height, bits):
    """raw headers of the 147 heights below the given one; bits(h) gives their bits"""
    out = []
    for i in range(1, 148):
        h = height - i
        t = ts[6 - i] if i <= 3 else ts[147 - i] if i >= 145 else 1000 + i
        out.append((h, raw(t, bits(h), h)))
    return out


@prop('C05', cases=[dict(height=h, kind=k) for h in (504032, 600000) for k in ('low', 'cap', 'mix')] + [dict(height=600000, kind=k) for k in ('power', 'easy')], thorough=[dict(height=h, kind='mix') for h in (560448, 1000005)],
      bounds='every six timestamps; five fixed tables of bits (two of which give whole powers of two); heights 504032, 600000 (thorough: also 560448, 1000005)', assumes=[HASH], hash_order='bytes')
def per_block(S, height, kind):
    ts = times(S, 6)
    new = S.int('new', 0, 2 ** 32 - 1)

    def bits(h):
        if kind == 'cap':
            return 0x1d00ffff
        if kind == 'power':
            return 0x1e7fffff
        if kind == 'easy':
            return 0x1f7fffff
        return 0x18021fdb + h % 97 * 1000 if kind == 'low' else (0x18021fdb, 0x1c7ff000, 0x1a008000, 0x1b123456)[h % 4] + h % 89
    coin = WIDE if kind in ('power', 'easy') else S.choice('coin', (Bitcoin, EASIER))
    below = headers_147(ts, height, bits)
    hs, chain = open_at(S, coin, height - 1, below[0][1], below[1:])
    got = S.ok('required', hs.required_bits, chain, height, new)

    def work(a, b):
        return sum([2 ** 256 // (bits_to_target(bits(h)) + 1) for h in range(a, b)])
    S.check_eq(got, daa(ts, height, work, coin), 'required bits')


@prop('C04', cases=[dict(what=w) for w in ('prior', 'parent', 'other')], bounds='required bits at 4032 asked for, then again after the header 2016 back, or the parent, was replaced, or of other headers; every timestamp, mantissas at exponent 0x1c', assumes=[HASH], hash_order='bytes')
def retarget_again(S, what):
    t = times(S, 4)
    b = [good_bits(S, 'b%d' % i, 0x1c) for i in range(2)]
    coin = Bitcoin
    hs, chain = open_at(S, coin, 4033, raw(7, EASY, 3), [(4031, raw(t[1], b[0], 1)), (2016, raw(t[0], EASY, 2))])
    S.check_eq(S.ok('required', hs.required_bits, chain, 4032), retarget(b[0], t[1], t[0], coin), 'retarget')
    t0, t1, bits = t[0], t[1], b[0]
    if what == 'prior':
        t0 = t[2]
        hs.set_one(2016, raw(t0, EASY, 4))
    elif what == 'parent':
        t1, bits = t[3], b[1]
        hs.set_one(4031, raw(t1, bits, 5))
    else:
        t0, t1, bits = t[2], t[3], b[1]
        hs, chain = open_at(S, BitcoinTestnet, 4033, raw(7, EASY, 3), [(4031, raw(t1, bits, 1)), (2016, raw(t0, EASY, 2))])
    S.check_eq(S.ok('required again', hs.required_bits, chain, 4032, 5), retarget(bits, t1, t0, coin), 'retarget of the headers there now')


@prop('C04', bounds='the emergency rule asked for twice, each of the eleven timestamps (any value) before the parent or six back replaced in between', assumes=[HASH], hash_order='bytes', reach=('kept', 'eased'))
def emergency_again(S):
    height, bits = 480000, 0x18021fdb
    at = {height - i: 10 ** 9 - i * 600 for i in range(1, 18)}
    hs, chain = open_at(S, Bitcoin, height, raw(7, EASY, 3), [(h, raw(t, bits, h)) for h, t in at.items()])
    S.check_eq(S.ok('required', hs.required_bits, chain, height), bits, 'kept')
    t = S.int('t', 0, 2 ** 32 - 1)
    for i in range(1, 7):
        at[height - i] = t + i
        hs.set_one(height - i, raw(t + i, bits, 1000 + i)) if t < 2 ** 32 - 8 else hs.set_one(height - i, raw(t, bits, 1000 + i))
        if t >= 2 ** 32 - 8:
            at[height - i] = t
    a = hs.median_time_past(chain, height - 1)
    m, k = 0, sorted([at[height - i] for i in range(7, 18)])[5]
    median_ok(S, a, [at[height - i] for i in range(1, 12)], 'median')
    got = S.ok('required again', hs.required_bits, chain, height)
    if a - k >= 43200:
        S.reach('eased')
        x = bits_to_target(bits)
        S.check_eq(got, target_to_bits(x + x // 4), 'eased')
    else:
        S.reach('kept')
        S.check_eq(got, bits, 'kept')


@prop('C05', cases=[dict(what=w) for w in ('start', 'end', 'work')], bounds='the per-block rule asked for twice, timestamps at either end or the bits of one header between replaced in between', assumes=[HASH], hash_order='bytes')
def per_block_again(S, what):
    height = 600000
    ts = [10 ** 9 + i for i in range(3)] + [10 ** 9 + 86400 + i for i in range(3)]
    rows = {h: 0x18021fdb for h in range(height - 147, height)}
    hs, chain = open_at(S, Bitcoin, height, raw(7, EASY, 3), headers_147(ts, height, rows.get))

    def work(a, b):
        return sum([2 ** 256 // (bits_to_target(rows[h]) + 1) for h in range(a, b)])
    S.check_eq(S.ok('required', hs.required_bits, chain, height), daa(ts, height, work, Bitcoin), 'required bits')
    if what == 'work':
        rows[height - 70] = S.choice('bits', (0x18031fdb, 0x1c7ff000, 0x17008000, 0x1d00ffff))
    else:
        new = times(S, 3)
        ts = new + ts[3:] if what == 'start' else ts[:3] + new
    for h, r in headers_147(ts, height, rows.get):
        hs.set_one(h, r)
    S.check_eq(S.ok('required again', hs.required_bits, chain, height), daa(ts, height, work, Bitcoin), 'required bits of the headers there now')


# ------------------------------------------------------------------------------------------------ C06
FIXED = 0x1b0a1b2c


@prop('C06', cases=[dict(net=n, height=h) for n in ('test', 'scaling') for h in (2014, 2018)], bounds='the last bits that are not the minimum asked for at three heights in turn, the last five headers replaced in between and any of them special', assumes=[HASH], hash_order='bytes')
def special_again(S, net, height):
    coin = dict(test=BitcoinTestnet, scaling=BitcoinScalingTestnet)[net]
    easy = 0x1d00ffff
    near = [(height - 6 - i, raw(40 - i, FIXED + 7, i)) for i in range(2)]
    hs, chain = open_at(S, coin, height, raw(7, EASY, 3), near)

    def ask(k):
        bits = [S.choice('b%d_%d' % (k, i), (easy, FIXED + 10 * k + i)) for i in range(1, 5)] + [FIXED + 10 * k + 5]
        for i in range(1, 6):
            hs.set_one(height - i, raw(50 - i, bits[i - 1], 10 * k + i))
        for up in (1, 2, 0) if k == 1 else (0, 1):
            want = None
            for i in range(1 + up, 6):
                if want is None and ((height - i) % 2016 == 0 or bits[i - 1] != easy):
                    want = bits[i - 1]
            if (height - up) % 2016:
                S.check_eq(S.ok('required', hs.required_bits, chain, height - up, 60), want, 'last bits that are not the minimum')
    ask(1)
    ask(2)


@prop('C06', cases=[dict(height=h) for h in (0, 1, 478557, 477792, 478558, 479808, 504000, 504031, 504032, 504033, 506016)],
      bounds='mainnet at heights 0, 1, 477792, 478557, 478558, 479808, 504000, 504031..504033, 506016: every relevant timestamp and parent mantissa',
      assumes=[HASH], hash_order='bytes')
def mainnet(S, height):
    coin = Bitcoin
    n = min(147, height)
    daa_on = height >= 504032
    eda = 478558 <= height < 504032 and height % 2016 != 0
    ts = times(S, 6 if daa_on else 17 if eda else 2)
    new = None if S.flag('no_time') else S.int('new', 0, 2 ** 32 - 1)
    pb = S.int('bits', 0x1b008000, 0x1b7fffff) if not daa_on else FIXED
    below = []
    for i in range(1, n + 1):
        if daa_on:
            t = ts[6 - i] if i <= 3 else ts[147 - i] if i >= 145 else 1000 + i
        else:
            t = ts[i - 1] if i <= 17 and eda or i == 1 else 1000 + i
        below.append((height - i, raw(t, pb if i == 1 else FIXED + i, i)))
    if height % 2016 == 0 and height:
        below.append((height - 2016, raw(ts[1], FIXED, 2016)))
    hs, chain = open_at(S, coin, height, raw(7, EASY, 3), below)
    got = S.ok('required', hs.required_bits, chain, height, new) if S.flag('timed') else S.ok('required', coin.required_bits, hs, chain, height, new)
    if height == 0:
        want = coin.genesis_bits
    elif daa_on:
        want = daa(ts, height, lambda a, b: sum([2 ** 256 // (bits_to_target(FIXED + height - h if h != height - 1 else FIXED) + 1) for h in range(a, b)]), coin)
    elif height % 2016 == 0:
        want = retarget(pb, ts[0], ts[1], coin)
    elif eda and hs.median_time_past(chain, height - 1) - hs.median_time_past(chain, height - 7) >= 43200:
        t = bits_to_target(pb)
        want = target_to_bits(min(t + t // 4, coin.max_target))
    else:
        want = pb
    S.check_eq(got, want, 'the rule of the height')


@prop('C06', cases=[dict(net=n, height=h, d=d) for n, h, d in
                    [(n, 2016 * k, 3) for n in ('test', 'regtest') for k in (1, 589)] + [('scaling', 2016, 3)] +
                    [(n, 2016 * k + j, d) for n, k in (('test', 1), ('test', 500), ('scaling', 1), ('regtest', 2)) for j, d in ((1, 1), (2, 2), (4, 4))] +
                    [('test', 1188697, 4), ('test', 2, 2), ('test', 1, 1), ('scaling', 3, 3), ('scaling', 2200, 4), ('regtest', 1188697, 4), ('test', 2015, 5)]],
      thorough=[dict(net='test', height=1188697, d=9), dict(net='scaling', height=2199, d=7)],
      bounds='test networks up to activation: every new and parent timestamp, arbitrary bits of the last 1..5 headers (thorough: 9); heights 1..3, 2015..2020, '
             '2199, 2200, 1007 retarget boundaries and 1188697', assumes=[HASH], hash_order='bytes')
def testnet(S, net, height, d):
    coin = dict(test=BitcoinTestnet, scaling=BitcoinScalingTestnet, regtest=BitcoinRegtest)[net]
    t0, t1, new = S.int('t0', 0, 2 ** 32 - 1), S.int('t1', 0, 2 ** 32 - 1), S.int('new', 0, 2 ** 32 - 1)
    edge = height % 2016 == 0
    bits = [S.int('b%d' % i, 0x1c008000, 0x1c7fffff) if edge and i == 1 else S.int('b%d' % i, 0, 2 ** 32 - 1) for i in range(1, d + 1)]
    below = [(height - i, raw(t1 if i == 1 else 50 + i, bits[i - 1], i)) for i in range(1, d + 1)]
    if height > d:
        below.append((height - d - 1, raw(9, FIXED, 99)))
    if edge:
        below.append((height - 2016, raw(t0, FIXED, 2016)))
    hs, chain = open_at(S, coin, height, raw(7, EASY, 3), below)
    got = S.ok('required', hs.required_bits, chain, height, new)
    if edge:
        want = retarget(bits[0], t1, t0, coin)
    elif new - t1 > 1200:
        S.reach('slow')
        want = 0x1d00ffff
    else:
        want = FIXED
        for i in range(1, d + 1):
            if (height - i) % 2016 == 0 or bits[i - 1] != 0x1d00ffff:
                want = bits[i - 1]
                break
    S.check_eq(got, want, 'the rule of the network')


@prop('C06', cases=[dict(net=n, height=h) for n, h in (('test', 1188698), ('test', 1191456), ('regtest', 1188698), ('scaling', 2201), ('scaling', 4032), ('scaling', 1188698))],
      bounds='test networks after activation: every new timestamp and every six timestamps of the per-block rule; heights 1188698, 1191456, 2201, 4032', assumes=[HASH], hash_order='bytes')
def testnet_after(S, net, height):
    coin = dict(test=BitcoinTestnet, scaling=BitcoinScalingTestnet, regtest=BitcoinRegtest)[net]
    ts, new = times(S, 6), S.int('new', 0, 2 ** 32 - 1)
    below = headers_147(ts, height, lambda h: FIXED + h % 5)
    hs, chain = open_at(S, coin, height, raw(7, EASY, 3), below)
    got = S.ok('required', hs.required_bits, chain, height, new)
    if net != 'scaling' and new - ts[5] > 1200:
        S.reach('slow')
        want = 0x1d00ffff
    else:
        S.reach('normal')
        want = daa(ts, height, lambda a, b: sum([2 ** 256 // (bits_to_target(FIXED + h % 5) + 1) for h in range(a, b)]), coin)
    S.check_eq(got, want, 'the rule of the network')


@prop('C06', cases=[dict(net=n, height=h) for n, h in (('test', 20001), ('regtest', 4040), ('scaling', 2100), ('test', 1188698), ('regtest', 1188700), ('scaling', 2300))],
      bounds='the header after the tip asked for with any three timestamps in turn and the first again, any time of the tip; before and after activation', assumes=[HASH], hash_order='bytes')
def tip_again(S, net, height):
    coin = dict(test=BitcoinTestnet, scaling=BitcoinScalingTestnet, regtest=BitcoinRegtest)[net]
    after = height > (2200 if net == 'scaling' else 1188697)
    t1 = S.int('t1', 0, 2 ** 32 - 1)
    below = [(height - i, raw(1000 + 147 - i, FIXED + (height - i) % 5, height - i)) for i in range(2, 149 if after else 4)]
    hs, chain = open_at(S, coin, height - 1, raw(t1, FIXED + (height - 1) % 5, 7), below)
    news = times(S, 3, 'new')
    usual = None
    for new in news + news[:1]:
        got = S.ok('required', hs.required_bits, chain, height, new)
        if net != 'scaling' or not after:
            if new - t1 > 1200:
                S.check_eq(got, 0x1d00ffff, 'after twenty minutes')
                continue
        if not after:
            S.check_eq(got, FIXED + (height - 1) % 5, 'bits of the tip')
        else:
            if usual is None:
                fresh, ch = open_at(S, coin, height, raw(7, EASY, 3), below + [(height - 1, raw(t1, FIXED + (height - 1) % 5, 7))])
                usual = S.ok('required', fresh.required_bits, ch, height, t1)
            S.check_eq(got, usual, 'the rule of the network')
