"""C03, C08-C13: connecting headers, fork tracking, lookup, and the headers file."""
import struct

from bitcoinx import Bitcoin, Coin, CheckPoint, Headers, Chain, MissingHeader, IncorrectBits, InsufficientPoW, bits_to_target, double_sha256
from bitcoinx.chain import _HeaderStorage
from engine.reg import prop

HASH = 'SHA-256 is an arbitrary function; different headers have different hashes'
EASY = 0x207fffff
BITS = (EASY, 0x1f7fffff)
CP_WORK = 1000


def raw(nonce, prev=bytes(32), bits=EASY, time=b'time', root=bytes(32)):
    return b'\1\0\0\0' + prev + root + time + bits.to_bytes(4, 'little') + nonce.to_bytes(4, 'little')


def coin_like(rule):
    return Coin('test', raw(1).hex(), rule, 1, 2, 3, b'pub1', b'prv1', 'test')


def any_bits(headers, chain, height, timestamp=None):
    return headers.allowed


class Node:
    """what the tree of headers should be"""
    def __init__(self, raw, parent, height, work, chain):
        self.raw, self.parent, self.height, self.work, self.chain = raw, parent, height, work, chain
        self.hash = double_sha256(raw)

    def path(self):
        n, out = self, []
        while n is not None:
            out.append(n)
            n = n.parent
        return out


class Tree:
    """reference model: nodes in order of connection; chains as lists of nodes"""
    def __init__(self, S, cp, height, work, below=()):
        self.S = S
        self.nodes = [Node(cp, None, height, work + w_of(cp), 0)]
        self.chains = [[self.nodes[0]]]
        self.below = dict(below)
        self.cp = CheckPoint(cp, height, work)

    def add(self, raw, parent):
        n = Node(raw, parent, parent.height + 1, parent.work + w_of(raw), None)
        if self.chains[parent.chain][-1] is parent:
            n.chain = parent.chain
            self.chains[n.chain].append(n)
        else:
            n.chain = len(self.chains)
            self.chains.append([n])
        self.nodes.append(n)
        return n


def w_of(raw):
    return 2 ** 256 // (bits_to_target(int.from_bytes(raw[72:76], 'little')) + 1)


def low(S, raw, tag=None):
    """assume the hash meets the easy targets used, and (tag given) that its first bytes are tag, 255, 255, 255"""
    h = double_sha256(raw)
    if tag is not None:
        S.assume(h[:4] == bytes([tag, 255, 255, 255]))
    S.assume(h[31] == 0)
    S.assume(h[30] < 64)
    return h


def start(S, cp_height, holes=True, path=None, cls=Headers, plain=True):
    """an empty headers file with a checkpoint, some headers below it, and its model"""
    coin = coin_like(any_bits)
    cp = raw(100, time=S.bytes('cpt', 4))
    low(S, cp, 100 if plain else None)
    path = path or S.file('headers')
    hs = cls.from_file(coin, path, CheckPoint(cp, cp_height, CP_WORK))
    below = {}
    for h in range(cp_height - 1, -1, -2):
        below[h] = raw(200 + h, time=S.bytes('bt%d' % h, 4))
        hs.set_one(h, below[h])
    return coin, path, hs, Tree(S, cp, cp_height, CP_WORK, below)


def grow(S, hs, t, n, bits=True, shape=None, plain=True):
    """connect n headers, each on an arbitrary earlier one, with arbitrary timestamps and one of two difficulties"""
    for i in range(n):
        parent = t.nodes[S.choice('p%d' % len(t.nodes), range(len(t.nodes))) if shape is None else shape[i]]
        b = S.choice('b%d' % len(t.nodes), BITS) if bits else EASY
        r = raw(len(t.nodes), parent.hash, b, time=S.bytes('t%d' % len(t.nodes), 4))
        low(S, r, len(t.nodes) if plain else None)
        hs.allowed = b
        add(S, hs, t, r, parent)


def add(S, hs, t, r, parent):
    count = len(hs)
    header, chain = S.ok('connects', hs.connect, r)
    n = t.add(r, parent)
    S.check(len(hs) == count + 1, 'one more header')
    S.check(header.height == n.height, 'height')
    S.check_eq(header.raw, r, 'raw header')
    S.check(chain is hs.chains()[n.chain], 'on its chain')
    return n


def check_chains(S, hs, t):
    """the chains of hs are those of the model"""
    chains = hs.chains()
    S.check(len(chains) == len(t.chains) == hs.chain_count(), 'number of chains')
    S.check(len(hs) == t.cp.height + len(t.nodes), 'number of headers')
    best = None
    for c, nodes in zip(chains, t.chains):
        tip = nodes[-1]
        S.check(c.height == tip.height and c.tip.height == tip.height, 'height of the chain')
        S.check(c.first_height == nodes[0].height, 'first height')
        S.check_eq(c.tip.raw, tip.raw, 'tip')
        S.check_eq(c.tip.hash, tip.hash, 'hash of the tip')
        S.check(c.work == tip.work, 'work of the chain')
        S.check(c.parent is (None if nodes[0].parent is None else chains[nodes[0].parent.chain]), 'parent chain')
        if best is None or tip.work > best[1]:
            best = c, tip.work
    S.check(hs.longest_chain() is best[0], 'longest chain')


def check_heights(S, hs, t):
    """looking up every height on every chain follows the path to the checkpoint"""
    for c, nodes in zip(hs.chains(), t.chains):
        for n in nodes[-1].path():
            S.check_eq(S.ok('found by height', hs.raw_header_at_height, c, n.height), n.raw, 'raw header at its height')
            h = S.ok('found by height', hs.header_at_height, c, n.height)
            S.check_eq(h.raw, n.raw, 'header at its height')
            S.check(h.height == n.height, 'height of the header')
        for h in range(t.cp.height):
            if h in t.below:
                S.check_eq(S.ok('found by height', hs.raw_header_at_height, c, h), t.below[h], 'header below the checkpoint')
            else:
                S.raises('hole', MissingHeader, hs.raw_header_at_height, c, h)
        for h in (nodes[-1].height + 1, nodes[-1].height + 2, nodes[-1].height + 50, -1, -2):
            S.raises('beyond the chain', MissingHeader, hs.raw_header_at_height, c, h)
            S.raises('beyond the chain', MissingHeader, hs.header_at_height, c, h)


def check_lookup(S, hs, t):
    for n in t.nodes:
        h, c = S.ok('found by hash', hs.lookup, n.hash)
        S.check_eq(h.raw, n.raw, 'header of the hash')
        S.check_eq(h.hash, n.hash, 'its hash')
        S.check(h.height == n.height, 'its height')
        S.check(c is hs.chains()[n.chain], 'its chain')


OPTS = dict(hash_order='bytes', collision_free=('sha256',), max_steps=200000)


# ------------------------------------------------------------------------------------------------ C09
@prop('C09', cases=[dict(n=n, cp=c) for n, c in ((0, 0), (1, 0), (2, 3), (3, 0), (4, 2), (5, 1))], thorough=[dict(n=6, cp=1)],
      bounds='every tree of up to 5 (thorough: 6) headers on the checkpoint, every timestamp, two difficulties; checkpoint heights 0..3; hash prefixes distinct', assumes=[HASH], **OPTS)
def trees(S, n, cp):
    coin, path, hs, t = start(S, cp)
    grow(S, hs, t, n, bits=n < 4)
    check_chains(S, hs, t)
    check_heights(S, hs, t)
    check_lookup(S, hs, t)
    check_common(S, hs, t)


@prop('C09', bounds='every two headers of different difficulty, every third; longest chain after each step; hash prefixes distinct', cases=[dict(n=3), dict(n=4)], assumes=[HASH], **OPTS)
def longest(S, n):
    coin, path, hs, t = start(S, 0)
    for i in range(n):
        grow(S, hs, t, 1)
        check_chains(S, hs, t)


def check_common(S, hs, t):
    chains = hs.chains()
    for i, a in enumerate(chains):
        pa = t.chains[i][-1].path()
        for j, b in enumerate(chains):
            pb = t.chains[j][-1].path()
            last = [x for x in pa if x in pb][0]
            c, h = S.ok('common', a.common_chain_and_height, b)
            S.check(h == last.height, 'last common height')
            S.check(c is chains[last.chain], 'chain of the last common header')


@prop('C09', bounds='every tree of 4 headers, checkpoint height 0, and 5 on two given shapes: the common chain, the chains and every lookup by hash and height after each header; hash prefixes distinct',
      cases=[dict(n=4, shape=None), dict(n=5, shape=(0, 0, 2, 1, 3)), dict(n=6, shape=(0, 0, 2, 2, 3, 4))], assumes=[HASH], **OPTS)
def every_step(S, n, shape):
    coin, path, hs, t = start(S, 0)
    for i in range(n):
        grow(S, hs, t, 1, shape is not None and i in (1, 4), shape and shape[i:])
        check_chains(S, hs, t)
        check_common(S, hs, t)
        check_heights(S, hs, t)
        check_lookup(S, hs, t)


# ------------------------------------------------------------------------------------------------ C03, C07 on forks
@prop('C03', cases=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=5)], bounds='every tree of up to 4 (thorough: 5) headers, two difficulties, every height range on every chain; hash prefixes distinct',
      assumes=[HASH], **OPTS)
def range_work(S, n):
    coin, path, hs, t = start(S, 1)
    grow(S, hs, t, n, bits=n < 4)
    for c, nodes in zip(hs.chains(), t.chains):
        p = nodes[-1].path()
        p.reverse()
        for i in range(len(p)):
            S.check(S.ok('work to a height', hs.chainwork_to_height, c, p[i].height) == p[i].work, 'work to and including a height')
            for j in range(i, len(p) + 1):
                want = sum([w_of(x.raw) for x in p[i:j]])
                S.check(S.ok('range work', hs.chainwork_range, c, p[0].height + i, p[0].height + j) == want, 'work of a range')


@prop('C07', cases=[dict(n=n, at=a) for n, a in ((2, 0), (3, 1), (4, 0))], bounds='every tree of 2..4 headers with arbitrary times, every chain and height; hash prefixes distinct', assumes=[HASH], **OPTS)
def fork_median(S, n, at):
    coin, path, hs, t = start(S, at)
    grow(S, hs, t, n, bits=False)
    for c, nodes in zip(hs.chains(), t.chains):
        for x in nodes[-1].path():
            ts = [int.from_bytes(y.raw[68:72], 'little') for y in x.path()]
            if at:
                ts.append(int.from_bytes(t.below[0][68:72], 'little'))
            m = S.ok('median', hs.median_time_past, c, x.height)
            k = len(ts) // 2
            S.check(sum([(v < m) + 0 for v in ts]) <= k and sum([(v <= m) + 0 for v in ts]) > k, 'median of the times on the chain')


# ------------------------------------------------------------------------------------------------ C08
VALID = (EASY, 0x1d00ffff, 0x03008000)


@prop('C08', cases=[dict(n=n, shape=s) for n, s in ((0, ()), (1, (0,)), (2, (0, 0)), (2, (0, 1)))], thorough=[dict(n=3, shape=s) for s in ((0, 1, 0), (0, 0, 1), (0, 1, 1), (0, 0, 0), (0, 0, 2), (0, 1, 2))],
      bounds='an arbitrary header (every byte) connected to every tree of up to 2 (thorough: 3) headers; arbitrary required bits among three; hash prefixes of the earlier headers distinct',
      assumes=[HASH], reach=('missing', 'bits', 'work', 'added', 'known'), **OPTS)
def arbitrary(S, n, shape):
    coin, path, hs, t = start(S, 1)
    grow(S, hs, t, n, False, shape)
    prev = S.bytes('prev', 32)
    r = S.bytes('a', 4) + prev + S.bytes('b', 44)
    S.assume(r[0] > 0)
    seen = []

    def rule(headers, chain, height, timestamp=None):
        S.check(headers is hs, 'asks about these headers')
        seen.append((chain, height, timestamp))
        return want
    want = S.choice('required', VALID)
    coin.required_bits = rule
    file = S.file_bytes(path)
    count = len(hs)
    ok, v = S.attempt(hs.connect, r)
    parent = None
    for x in t.nodes:
        if prev == x.hash:
            parent = x
    if parent is None:
        S.reach('missing')
        S.check(not ok and S.isa(v, MissingHeader), 'missing header')
        S.check(not seen, 'nothing else asked')
    else:
        for x in t.nodes[1:]:
            if r == x.raw:
                S.reach('known')
                S.check(ok, 'known header accepted')
                h, c = v
                S.check(h.height == x.height and c is hs.chains()[x.chain], 'its entry')
                S.check_eq(h.raw, r, 'its entry')
                unchanged(S, hs, t, path, file)
                return
        bits, time = int.from_bytes(r[72:76], 'little'), int.from_bytes(r[68:72], 'little')
        S.check(len(seen) == 1, 'required bits determined once')
        c, height, ts = seen[0]
        S.check(c is hs.chains()[parent.chain] and height == parent.height + 1, 'for the right place')
        S.check(ts == time, 'and time')
        value = int.from_bytes(double_sha256(r), 'little')
        if bits != want:
            S.reach('bits')
            S.check(not ok and S.isa(v, IncorrectBits), 'incorrect bits')
            S.check(v.required_bits == want, 'names the bits required')
            S.check_eq(v.header.raw, r, 'names the header')
        elif value > bits_to_target(want):
            S.reach('work')
            S.check(not ok and S.isa(v, InsufficientPoW), 'insufficient work')
            S.check_eq(v.header.raw, r, 'names the header')
        else:
            S.reach('added')
            S.check(ok, 'accepted')
            h, c = v
            x = t.add(r, parent)
            S.check(len(hs) == count + 1, 'stored')
            S.check_eq(h.raw, r, 'the header')
            S.check(h.height == x.height and c is hs.chains()[x.chain], 'its place')
            check_chains(S, hs, t)
            S.check_eq(hs.raw_header_at_height(c, h.height), r, 'found again')
            return
    unchanged(S, hs, t, path, file)


def unchanged(S, hs, t, path, file):
    S.check_eq(S.file_bytes(path), file, 'file unchanged')
    check_chains(S, hs, t)


class BigCache(Headers):
    max_cache_size = 1 << 20


@prop('C09', cases=[dict(k=300, ats=(-1, 0, 1, 255, 256, 299)), dict(k=65538, ats=())],
      bounds='300 forks of the checkpoint in a file, then one more header (any timestamp) on one of 5 of them or on the checkpoint; 65,538 forks in a file; a cache larger than the file', assumes=[HASH],
      reach=('fork', 'extends'), **OPTS)
def many_chains(S, k, ats):
    coin = coin_like(any_bits)
    cp = raw(1)
    prev = double_sha256(cp)
    path = S.file('headers')
    data = struct.pack('<HHI', 8, 0, k + 1) + cp + b''.join([raw(i, prev) for i in range(k)])
    S.file_set(path, data)
    hs = S.ok('opens', BigCache.from_file, coin, path, CheckPoint(cp, 0, 0))
    S.check(hs.chain_count() == k, 'a chain for each fork')
    S.check(len(hs) == k + 1, 'all headers')
    if not ats:
        S.check(hs.chains()[k - 1].tip.raw == raw(k - 1, prev) and hs.chains()[k - 1].parent is hs.chains()[0], 'the last fork')
        return
    at = S.choice('at', ats)
    r = raw(k, prev if at < 0 else double_sha256(raw(at, prev)), time=S.bytes('t', 4))
    low(S, r, 9)
    hs.allowed = EASY
    header, chain = S.ok('connects', hs.connect, r)
    n = k if at < 0 else at
    S.reach('fork' if at < 0 else 'extends')
    S.check(chain is hs.chains()[n], 'on its chain')
    S.check(hs.chain_count() == k + (at < 0), 'chains')
    S.check(header.height == (1 if at < 0 else 2), 'height')
    S.check(chain.tip.hash == header.hash and chain.work == w_of(cp) + w_of(r) * header.height, 'tip and work')
    h2 = S.ok('opens again', BigCache.from_file, coin, path, CheckPoint(cp, 0, 0))
    S.check(h2.chain_count() == hs.chain_count() and h2.chains()[n].tip.hash == header.hash, 'same chains')


# ------------------------------------------------------------------------------------------------ C10
def small_cache(k):
    class Small(Headers):
        max_cache_size = k
    return Small


@prop('C10', cases=[dict(shape=s, cache=k) for s, k in (((), 1), ((0,), 1), ((0,), 1000), ((0, 1), 1), ((0, 0), 2))],
      thorough=[dict(shape=s, cache=1000) for s in ((), (0, 1), (0, 0))] + [dict(shape=s, cache=k) for s in ((0, 1, 2), (0, 1, 1), (0, 0, 0)) for k in (1, 2, 3)],
      bounds='up to 2 (thorough: 3) headers with arbitrary hashes (any prefix collision or unaligned match), cache sizes 1, 2, 1000; lookup of each hash and of an arbitrary hash',
      assumes=[HASH], reach=('found', 'missing'), **OPTS)
def any_hash(S, shape, cache):
    coin, path, hs, t = start(S, 2, cls=small_cache(cache), plain=False)
    grow(S, hs, t, len(shape), False, shape, plain=False)
    if S.flag('arbitrary'):
        x = S.bytes('x', 32)
        ok, v = S.attempt(hs.lookup, x)
        for n in t.nodes:
            if x == n.hash:
                S.reach('found')
                S.check(ok, 'found')
                h, c = v
                S.check_eq(h.raw, n.raw, 'header of the hash')
                S.check(h.height == n.height and c is hs.chains()[n.chain], 'its height and chain')
                return
        S.reach('missing')
        S.check(not ok and S.isa(v, MissingHeader), 'not found')
    else:
        check_lookup(S, hs, t)


@prop('C10', cases=[dict(n=n, cache=k) for n, k in ((1, 1), (2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3))], thorough=[dict(n=5, cache=k) for k in (1, 2, 3, 4)],
      bounds='every tree of up to 4 (thorough: 5) headers, cache sizes 1..3 (thorough: 4), lookups of every header twice and of the hashes below the checkpoint and of unknown headers; hash prefixes distinct',
      assumes=[HASH], **OPTS)
def evicted(S, n, cache):
    coin, path, hs, t = start(S, 2, cls=small_cache(cache))
    grow(S, hs, t, n, False)
    check_lookup(S, hs, t)
    check_chains(S, hs, t)
    check_lookup(S, hs, t)
    for h in t.below.values() if n < 3 else ():
        S.raises('below the checkpoint', MissingHeader, hs.lookup, double_sha256(h))
    S.raises('unknown', MissingHeader, hs.lookup, bytes(32))
    S.raises('unknown', MissingHeader, hs.lookup, t.nodes[-1].hash[:4] + b'\xff' * 28)


# ------------------------------------------------------------------------------------------------ C11
def reopened(S, hs, t, path, cls=Headers):
    """the file opened again shows the same headers"""
    h2 = S.ok('opens again', cls.from_file, hs.coin, path, t.cp)
    check_chains(S, h2, t)
    check_heights(S, h2, t)
    check_lookup(S, h2, t)
    return h2


@prop('C11', cases=[dict(n=n, cp=c) for n, c in ((0, 0), (1, 3), (2, 0), (3, 2), (4, 0))], thorough=[dict(n=5, cp=1)],
      bounds='every tree of up to 4 (thorough: 5) headers, every timestamp, two difficulties; checkpoint heights 0, 2, 3 with headers and holes below; headers added after reopening; hash prefixes distinct',
      assumes=[HASH], **OPTS)
def reopen(S, n, cp):
    coin, path, hs, t = start(S, cp)
    grow(S, hs, t, n, bits=n < 3)
    if S.flag('flush'):
        hs.flush()
    h2 = reopened(S, hs, t, path)
    for a, b in zip(hs.chains(), h2.chains()):
        S.check(a.work == b.work and a.height == b.height and a.first_height == b.first_height and a.tip == b.tip, 'same chains')
    if n < 4:
        grow(S, h2, t, 1, bits=False)
        check_chains(S, h2, t)
        reopened(S, h2, t, path)


@prop('C11', cases=[dict(k=k) for k in range(0, 4)], bounds='a file holding exactly k of its headers and nothing after them, opened and extended by two headers; hash prefixes distinct', assumes=[HASH], **OPTS)
def full_file(S, k):
    coin, path, hs, t = start(S, 2)
    grow(S, hs, t, k, False)
    data = S.file_bytes(path)
    path2 = S.file('other')
    S.file_set(path2, data[:8 + 80 * (3 + k)])
    h2 = reopened(S, hs, t, path2)
    grow(S, h2, t, 2, False, [len(t.nodes) - 1, len(t.nodes)])
    check_chains(S, h2, t)
    check_heights(S, h2, t)
    reopened(S, h2, t, path2)


def fresh(S, hs, t, path):
    """hs is a new file holding just the checkpoint"""
    check_chains(S, hs, t)
    want = struct.pack('<HHI', 8, 0, t.cp.height + 1) + bytes(80 * t.cp.height) + t.cp.raw_header
    S.check_eq(S.file_bytes(path), want, 'new file')
    for h in range(t.cp.height):
        S.raises('hole', MissingHeader, hs.raw_header_at_height, hs.chains()[0], h)


@prop('C11', cases=[dict(n=n) for n in (0, 1, 7, 8, 9, 87, 88, 248, 327, 328, 400)], bounds='every file of 0, 1, 7..9, 87, 88, 248, 327, 328, 400 bytes with reserved size 8 that is of another version or lacks the checkpoint header',
      assumes=[HASH], hash_order='bytes', collision_free=('sha256',), reach=())
def bad_file(S, n):
    coin = coin_like(any_bits)
    cp = raw(100, time=S.bytes('cpt', 4))
    t = Tree(S, cp, 3, CP_WORK)
    path = S.file('headers')
    data = S.bytes('data', n)
    if n >= 8:
        S.assume(data[:2] == b'\x08\0')
        S.assume(data[2:4] != b'\0\0' or data[248:328] != cp)
    S.file_set(path, data)
    hs = S.ok('opens', Headers.from_file, coin, path, t.cp)
    fresh(S, hs, t, path)


@prop('C11', bounds='files written with another checkpoint header or at a larger height', assumes=[HASH], cases=[dict(other=h) for h in (3, 5, 2, 0)], **OPTS)
def other_checkpoint(S, other):
    coin, path, hs, t = start(S, 3)
    grow(S, hs, t, 2, False)
    cp = raw(101, time=S.bytes('cpt2', 4))
    t2 = Tree(S, cp, other, 7)
    fresh(S, S.ok('opens', Headers.from_file, coin, path, t2.cp), t2, path)


@prop('C11', bounds='good files of every count up to 3 above the checkpoint, extra bytes beyond the count ignored', assumes=[HASH], cases=[dict(k=k) for k in range(3)], **OPTS)
def good_file(S, k):
    coin, path, hs, t = start(S, 1)
    grow(S, hs, t, k, False)
    data = S.file_bytes(path)[:8 + 80 * (2 + k)] + S.bytes('junk', 160)
    path2 = S.file('other')
    S.file_set(path2, data)
    h2 = reopened(S, hs, t, path2)
    grow(S, h2, t, 1, False)
    check_chains(S, h2, t)
    check_heights(S, h2, t)


@prop('C11', cases=[dict(k=k, at=a) for k in (1, 2, 3) for a in range(k)], bounds='good files of 1..3 headers above the checkpoint, any one of them changed to another header that links to none before it, or zeroed', assumes=[HASH], **OPTS)
def unlinked(S, k, at):
    coin, path, hs, t = start(S, 1)
    grow(S, hs, t, k, False)
    hs.flush()
    data = S.file_bytes(path)
    kind = S.choice('kind', ('unknown', 'later', 'zero'))
    pos = 8 + 80 * (2 + at)
    if kind == 'zero':
        new = bytes(80)
    else:
        # links to nothing, or only to itself or what follows
        new = raw(70, b'\xee' * 32 if kind == 'unknown' else t.nodes[-1].hash, time=S.bytes('ut', 4))
        low(S, new, 70)
    path2 = S.file('other')
    S.file_set(path2, data[:pos] + new + data[pos + 80:])
    S.raises('a header that does not link', MissingHeader, Headers.from_file, coin, path2, t.cp)


# ------------------------------------------------------------------------------------------------ C12
CRASH = 'the process dies (the operating system survives); stores within one aligned 8-byte word of the map are atomic'


@prop('C12', cases=[dict(n=n) for n in (0, 1, 2, 3)], bounds='every tree of 1..3 headers, flushed once or twice; then the machine fails', assumes=[HASH], **OPTS)
def flushed(S, n):
    coin, path, hs, t = start(S, 1)
    grow(S, hs, t, n, False)
    S.ok('flushes', hs.flush)
    if S.flag('twice'):
        grow(S, hs, t, 1, False)
        S.ok('flushes again', hs.flush)
    disk = S.file_synced(path)
    S.check(disk is not None, 'on disk')
    path2 = S.file('after')
    S.file_set(path2, disk)
    reopened(S, hs, t, path2)


SOME = (0, 1, 4, 7, 8, 40, 79)


@prop('C12', cases=[dict(old=o, cp=c) for o in ('none', 'empty', 'short', 'bad') for c in (0, 2)], thorough=[dict(old=o, cp=c, js=range(81)) for o in ('none', 'bad') for c in (0, 2)],
      bounds='death at every change of the file while creating it, after 0, 1, 4, 7, 8, 40, 79 (thorough: any number of) bytes of a write; from no file, an empty, a short and a mismatching file', assumes=[HASH, CRASH], reach=('crashed', 'completed'), **OPTS)
def create(S, old, cp, js=SOME):
    coin = coin_like(any_bits)
    r = raw(100, time=S.bytes('cpt', 4))
    t = Tree(S, r, cp, CP_WORK)
    path = S.file('headers')
    if old != 'none':
        S.file_set(path, b'' if old == 'empty' else b'\x08\0\0' if old == 'short' else struct.pack('<HHI', 8, 0, 3) + raw(5) + raw(6) + raw(7))
    k = S.choice('k', range(6))
    j = S.choice('j', js)
    if S.crashing(lambda: Headers.from_file(coin, path, t.cp), k, j):
        S.reach('crashed')
    else:
        S.reach('completed')
        S.assume(j == 0)
    hs = S.ok('opens after the crash', Headers.from_file, coin, path, t.cp)
    fresh(S, hs, t, path)


@prop('C12', cases=[dict(m=m, at=a, full=f) for m, a in ((0, 0), (1, 1), (2, 0), (2, 2)) for f in (False, True)],
      thorough=[dict(m=m, at=a, full=f, js=range(80)) for m, a in ((0, 0), (1, 0), (2, 2), (3, 1)) for f in (False, True)],
      bounds='death at every change of the file while adding a header to 0..2 headers, after 0, 1, 4, 7, 8, 40, 79 (thorough: any number of) bytes of a write; with and without the file having to grow; hash prefixes distinct', assumes=[HASH, CRASH], reach=('crashed', 'completed', 'before', 'after'), **OPTS)
def adding(S, m, at, full, js=SOME):
    coin, path, hs, t = start(S, 1)
    grow(S, hs, t, m, False)
    if full:
        data = S.file_bytes(path)
        S.file_set(path, data[:8 + 80 * (2 + m)])
        hs = Headers.from_file(coin, path, t.cp)
    else:
        hs.set_one(0, t.below[0])
    hs.allowed = EASY
    parent = t.nodes[at]
    r = raw(50, parent.hash, EASY, time=S.bytes('new', 4))
    low(S, r, 50)
    k = S.choice('k', range(6))
    j = S.choice('j', js)
    crashed = S.crashing(lambda: hs.connect(r), k, j)
    S.reach('crashed' if crashed else 'completed')
    if not crashed:
        S.assume(j == 0)
    h2 = S.ok('opens after the crash', Headers.from_file, coin, path, t.cp)
    if len(h2) == t.cp.height + len(t.nodes) + 1:
        S.reach('after')
        t.add(r, parent)
    else:
        S.check(crashed, 'a completed addition stays')
        S.reach('before')
    check_chains(S, h2, t)
    check_heights(S, h2, t)
    # and the header can be added then
    h2.allowed = EASY
    if len(t.nodes) == m + 1:
        add(S, h2, t, r, parent)
    else:
        S.ok('known', h2.connect, r)
    check_chains(S, h2, t)
    reopened(S, h2, t, path)


@prop('C12', cases=[dict(m=m) for m in (0, 2)], bounds='death while adding a header, then death while adding it again; every change of the file, whole changes', assumes=[HASH, CRASH], reach=('crashed',), **OPTS)
def twice(S, m):
    coin, path, hs, t = start(S, 1)
    grow(S, hs, t, m, False)
    parent = t.nodes[-1]
    for i in (1, 2):
        r = raw(50 + i, parent.hash, EASY, time=S.bytes('new%d' % i, 4))
        low(S, r, 50 + i)
        hs.allowed = EASY
        if S.crashing(lambda: hs.connect(r), S.choice('k%d' % i, range(5)), S.choice('j%d' % i, (0, 1, 40, 79))):
            S.reach('crashed')
        hs = S.ok('opens after the crash', Headers.from_file, coin, path, t.cp)
        if len(hs) == t.cp.height + len(t.nodes) + 1:
            parent = t.add(r, parent)
        check_chains(S, hs, t)
        check_heights(S, hs, t)


# ------------------------------------------------------------------------------------------------ C13
def storage(S, cp_height):
    cp = raw(100, time=S.bytes('cpt', 4))
    st = _HeaderStorage(S.file('headers'))
    st.open_or_create(CheckPoint(cp, cp_height, 0))
    return st, {cp_height: cp}


def check_storage(S, st, want, extra=3):
    n = max(want) + 1
    S.check(len(st) == n, 'count is one more than the largest index')
    for i in range(n + extra):
        if i in want:
            S.check_eq(S.ok('reads', st.__getitem__, i), want[i], 'the header written')
        else:
            S.raises('absent', MissingHeader, st.__getitem__, i)
    for i in range(-n, 0):
        if n + i in want:
            S.check_eq(S.ok('reads', st.__getitem__, i), want[n + i], 'counted from the end')
        else:
            S.raises('absent', MissingHeader, st.__getitem__, i)
    for i in (-n - 1, -n - 2, -n - 3, -n - 62, -2 * n - 5, -n - 5000, -n - 10 ** 6, 6000, 10 ** 7):
        S.raises('absent', MissingHeader, st.__getitem__, i)


def any_raw(S, name):
    """any 80 bytes, one of them (first, middle or last) not zero"""
    r = S.bytes(name, 80)
    S.assume(r[(0, 33, 79)[sum(name.encode()) % 3]] > 0)
    return r


@prop('C13', cases=[dict(cp=c, idx=i) for c, i in ((0, (1,)), (2, (0, 5)), (1, (3, 2, 3)), (3, (4, 0, 9)))], thorough=[dict(cp=2, idx=i) for i in ((4, 4, 4), (7, 3, 1, 0), (2, 2), (5000, 1), (4999, 5001))],
      bounds='sequences of 1..3 (thorough: 4) writes, absolute or relative to the end, arbitrary contents; indices up to 9 (thorough: 5001)')
def writes(S, cp, idx):
    st, want = storage(S, cp)
    for k, i in enumerate(idx):
        r = any_raw(S, 'r%d' % k)
        n = max(want) + 1
        key = i - n if i < n and S.flag('neg%d' % k) else i
        if S.flag('array%d' % k):
            S.ok('writes', st.__setitem__, key, bytearray(r))
        else:
            S.ok('writes', st.__setitem__, key, r)
        want[i] = r
        if max(want) < 100:
            check_storage(S, st, want)
    if max(want) >= 100:
        S.check(len(st) == max(want) + 1, 'count')
        for i, r in want.items():
            S.check_eq(st[i], r, 'the header written')
    r = any_raw(S, 'last')
    S.check(S.ok('appends', st.append, r) == max(want) + 1, 'index of the header appended')
    want[max(want) + 1] = r
    if max(want) < 100:
        check_storage(S, st, want)


@prop('C13', cases=[dict(cp=c) for c in (0, 2, 4)], bounds='every slice with bounds -7..7 or none and steps -3..3 or none, over stored headers')
def slices(S, cp):
    st, want = storage(S, cp)
    for i in range(cp):
        want[i] = any_raw(S, 'b%d' % i)
        st[i] = want[i]
    for i in range(2):
        want[len(want)] = any_raw(S, 'a%d' % i)
        st.append(want[len(want) - 1])
    n = len(want)
    ref = [want[i] for i in range(n)]
    a, c = S.choice('start', [None] + list(range(-7, 8))), S.choice('step', [None, 1, 2, 3, -1, -2, -3])
    for b in [None] + list(range(-7, 8)):
        S.check_eq(S.ok('slice', st.__getitem__, slice(a, b, c)), ref[a:b:c], 'the list of headers')


@prop('C13', cases=[dict(cp=c, have=h) for c, h in ((1, ()), (3, (1,)), (4, (0, 3)), (5, (1, 2, 4)))], bounds='every slice with bounds -7..7 or none and steps -2..2 or none, over headers with holes', reach=('whole', 'hole'))
def slices_holes(S, cp, have):
    st, want = storage(S, cp)
    for i in have:
        want[i] = any_raw(S, 'b%d' % i)
        st[i] = want[i]
    want[cp + 1] = any_raw(S, 'a')
    st.append(want[cp + 1])
    n = cp + 2
    a, c = S.choice('start', [None] + list(range(-7, 8))), S.choice('step', [None, 1, 2, -1, -2])
    for b in [None] + list(range(-7, 8)):
        idx = range(n)[a:b:c]
        if all(i in want for i in idx):
            S.reach('whole')
            S.check_eq(S.ok('slice', st.__getitem__, slice(a, b, c)), [want[i] for i in idx], 'the list of headers')
        else:
            S.reach('hole')
            S.raises('a header of the slice is absent', MissingHeader, st.__getitem__, slice(a, b, c))


@prop('C13', bounds='values of other sizes and types, keys of other types, indices below the first and above the checkpoint', cases=[dict(n=n) for n in (0, 1, 79, 81, 160)])
def refused(S, n):
    st, want = storage(S, 2)
    want[1] = any_raw(S, 'r')
    st[1] = want[1]
    before = S.file_bytes(st.filename)
    bad = S.bytes('bad', n)
    for v in (bad, bytearray(bad), 'a' * 80, None, 5, [1] * 80, memoryview(b'a' * 80)):
        for i in (0, 1, 2, 3, 9, -1):
            S.raises('not a header', TypeError, st.__setitem__, i, v)
        S.raises('not a header', TypeError, st.append, v)
    good = any_raw(S, 'good')
    for i in (None, '1', 1.5, (1,), b'1', slice(0, 1), slice(None)):
        S.raises('not an index', TypeError, st.__setitem__, i, good)
    for i in (None, '1', 1.5, (1,), b'1'):
        S.raises('not an index', TypeError, st.__getitem__, i)
    for i in (-4, -5, -50):
        ok, v = S.attempt(st.__setitem__, i, good)
        S.check(not ok, 'nothing there')
    S.check_eq(S.file_bytes(st.filename), before, 'file unchanged')
    check_storage(S, st, want)


@prop('C13', bounds='every height for headers below the checkpoint', cases=[dict(cp=c) for c in (0, 1, 5)], **OPTS)
def set_one(S, cp):
    coin, path, hs, t = start(S, cp)
    h = S.int('h', -2 ** 40, 2 ** 40)
    r = any_raw(S, 'r')
    before = S.file_bytes(path)
    ok, v = S.attempt(hs.set_one, h, r)
    if h < 0 or h > cp:
        S.reach('outside')
        S.check(not ok and S.isa(v, ValueError), 'refused')
        S.check_eq(S.file_bytes(path), before, 'file unchanged')
    elif h < cp:
        S.check(ok, 'set')
        t.below[int(h)] = r
        S.check_eq(S.file_bytes(path)[8 + 80 * cp:], before[8 + 80 * cp:], 'the rest unchanged')
    else:
        return
    check_chains(S, hs, t)
    check_heights(S, hs, t)
