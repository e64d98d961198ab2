"""K01-K03: wire primitives."""
from io import BytesIO
from struct import error as struct_error

import bitcoinx.packing as P
from engine.reg import prop

TYPES = [('le_int32', 4, True, 'little'), ('le_int64', 8, True, 'little'), ('le_uint16', 2, False, 'little'),
         ('le_uint32', 4, False, 'little'), ('le_uint64', 8, False, 'little'), ('be_uint16', 2, False, 'big'),
         ('be_uint32', 4, False, 'big'), ('be_uint64', 8, False, 'big'), ('byte', 1, False, 'big'), ('port', 2, False, 'big')]


@prop('K01', cases=[dict(t=t) for t in range(len(TYPES))],
      bounds='every integer in the type range extended by 2^width on both sides')
def ints(S, t):
    name, size, signed, order = TYPES[t]
    lo, hi = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else (0, (1 << 8 * size) - 1)
    n = S.int('n', lo - (1 << 8 * size), hi + (1 << 8 * size))
    pack, unpack = getattr(P, 'pack_' + name), getattr(P, 'unpack_' + name)
    ok, r = S.attempt(pack, n)
    S.observe('r', r)
    if lo <= n <= hi:
        S.reach('in range')
        S.check(ok, 'in-range value packs')
        v = n + (1 << 8 * size) if n < 0 else n
        expect = [(v >> 8 * i) & 255 for i in range(size)]
        if order == 'big':
            expect = expect[::-1]
        S.check_eq(r, bytes(expect), 'byte layout')
        S.check_eq(unpack(r)[0], n, 'unpack inverts')
        S.check_eq(len(unpack(r)), 1, 'one value')
        if hasattr(P, 'read_' + name):
            rest = S.bytes('rest', 2)
            stream = BytesIO(r + rest)
            S.check_eq(getattr(P, 'read_' + name)(stream.read), n, 'read inverts')
            S.check_eq(stream.read(), rest, 'stream position')
        if hasattr(P, 'unpack_%s_from' % name):
            pre, post = S.bytes('pre', 3), S.bytes('post', 2)
            f = getattr(P, 'unpack_%s_from' % name)
            S.check_eq(f(pre + r + post, 3)[0], n, 'unpack_from inverts')
            S.check_eq(f(r + post)[0], n, 'unpack_from default offset')
    else:
        S.reach('out of range')
        S.check(not ok and S.isa(r, struct_error), 'out-of-range value rejected')


@prop('K01', cases=[dict(t=t, n=n) for t in range(len(TYPES)) for n in range(0, TYPES[t][1] + 2)],
      bounds='every buffer of length 0..width+1')
def buffers(S, t, n):
    name, size, signed, order = TYPES[t]
    data = S.bytes('data', n)
    v = 0
    for b in (data if order == 'big' else bytes(reversed(data)))[:]:
        v = v * 256 + b
    if signed and n == size and data[-1 if order == 'little' else 0] >= 128:
        v -= 1 << 8 * size
    ok, r = S.attempt(getattr(P, 'unpack_' + name), data)
    S.observe('r', r)
    if n == size:
        S.check(ok, 'right-size buffer unpacks')
        S.check_eq(r[0], v, 'unpacked value')
        S.check_eq(getattr(P, 'pack_' + name)(r[0]), data, 'pack inverts unpack')
    else:
        S.check(not ok and S.isa(r, struct_error), 'wrong-size buffer rejected')
    if hasattr(P, 'read_' + name) and n < size:
        ok, r = S.attempt(getattr(P, 'read_' + name), BytesIO(data).read)
        S.check(not ok and S.isa(r, struct_error), 'short stream raises')
    if hasattr(P, 'unpack_%s_from' % name) and n < size:
        ok, r = S.attempt(getattr(P, 'unpack_%s_from' % name), data)
        S.check(not ok and S.isa(r, struct_error), 'short buffer raises')


def ref_varint(n):
    def le(v, k):
        return bytes([(v >> 8 * i) & 255 for i in range(k)])
    if n <= 252:
        return le(n, 1)
    if n <= 0xffff:
        return b'\xfd' + le(n, 2)
    if n <= 0xffffffff:
        return b'\xfe' + le(n, 4)
    return b'\xff' + le(n, 8)


@prop('K02', bounds='all integers in [-2^66, 2^66]', reach=('in', 'out'))
def varint(S):
    n = S.int('n', -(1 << 66), 1 << 66)
    ok, r = S.attempt(P.pack_varint, n)
    S.observe('r', r)
    ok2, l = S.attempt(P.varint_len, n)
    if 0 <= n <= (1 << 64) - 1:
        S.reach('in')
        S.check(ok and ok2, 'value in range encodes')
        S.check_eq(r, ref_varint(n), 'canonical shortest encoding')
        S.check_eq(l, len(r), 'declared length')
        rest = S.bytes('rest', 3)
        st = BytesIO(r + rest)
        S.check_eq(P.read_varint(st.read), n, 'reads back')
        S.check_eq(st.read(), rest, 'consumes exactly the encoding')
        for cut in range(9):
            if cut < len(r):
                ok, e = S.attempt(P.read_varint, BytesIO(r[:cut]).read)
                S.check(not ok and S.isa(e, struct_error), 'truncated varint raises struct error')
    else:
        S.reach('out')
        S.check(not ok, 'out-of-range value rejected')
        S.check(not ok2 and S.isa(l, ValueError), 'length of out-of-range value rejected')


@prop('K02', cases=[dict(n=n) for n in range(0, 11)], bounds='every buffer of 0..10 bytes')
def varint_read(S, n):
    data = S.bytes('d', n)
    st = BytesIO(data)
    ok, v = S.attempt(P.read_varint, st.read)
    need = 1
    if n:
        need = 1 if data[0] < 253 else 3 if data[0] == 253 else 5 if data[0] == 254 else 9
    if n < need:
        S.check(not ok and S.isa(v, struct_error), 'short data raises struct error')
        return
    S.check(ok, 'complete varint reads')
    S.observe('v', v)
    le = data[0] if need == 1 else 0
    if need > 1:
        for i in range(need - 1):
            le = le + data[1 + i] * 256 ** i
    S.check_eq(v, le, 'value')
    S.check_eq(st.read(), data[need:], 'consumption')


@prop('K03', bounds='one byte string of any length 0..2^33 with arbitrary content, 2 trailing bytes', reach=('read',))
def varbytes(S):
    data = S.blob('data', 0, 1 << 33)
    rest = S.bytes('rest', 2)
    enc = P.pack_varbytes(data)
    S.check_eq(enc, ref_varint(len(data)) + data, 'wire format')
    st = BytesIO(enc + rest)
    got = P.read_varbytes(st.read)
    S.reach('read')
    S.check_eq(got, data, 'round trip')
    S.check_eq(st.read(), rest, 'stream position')


@prop('K03', bounds='one byte string of any length 0..2^33, truncated at any point', reach=('cut',))
def varbytes_cut(S):
    data = S.blob('data', 0, 1 << 33)
    enc = P.pack_varbytes(data)
    cut = S.int('cut', 0, (1 << 33) + 9)
    S.assume(cut < len(enc))
    ok, e = S.attempt(P.read_varbytes, BytesIO(enc[:cut]).read)
    S.reach('cut')
    S.check(not ok and S.isa(e, struct_error), 'truncated data raises struct error')


@prop('K03', cases=[dict(k=k) for k in range(4)], bounds='lists of 0..3 byte strings of length 0..2^17 each', reach=('done',))
def lists(S, k):
    items = [S.blob('x%d' % i, 0, 1 << 17) for i in range(k)]
    rest = S.bytes('rest', 1)
    enc = P.pack_list(items, P.pack_varbytes)
    exp = ref_varint(k)
    for x in items:
        exp = exp + ref_varint(len(x)) + x
    S.check_eq(enc, exp, 'wire format')
    st = BytesIO(enc + rest)
    got = P.read_list(st.read, P.read_varbytes)
    S.check_eq(len(got), k, 'item count')
    for a, b in zip(got, items):
        S.check_eq(a, b, 'item')
    S.check_eq(st.read(), rest, 'stream position')
    S.reach('done')


@prop('K03', cases=[dict(k=k) for k in (1, 2)], bounds='lists of 1..2 byte strings of length 0..300, every truncation point', reach=('cut',))
def lists_cut(S, k):
    items = [S.blob('x%d' % i, 0, 300) for i in range(k)]
    enc = P.pack_list(items, P.pack_varbytes)
    cut = S.int('cut', 0, 700)
    S.assume(cut < len(enc))
    ok, e = S.attempt(P.read_list, BytesIO(enc[:cut]).read, P.read_varbytes)
    S.reach('cut')
    S.check(not ok and S.isa(e, struct_error), 'truncated list raises struct error')


@prop('K03', cases=[dict(n=n) for n in (252, 253, 254)], bounds='lists of 252..254 two-byte integers (count width boundary)')
def long_list(S, n):
    vals = [S.int('v%d' % i, 0, 65535) for i in range(n)]
    enc = P.pack_list(vals, P.pack_le_uint16)
    S.check_eq(enc[:len(ref_varint(n))], ref_varint(n), 'count')
    got = P.read_list(BytesIO(enc).read, P.read_le_uint16)
    S.check_eq(got, vals, 'round trip')


@prop('K03', cases=[dict(n=n) for n in range(0, 7)], bounds='every buffer of 0..6 bytes read as a list of byte strings')
def list_read(S, n):
    data = S.bytes('d', n)
    st = BytesIO(data)
    ok, r = S.attempt(P.read_list, st.read, P.read_varbytes)
    if ok:
        # whatever was returned accounts for the consumed bytes
        total = n - len(st.read())
        S.check(total >= 1 + sum(1 + len(x) for x in r), 'no short data is returned')
        if total == 1 + sum(1 + len(x) for x in r):
            S.check_eq(P.pack_list(r, P.pack_varbytes), data[:total], 're-encodes')
    else:
        S.check(S.isa(r, struct_error), 'only struct errors')
