"""S01-S07: scripts."""
from bitcoinx import (
    Script, Ops, push_item, push_int, push_and_drop_item, push_and_drop_items, item_to_int, ScriptError, TruncatedScriptError,
    classify_output_script, Bitcoin, BitcoinTestnet, BitcoinRegtest, BitcoinScalingTestnet, P2PKH_Address, P2SH_Address, P2PK_Output, OP_RETURN_Output,
    P2MultiSig_Output, Unknown_Output, PublicKey,
)
import bitcoinx
from engine.reg import prop


def le(v, k):
    return bytes([(v >> 8 * i) & 255 for i in range(k)])


def ref_push(item):
    n = len(item)
    if n == 0:
        return b'\0'
    if n == 1:
        v = item[0]
        if 1 <= v <= 16:
            return bytes([0x50 + v])
        if v == 0x81:
            return b'\x4f'
    if n <= 75:
        return bytes([n]) + item
    if n <= 255:
        return b'\x4c' + bytes([n]) + item
    if n <= 0xffff:
        return b'\x4d' + le(n, 2) + item
    return b'\x4e' + le(n, 4) + item


def ref_int_item(n):
    if n == 0:
        return b''
    a = abs(n)
    size = 1
    while a >= 1 << 8 * size:
        size += 1
    b = [(a >> 8 * i) & 255 for i in range(size)]
    if b[-1] >= 128:
        b.append(0x80 if n < 0 else 0)
    elif n < 0:
        b[-1] = b[-1] + 128
    return bytes(b)


# ------------------------------------------------------------------------------------------------ S01
@prop('S01', bounds='every byte string of length 0..2^32-1', reach=('small', '1', '2', '4'))
def push(S):
    item = S.blob('item', 0, (1 << 32) - 1)
    r = S.ok('pushes', push_item, item)
    S.check_eq(r, ref_push(item), 'minimal push form')
    S.check_eq(list(Script(r).ops()), [item], 'iterates to the item')
    n = len(item)
    S.reach('small' if n <= 75 else '1' if n <= 255 else '2' if n <= 65535 else '4')
    d = S.ok('push and drop', push_and_drop_item, item)
    S.check_eq(d, ref_push(item) + b'\x75', 'push then drop')


@prop('S01', cases=[dict(n=n, lo=0, hi=1 << 17) for n in range(0, 4)] + [dict(n=n, lo=2, hi=75) for n in (4, 5, 6, 7, 8)],
      thorough=[dict(n=4, lo=0, hi=1 << 17), dict(n=9, lo=1, hi=1)],
      bounds='0..3 items of any length up to 2^17 each; 4..8 items of 2..75 bytes')
def drops(S, n, lo, hi):
    items = [S.blob('item%d' % i, lo, hi) for i in range(n)]
    r = S.ok('push and drop items', push_and_drop_items, items)
    want = b''
    for it in items:
        want = want + ref_push(it)
    want = want + b'\x6d' * (n // 2) + b'\x75' * (n % 2)
    S.check_eq(r, want, 'pushes then drops')
    stack = []
    for op in Script(r).ops():
        if isinstance(op, bytes):
            stack.append(op)
        else:
            k = 2 if op == 0x6d else 1
            S.check(op == 0x6d or op == 0x75, 'only drops')
            S.check(len(stack) >= k, 'drops only what was pushed')
            del stack[-k:]
    S.check_eq(len(stack), 0, 'everything dropped')


# ------------------------------------------------------------------------------------------------ S02
@prop('S02', thorough=[dict(bits=256)], cases=[dict(bits=72)], bounds='every integer of up to 72 (thorough: 256) magnitude bits', reach=('small', 'neg', 'pos'))
def numbers(S, bits):
    n = S.int('n', -(1 << bits), 1 << bits)
    r = S.ok('pushes', push_int, n)
    ops = list(Script(r).ops())
    S.check_eq(len(ops), 1, 'one operation')
    S.check_eq(item_to_int(ops[0]), n, 'round trip')
    S.check_eq(ops[0], ref_int_item(n), 'minimal sign-magnitude form')
    S.check_eq(r, ref_push(ref_int_item(n)), 'canonical push')
    if -1 <= n <= 16:
        S.reach('small')
        S.check_eq(len(r), 1, 'single-byte opcode')
    S.reach('neg' if n < 0 else 'pos')
    S.check_eq((Script() << n).to_bytes(), r, 'appending a number')


@prop('S02', cases=[dict(n=n) for n in range(0, 10)], thorough=[dict(n=n) for n in (10, 16, 33)], bounds='every item of 0..9 bytes')
def decode_items(S, n):
    d = S.bytes('d', n)
    r = S.ok('decodes', item_to_int, d)
    v = 0
    for i in range(n):
        b = d[i]
        if i == n - 1 and b >= 128:
            v = -(v + (b - 128) * 256 ** i)
        else:
            v = v + b * 256 ** i
    S.check_eq(r, v, 'sign-magnitude value')


# ------------------------------------------------------------------------------------------------ S03 / S07 references
def ref_ops(data):
    """(list of (kind, value), truncated)"""
    out = []
    i = 0
    n = len(data)
    while i < n:
        op = data[i]
        i += 1
        if op >= 0x61 or op == 0x50:
            out.append(op)
            continue
        if op >= 0x51:
            out.append(bytes([op - 0x50]))
            continue
        if op == 0x4f:
            out.append(b'\x81')
            continue
        w = 0
        k = op
        if op >= 0x4c:
            w = 1 if op == 0x4c else 2 if op == 0x4d else 4
            if i + w > n:
                return out, True
            k = 0
            for j in range(w):
                k = k + data[i + j] * 256 ** j
            i += w
        if i + k > n:
            return out, True
        out.append(data[i:i + k])
        i += k
    return out, False


def check_ops(S, data, got, err, label=''):
    want, trunc = ref_ops(data)
    if trunc:
        S.reach('truncated')
        S.check(err is not None and S.isa(err, TruncatedScriptError), 'truncation reported' + label)
    else:
        S.reach('complete')
        S.check(err is None, 'complete script iterates' + label)
    S.check_eq(len(got), len(want), 'number of operations' + label)
    for g, w in zip(got, want):
        S.check_eq(isinstance(g, bytes), isinstance(w, bytes), 'operation kind' + label)
        S.check_eq(g, w, 'operation' + label)


def run_ops(script):
    got = []
    try:
        for op in script.ops():
            got.append(op)
    except Exception as e:
        return got, e
    return got, None


@prop('S03', cases=[dict(n=n) for n in range(0, 5)], thorough=[dict(n=5), dict(n=6)], bounds='every script of 0..4 bytes (thorough: 6)')
def short(S, n):
    data = S.bytes('d', n)
    got, err = run_ops(Script(data))
    check_ops(S, data, got, err)


@prop('S03', cases=[dict(a=a) for a in range(4)], bounds='a push opcode of each kind with any length field, followed by up to 2^32+4 bytes in all', reach=('truncated', 'complete'))
def long_push(S, a):
    pre = bytes([S.int('op0', 0x61, 255)])
    body = S.blob('body', 0, (1 << 32) + 16)
    n = len(body)
    if a == 0:
        k = S.int('k', 1, 75)
        head = bytes([k])
    else:
        w = (1, 2, 4)[a - 1]
        head = bytes([0x4b + a]) + S.bytes('len', w, word='little')
        k = int.from_bytes(head[1:], 'little')
    if n > k:
        # what follows must be a single opcode
        S.assume(n == k + 1)
        S.assume(body[k] >= 0x61)
    got, err = run_ops(Script(pre + head + body))
    S.check_eq(got[0], pre[0], 'first operation')
    if k > n:
        S.reach('truncated')
        S.check(err is not None and S.isa(err, TruncatedScriptError), 'truncation reported')
        S.check_eq(len(got), 1, 'nothing after')
    else:
        S.reach('complete')
        S.check(err is None, 'complete')
        S.check_eq(got[1], body[:k], 'pushed data')
        S.check_eq(len(got), 2 if n == k else 3, 'operations')
        if n > k:
            S.check_eq(got[2], body[k], 'last operation')


@prop('S03', cases=[dict(a=a, w=w) for a in range(3) for w in range((1, 2, 4)[a])], bounds='scripts cut inside the length field of PUSHDATA')
def cut_length(S, a, w):
    data = S.bytes('pre', 1) + bytes([0x4c + a]) + S.bytes('l', w)
    got, err = run_ops(Script(data))
    check_ops(S, data, got, err)


PRE = ('op', 'push1', 'small', 'neg1', 'empty', 'pd1', 'pd2', 'reserved', 'trunc')


def piece(S, kind, i):
    if kind == 'op':
        return bytes([S.int('op%d' % i, 0x61, 255)])
    if kind == 'push1':
        return b'\x03' + S.bytes('p%d' % i, 3)
    if kind == 'small':
        return bytes([S.int('s%d' % i, 0x51, 0x60)])
    if kind == 'neg1':
        return b'\x4f'
    if kind == 'empty':
        return b'\0'
    if kind == 'pd1':
        return b'\x4c\x02' + S.bytes('q%d' % i, 2)
    if kind == 'pd2':
        return b'\x4d\x02\0' + S.bytes('r%d' % i, 2)
    if kind == 'reserved':
        return b'\x50'
    return b'\x05' + S.bytes('t%d' % i, 4)


@prop('S03', cases=[dict(n=3)], thorough=[dict(n=4)], bounds='every sequence of 3 (thorough: 4) operations of 9 kinds, contents symbolic')
def sequences(S, n):
    data = b''
    for i in range(n):
        data = data + piece(S, S.choice('k%d' % i, PRE if i == n - 1 else PRE[:-1]), i)
    got, err = run_ops(Script(data))
    check_ops(S, data, got, err)


# ------------------------------------------------------------------------------------------------ S04
def canon(S, kind, i):
    """(item, expected bytes)"""
    if kind == 'op':
        o = S.choice('op%d' % i, list(Ops))
        return o, bytes([int(o)])
    if kind == 'someop':
        o = S.choice('op%d' % i, [Ops.OP_0, Ops.OP_1, Ops.OP_16, Ops.OP_1NEGATE, Ops.OP_DUP, Ops.OP_NOP10, Ops.OP_PUSHDATA1])
        return o, bytes([int(o)])
    if kind == 'int':
        n = S.int('n%d' % i, -(1 << 40), 1 << 40)
        return n, ref_push(ref_int_item(n))
    if kind == 'smallint':
        n = S.int('n%d' % i, -300, 300)
        return n, ref_push(ref_int_item(n))
    if kind == 'bytes':
        b = S.blob('b%d' % i, 0, 1 << 18)
        return b, ref_push(b)
    if kind == 'bytearray':
        b = S.blob('b%d' % i, 0, 1 << 18)
        return bytearray(b), ref_push(b)
    if kind == 'script':
        b = S.blob('b%d' % i, 0, 1 << 18)
        return Script(b), b
    if kind == 'bool':
        b = S.bool('f%d' % i)
        return (True, b'\x51') if b else (False, b'\0')
    raise AssertionError


KINDS4 = ('op', 'int', 'bytes', 'bytearray', 'script', 'bool')
KINDS2 = ('someop', 'smallint', 'bytes', 'script')


@prop('S04', cases=[dict(k=k) for k in KINDS4], bounds='any initial script up to 2^32 bytes, one appended item of each kind (every opcode, 41-bit numbers, data and scripts up to 2^18 bytes)')
def append(S, k):
    start = S.blob('start', 0, 1 << 32)
    s = Script(start)
    item, want = canon(S, k, 0)
    t = S.ok('appends', s.__lshift__, item)
    S.check(isinstance(t, Script), 'a script')
    S.check_eq(t.to_bytes(), start + want, 'old bytes then the item')
    S.check_eq(s.to_bytes(), start, 'original unchanged')
    S.check_eq(len(t), len(start) + len(want), 'length')
    S.check_eq(bytes(t), start + want, 'bytes')
    u = S.ok('push_many', s.push_many, [item])
    S.check_eq(u.to_bytes(), start + want, 'bulk append')
    S.check(u == t, 'equal')
    S.check_eq(s.to_bytes(), start, 'original still unchanged')


@prop('S04', cases=[dict(a=a, b=b) for a in KINDS2 for b in KINDS2], bounds='pairs and triples of appended items of each kind')
def append_many(S, a, b):
    start = S.bytes('start', 2)
    s = Script(start)
    i1, w1 = canon(S, a, 0)
    i2, w2 = canon(S, b, 1)
    t = s << i1 << i2
    S.check_eq(t.to_bytes(), start + w1 + w2, 'appended in order')
    S.check_eq(s.push_many([i1, i2]).to_bytes(), start + w1 + w2, 'bulk')
    S.check_eq(s.push_many(x for x in (i1, i2, i1)).to_bytes(), start + w1 + w2 + w1, 'bulk iterable')
    S.check_eq(s.push_many([]).to_bytes(), start, 'bulk of nothing')
    S.check_eq(s.to_bytes(), start, 'original unchanged')


@prop('S04', cases=[dict(k=k) for k in range(3)], bounds='scripts made from, and extended by, buffers of 3 symbolic bytes that change afterwards')
def buffers(S, k):
    d = S.bytes('d', 3)
    e = S.bytes('e', 3)
    buf = bytearray(d)
    if k == 0:
        s = Script(buf)
        want = d
    elif k == 1:
        s = Script(e) << buf
        want = e + bytes([3]) + d
    else:
        s = Script(e).push_many([buf, Ops.OP_DUP])
        want = e + bytes([3]) + d + b'\x76'
    h = hash(s)
    buf[0] = e[2]
    buf.append(1)
    S.check_eq(s.to_bytes(), want, 'bytes as they were')
    S.check(type(bytes(s)) is bytes, 'bytes object')
    S.check(type(s.to_bytes()) is bytes, 'bytes object')
    S.check_eq(len(s), len(want), 'length')
    S.check_eq(s.to_hex(), want.hex(), 'hex')
    S.check(s == Script(want), 'equal')
    S.check(hash(s) == h, 'same hash')
    S.check_eq((s << Ops.OP_1).to_bytes(), want + b'\x51', 'appending')


class _Odd:
    pass


@prop('S04', cases=[dict(k=k) for k in range(8)], bounds='items of eight other types after an arbitrary script')
def bad_items(S, k):
    start = S.bytes('start', 3)
    s = Script(start)
    bad = [None, 'ab', 1.5, [1], _Odd(), (b'a',), {}, memoryview(b'ab')][k]
    S.raises('rejects other types', TypeError, s.__lshift__, bad)
    S.raises('rejects other types in bulk', TypeError, s.push_many, [Ops.OP_DUP, bad])
    S.check_eq(s.to_bytes(), start, 'unchanged')


@prop('S04', cases=[dict(n=n) for n in (0, 1, 3)], bounds='hex, str, equality and hashing of scripts of 0, 1 and 3 bytes')
def views(S, n):
    d = S.bytes('d', n)
    e = S.bytes('e', n)
    s = Script(d)
    S.check_eq(s.to_hex(), d.hex(), 'hex')
    S.check_eq(str(s), d.hex(), 'text')
    S.check_eq(Script.from_hex(d.hex()).to_bytes(), d, 'from hex')
    S.check_eq(s == Script(e), d == e, 'equality')
    S.check_eq(s == e, d == e, 'equality with bytes')
    S.check_eq(len(s), n, 'length')
    if n:
        S.check(not (s == Script(d[:-1])), 'differs from a prefix')


# ------------------------------------------------------------------------------------------------ S05
def asm_roundtrip(S, script, label):
    text = S.ok(label + ' renders', Script(script).to_asm, False)
    S.observe('text', text)
    back = S.ok(label + ' parses', Script.from_asm, text)
    S.check_eq(back.to_bytes(), script, label + ' round trip')
    return text


NONPUSH = [o for o in Ops if o >= 0x61 or o == 0x50]


@prop('S05', cases=[dict(k=k) for k in ('op', 'num', 'data', 'data6', 'long')], bounds='single operations: every opcode; every 32-bit script number; data of 5, 6, 73, 76, 256 bytes',
      force_limit=400)
def asm_single(S, k):
    if k == 'op':
        o = S.choice('op', NONPUSH)
        t = asm_roundtrip(S, bytes([int(o)]), 'opcode')
        S.check_eq(t, o.name, 'opcode name')
    elif k == 'num':
        n = S.int('n', -2147483647, 2147483647)
        script = ref_push(ref_int_item(n))
        t = asm_roundtrip(S, script, 'number')
        S.check_eq(int(t), n, 'decimal text')
    else:
        n = {'data': 5, 'data6': 6}.get(k)
        if n is None:
            n = S.choice('n', [73, 76, 256])
        d = S.bytes('d', n) if n < 10 else b'\xab' + S.bytes('d', 2) + bytes(n - 3)
        h = d.hex()
        S.assume(not h.isdigit())
        t = asm_roundtrip(S, ref_push(d), 'data')
        S.check_eq(t, h, 'hex text')


@prop('S05', cases=[dict(n=2)], thorough=[dict(n=3)], bounds='sequences of 2 (thorough: 3) operations; opcodes from a list, two-byte numbers, 5-byte data')
def asm_sequences(S, n):
    script = b''
    for i in range(n):
        k = S.choice('k%d' % i, ['op', 'num', 'data', 'zero'])
        if k == 'op':
            script = script + bytes([int(S.choice('op%d' % i, [Ops.OP_DUP, Ops.OP_RESERVED, Ops.OP_NOP10, Ops.OP_CHECKSIG]))])
        elif k == 'num':
            script = script + ref_push(ref_int_item(S.int('n%d' % i, -999, 999)))
        elif k == 'zero':
            script = script + b'\0'
        else:
            script = script + b'\x05\xfe' + S.bytes('d%d' % i, 4)
    asm_roundtrip(S, script, 'sequence')


@prop('S05', cases=[dict(n=0, free=1), dict(n=1, free=1), dict(n=2, free=0), dict(n=3, free=0)], thorough=[dict(n=2, free=1), dict(n=4, free=0)],
      bounds='every script of 0..3 bytes (thorough: 4), the bytes before the last at most OP_DEPTH: rendering never raises and shows [error] exactly for truncated scripts',
      force_limit=400)
def asm_render(S, n, free):
    d = S.bytes('d', n)
    if not free:
        for i in range(n - 1):
            S.assume(d[i] <= 0x52 or d[i] == 0x74)
    t = S.ok('renders', Script(d).to_asm, S.flag('sighash'))
    ops, trunc = ref_ops(d)
    if trunc:
        S.check_eq(t, '[error]', 'truncated script')
        return
    words = t.split()
    S.check_eq(len(words), len(ops), 'one word per operation')
    for w, op in zip(words, ops):
        if isinstance(op, bytes):
            S.check_eq(w, str(item_to_int(op)), 'number word')
        elif op > 0xb9:
            S.check_eq(w, 'OP_INVALIDOPCODE' if op == 255 else 'OP_UNKNOWN', 'unknown opcode word')
        else:
            S.check(w.startswith('OP_'), 'opcode word')


NAMES = {name: int(v) for name, v in Ops.__members__.items()}


def is_hexdigits(w):
    for c in w:
        if c not in '0123456789abcdefABCDEF':
            return False
    return True


def ref_word(w):
    """bytes of a valid ASCII word or None"""
    if w.startswith('OP_'):
        return bytes([NAMES[w]]) if w in NAMES else None
    neg = w.startswith('-')
    body = w[1:] if neg else w
    if body and is_hexdigits(body) and body.isdigit():
        v = 0
        for c in body:
            v = v * 10 + (ord(c) - 48)
        if v <= 2147483647:
            return ref_push(ref_int_item(-v if neg else v))
    if not neg and len(w) % 2 == 0 and is_hexdigits(w):
        return ref_push(bytes([int(w[2 * i:2 * i + 2], 16) for i in range(len(w) // 2)]))
    return None


@prop('S05', cases=[dict(n=n) for n in range(1, 5)], thorough=[dict(n=5)], bounds='every word of 1..4 characters from ASCII plus 21 unusual code points', reach=('valid', 'malformed'))
def asm_words(S, n):
    w = S.str('w', n)
    for c in w:
        S.assume(not c.isspace())
    ok, r = S.attempt(Script.from_asm, w)
    S.check(ok or S.isa(r, ScriptError), 'only the script error')
    if w.isascii():
        want = ref_word(w)
        S.reach('valid' if want is not None else 'malformed')
        S.check_eq(ok, want is not None, 'accepted exactly when valid')
        if ok:
            S.check_eq(r.to_bytes(), want, 'meaning of the word')


@prop('S05', cases=[dict(n=n) for n in (1, 2)], bounds='three words (an opcode, a number, data) separated, preceded and followed by 1 or 2 white-space characters of 9 kinds, or by none at the ends')
def asm_spacing(S, n):
    words = (('OP_DUP', b'\x76'), ('17', b'\1\x11'), ('abcdef0123', b'\5\xab\xcd\xef\1\x23'))
    t = S.str('s0', n, WHITE) if S.flag('lead') else ''
    want = b''
    for i in range(3):
        t = t + words[i][0] + (S.str('s%d' % (i + 1), n, WHITE) if i < 2 else S.str('s3', n, WHITE) if S.flag('trail') else '')
        want = want + words[i][1]
    S.check_eq(S.ok('from words', Script.from_asm, t).to_bytes(), want, 'the words, however spaced')
    S.check_eq(S.ok('from spaces', Script.from_asm, S.str('only', n, WHITE)).to_bytes(), b'', 'no words')


WHITE = ' \t\n\r\x0b\x0c\x1c\u00a0\u2003'


@prop('S05', cases=[dict(n=n) for n in (9, 10, 11, 12)], bounds='decimal words of 9..12 digits, either sign (32-bit boundary)')
def asm_decimals(S, n):
    w = S.str('w', n, '0123456789')
    if S.flag('neg'):
        w = '-' + w
    ok, r = S.attempt(Script.from_asm, w)
    want = ref_word(w)
    S.check_eq(ok, want is not None, 'accepted exactly when valid')
    if ok:
        S.check_eq(r.to_bytes(), want, 'meaning of the word')
    else:
        S.check(S.isa(r, ScriptError), 'only the script error')


@prop('S05', bounds='decimal words of 4299..4302 digits, OP_ words with a changed character')
def asm_odd(S):
    k = S.choice('k', ['long', 'op', 'op+'])
    if k == 'long':
        n = S.choice('n', [4299, 4300, 4301, 4302])
        w = S.choice('sign', ['', '-']) + S.choice('d', ['1', '9']) * n
        ok, r = S.attempt(Script.from_asm, w)
        S.check(ok or S.isa(r, ScriptError), 'only the script error')
    else:
        name = S.choice('name', ['OP_DUP', 'OP_1', 'OP_CHECKSIG', 'OP_'])
        c = S.str('c', 1)
        S.assume(c.isascii() and not c.isspace())
        w = name[:-1] + c if k == 'op' else name + c
        ok, r = S.attempt(Script.from_asm, w)
        if w.startswith('OP_'):
            want = NAMES[w] if w in NAMES else None
            S.check_eq(ok, want is not None, 'accepted exactly when an opcode')
            if ok:
                S.check_eq(r.to_bytes(), bytes([want]), 'opcode byte')
                return
        S.check(ok or S.isa(r, ScriptError), 'only the script error')


# ------------------------------------------------------------------------------------------------ S07
def ref_strip(ops, trunc):
    out = []
    for op in ops:
        if isinstance(op, bytes):
            out.append(op)
        elif op == 0x61:
            pass
        elif op == 0x75 and out and isinstance(out[-1], bytes):
            out.pop()
        elif op == 0x6d and len(out) >= 2 and isinstance(out[-1], bytes) and isinstance(out[-2], bytes):
            out.pop()
            out.pop()
        else:
            out.append(op)
    if trunc:
        out.append(0)
    return out


def check_template(S, data):
    t, items = S.ok('template', Script(data).to_template)
    ops = ref_strip(*ref_ops(data))
    S.check_eq(t, bytes([0x4c if isinstance(o, bytes) else o for o in ops]), 'template')
    want = [o for o in ops if isinstance(o, bytes)]
    S.check_eq(len(items), len(want), 'number of items')
    for g, w in zip(items, want):
        S.check_eq(g, w, 'item')


@prop('S07', cases=[dict(n=n) for n in range(0, 5)], thorough=[dict(n=5), dict(n=6)], bounds='every script of 0..4 bytes (thorough: 6)')
def template_short(S, n):
    check_template(S, S.bytes('d', n))


@prop('S07', cases=[dict(n=5)], thorough=[dict(n=6)], bounds='every sequence of 5 (thorough: 6) no-ops, drops, double drops, pushes, opcodes; optionally truncated at the end')
def template_sequences(S, n):
    data = b''
    for i in range(n):
        k = S.choice('k%d' % i, ['nop', 'drop', '2drop', 'push', 'small', 'op'] if i < n - 1 else ['nop', 'drop', '2drop', 'push', 'op', 'trunc'])
        if k == 'nop':
            data = data + b'\x61'
        elif k == 'drop':
            data = data + b'\x75'
        elif k == '2drop':
            data = data + b'\x6d'
        elif k == 'push':
            data = data + b'\x02' + S.bytes('p%d' % i, 2)
        elif k == 'small':
            data = data + bytes([0x50 + 1 + i])
        elif k == 'op':
            o = S.int('o%d' % i, 0x62, 255)
            S.assume(o != 0x75 and o != 0x6d)
            data = data + bytes([o])
        else:
            data = data + b'\x4d\x05'
    check_template(S, data)


# ------------------------------------------------------------------------------------------------ S06
def ref_class(S, ops, coin):
    """(class, fields) following the standard templates"""
    def h20(x):
        return isinstance(x, bytes) and len(x) == 20
    i = 0
    while i < len(ops) and isinstance(ops[i], bytes):
        i += 1
    if i < len(ops) and ops[i] == 0x6a:
        return OP_RETURN_Output, ()
    if len(ops) == 5 and h20(ops[2]) and not isinstance(ops[0], bytes) and not isinstance(ops[1], bytes) and not isinstance(ops[3], bytes) \
            and not isinstance(ops[4], bytes) and ops[0] == 0x76 and ops[1] == 0xa9 and ops[3] == 0x88 and ops[4] == 0xac:
        return P2PKH_Address, (ops[2],)
    if len(ops) == 3 and h20(ops[1]) and not isinstance(ops[0], bytes) and not isinstance(ops[2], bytes) and ops[0] == 0xa9 and ops[2] == 0x87:
        return P2SH_Address, (ops[1],)
    if len(ops) == 2 and isinstance(ops[0], bytes) and not isinstance(ops[1], bytes) and ops[1] == 0xac:
        k = key_of(ops[0])
        if k is not None:
            return P2PK_Output, (k,)
    if len(ops) >= 4 and i == len(ops) - 1 and ops[i] == 0xae:
        keys = [key_of(o) for o in ops[1:-2]]
        n = item_to_int(ops[-2])
        m = item_to_int(ops[0])
        if all(k is not None for k in keys) and n == len(keys) and 1 <= m <= n:
            return P2MultiSig_Output, (m, keys)
    return Unknown_Output, ()


def key_of(b):
    try:
        return PublicKey.from_bytes(b)
    except ValueError:
        return None


def check_class(S, data, coin):
    script = Script(data) if isinstance(data, bytes) else data
    data = script.to_bytes()
    r = S.ok('classifies', classify_output_script, script, coin)
    cls, f = ref_class(S, ref_strip(*ref_ops(data)), coin)
    S.reach(cls.__name__)
    S.check(type(r) is cls, 'classified as ' + cls.__name__)
    if cls in (P2PKH_Address, P2SH_Address):
        S.check_eq(r.hash160(), f[0], 'hash')
        S.check(r.coin() is coin, 'coin')
    elif cls is P2PK_Output:
        S.check(r.public_key == f[0], 'key')
        S.check_eq(r.public_key.to_bytes(), f[0].to_bytes(), 'key bytes')
        S.check(r.to_address().coin() is coin, 'coin')
    elif cls is P2MultiSig_Output:
        S.check_eq(r.threshold, f[0], 'threshold')
        S.check_eq(len(r.public_keys), len(f[1]), 'key count')
        for a, b in zip(r.public_keys, f[1]):
            S.check_eq(a.to_bytes(), b.to_bytes(), 'keys in order')


def wrap(S, pieces):
    """insert a no-op or a dropped push somewhere"""
    k = S.choice('junk', ['none', 'nop', 'drop', '2drop'])
    if k != 'none':
        p = S.choice('at', range(len(pieces) + 1))
        pieces = pieces[:p] + [dict(nop=b'\x61', drop=b'\x02zz\x75', **{'2drop': b'\x51\x02ab\x6d'})[k]] + pieces[p:]
    return b''.join(pieces)


EC = 'libsecp256k1 follows its documented contract (engine/ec.py)'


@prop('S06', bounds='P2PKH and P2SH scripts with data of 0, 19, 20 or 21 symbolic bytes pushed in any of three encodings, with no-ops or dropped pushes anywhere; two coins',
      reach=('P2PKH_Address', 'P2SH_Address', 'Unknown_Output'))
def hashes(S):
    coin = S.choice('coin', (Bitcoin, BitcoinTestnet))
    n = S.choice('n', [20, 19, 21, 0])
    h = S.bytes('h', n)
    e = S.choice('enc', ['direct', 'pd1', 'pd2'])
    d = {'direct': bytes([n]), 'pd1': b'\x4c' + bytes([n]), 'pd2': b'\x4d' + bytes([n, 0])}[e] + h
    if S.flag('pkh'):
        p = [b'\x76', b'\xa9', d, b'\x88', b'\xac']
    else:
        p = [b'\xa9', d, b'\x87']
    check_class(S, wrap(S, p), coin)


@prop('S06', bounds='near misses of P2PKH/P2SH/P2PK: one opcode replaced by any byte above OP_16, or removed, or one added at the end', reach=('Unknown_Output',))
def near(S):
    h = S.bytes('h', 20)
    k = S.choice('k', ['pkh', 'sh', 'pk'])
    p = {'pkh': [b'\x76', b'\xa9', b'\x14' + h, b'\x88', b'\xac'], 'sh': [b'\xa9', b'\x14' + h, b'\x87'],
         'pk': [b'\x21' + KEYC, b'\xac']}[k]
    m = S.choice('m', ['replace', 'remove', 'add'])
    at = S.choice('at', range(len(p)))
    op = S.int('op', 0x50, 255)
    if m == 'replace':
        p = p[:at] + [bytes([op])] + p[at + 1:]
    elif m == 'remove':
        p = p[:at] + p[at + 1:]
    else:
        p = p[:at] + [bytes([op])] + p[at:] if S.flag('before') else p + [bytes([op])]
    check_class(S, b''.join(p), Bitcoin)


KEYC = bytes.fromhex('0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798')
KEYU = bytes.fromhex('0479be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798'
                     '483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8')


@prop('S06', cases=[dict(n=n) for n in (33, 65, 0, 1, 32, 34, 64, 66)], bounds='P2PK scripts with any data of the stated sizes', assumes=[EC], reach=())
def p2pk(S, n):
    coin = S.choice('coin', (Bitcoin, BitcoinTestnet))
    d = S.bytes('k', n) if n in (0, 1) else S.bytes('t', 1) + S.bytes('x', min(n - 1, 32), word='big') + (S.bytes('y', n - 33, word='big') if n > 33 else b'')
    check_class(S, ref_push(d) + b'\xac', coin)


@prop('S06', cases=[dict(n=n) for n in range(0, 4)], thorough=[dict(n=4), dict(n=5)],
      bounds='bare multisig with 0..3 keys (valid, or of any 33 bytes), any threshold and count from -1 to 17 or non-minimal numbers', assumes=[EC])
def multisig(S, n):
    keys = []
    for i in range(n):
        k = S.choice('key%d' % i, ['c', 'u', 'any'] if i == 0 else ['c', 'any'] if i == 1 else ['u'])
        keys.append(KEYC if k == 'c' else KEYU if k == 'u' else S.bytes('t%d' % i, 1) + S.bytes('x%d' % i, 32, word='big'))
    m = S.int('m', -1, 17)
    c = S.int('c', -1, 17)
    odd = S.choice('odd', ['minimal', 'm', 'c'])
    pm = b'\x02' + bytes([m % 128, 0]) if odd == 'm' else ref_push(ref_int_item(m))
    pc = b'\x02' + bytes([c % 128, 0]) if odd == 'c' else ref_push(ref_int_item(c))
    tail = S.choice('tail', [b'\xae', b'\xae\x61', b'\xaf', b'\xae\xac'])
    check_class(S, pm + b''.join(ref_push(k) for k in keys) + pc + tail, Bitcoin)


@prop('S06', bounds='one P2PKH, P2SH, P2PK (any 33 bytes, or a fixed uncompressed key) or multisig script classified for each of four coins in any of two orders, then for the first again and another script between', assumes=[EC])
def every_coin(S):
    k = S.choice('k', ['pkh', 'sh', 'pk', 'pku', 'multi'])
    h = S.bytes('h', 20)
    key = S.bytes('t', 1) + S.bytes('x', 32, word='big') if k == 'pk' else KEYC
    data = {'pkh': b'\x76\xa9\x14' + h + b'\x88\xac', 'sh': b'\xa9\x14' + h + b'\x87', 'pk': b'\x21' + key + b'\xac',
            'pku': b'\x41' + KEYU + b'\xac', 'multi': b'\x51\x21' + key + b'\x51\xae'}[k]
    coins = (BitcoinTestnet, BitcoinRegtest, Bitcoin, BitcoinScalingTestnet)
    if S.flag('backwards'):
        coins = coins[::-1]
    for coin in coins:
        check_class(S, data, coin)
    other = S.bytes('o', 20)
    check_class(S, b'\x76\xa9\x14' + other + b'\x88\xac', coins[1])
    script = Script(data)
    for coin in coins[:2] + coins[:1]:
        check_class(S, script, coin)
        r = S.ok('classifies', classify_output_script, script, coin)
        if k in ('pkh', 'sh'):
            S.check(r.coin() is coin, 'coin')
            S.check_eq(r.to_script_bytes(), data, 'its script')


@prop('S06', cases=[dict(n=n) for n in range(0, 4)], thorough=[dict(n=4), dict(n=5)], bounds='every script of 0..3 bytes (thorough: 5)')
def arbitrary(S, n):
    check_class(S, S.bytes('d', n), Bitcoin)


@prop('S06', bounds='OP_RETURN after 0..2 pushes and before any tail of up to 2 bytes or a truncated push', reach=('OP_RETURN_Output',))
def opreturn(S):
    n = S.choice('n', [0, 1, 2])
    p = [b'\x02' + S.bytes('p%d' % i, 2) for i in range(n)] + [b'\x6a', S.bytes('tail', S.choice('m', [0, 1, 2]))]
    check_class(S, b''.join(p), Bitcoin)
