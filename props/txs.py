"""T01-T05, J01: transactions."""
import datetime
from io import BytesIO
from struct import error as struct_error

from bitcoinx import Tx, TxInput, TxOutput, Script, SigHash, double_sha256, Bitcoin, BitcoinTestnet, base58_encode_check
from bitcoinx.tx import locktime_description
from bitcoinx.consts import JSONFlags
from engine.reg import prop
from props.keys import der_read

HASH = 'SHA-256 is an arbitrary function (equal inputs give equal outputs)'
EC = 'libsecp256k1 follows its documented contract (engine/ec.py)'


def le(v, k):
    return bytes([(v >> 8 * i) & 255 for i in range(k)])


def les(v, k):
    """two's complement"""
    return le(v + (1 << 8 * k) if v < 0 else v, k)


def cs(n):
    if n <= 252:
        return le(n, 1)
    if n <= 0xffff:
        return b'\xfd' + le(n, 2)
    if n <= 0xffffffff:
        return b'\xfe' + le(n, 4)
    return b'\xff' + le(n, 8)


def mk_in(S, i, smax):
    return (S.bytes('prev%d' % i, 32, word='little'), S.int('idx%d' % i, 0, (1 << 32) - 1), S.blob('sig%d' % i, 0, smax),
            S.int('seq%d' % i, 0, (1 << 32) - 1))


def mk_out(S, i, smax):
    return S.int('val%d' % i, -(1 << 63), (1 << 63) - 1), S.blob('pk%d' % i, 0, smax)


def wire_in(t):
    return t[0] + le(t[1], 4) + cs(len(t[2])) + t[2] + le(t[3], 4)


def wire_out(t):
    return les(t[0], 8) + cs(len(t[1])) + t[1]


def mk_tx(S, nin, nout, smax):
    ins = [mk_in(S, i, smax) for i in range(nin)]
    outs = [mk_out(S, i, smax) for i in range(nout)]
    version = S.int('version', -(1 << 31), (1 << 31) - 1)
    locktime = S.int('locktime', 0, (1 << 32) - 1)
    tx = Tx(version, [TxInput(a, b, Script(c), d) for a, b, c, d in ins], [TxOutput(v, Script(s)) for v, s in outs], locktime)
    wire = les(version, 4) + cs(nin)
    for t in ins:
        wire = wire + wire_in(t)
    wire = wire + cs(nout)
    for t in outs:
        wire = wire + wire_out(t)
    wire = wire + le(locktime, 4)
    return tx, wire, ins, outs, version, locktime


def same_in(S, a, t, label):
    S.check_eq(a.prev_hash, t[0], label + ' prev_hash')
    S.check_eq(a.prev_idx, t[1], label + ' prev_idx')
    S.check_eq(bytes(a.script_sig), t[2], label + ' script')
    S.check_eq(a.sequence, t[3], label + ' sequence')


def same_out(S, a, t, label):
    S.check_eq(a.value, t[0], label + ' value')
    S.check_eq(bytes(a.script_pubkey), t[1], label + ' script')


def same_tx(S, tx, ins, outs, version, locktime):
    S.check_eq(tx.version, version, 'version')
    S.check_eq(tx.locktime, locktime, 'locktime')
    S.check_eq(len(tx.inputs), len(ins), 'input count')
    S.check_eq(len(tx.outputs), len(outs), 'output count')
    for a, t in zip(tx.inputs, ins):
        same_in(S, a, t, 'input')
    for a, t in zip(tx.outputs, outs):
        same_out(S, a, t, 'output')


SHAPES = [dict(nin=a, nout=b, smax=m) for a, b, m in ((0, 0, 1), (1, 0, 9), (0, 1, 9), (1, 1, 1 << 33), (2, 1, 300), (1, 2, 300),
                                                       (2, 2, 260), (3, 3, 100))]


@prop('T01', cases=SHAPES, thorough=[dict(nin=3, nout=2, smax=70000), dict(nin=4, nout=4, smax=252)],
      bounds='0..3 inputs and outputs, every field value, scripts of every length up to the case\'s smax (2^33 for 1x1)',
      assumes=[HASH], reach=('parsed',))
def roundtrip(S, nin, nout, smax):
    tx, wire, ins, outs, version, locktime = mk_tx(S, nin, nout, smax)
    raw = tx.to_bytes()
    S.check_eq(raw, wire, 'wire format')
    rest = S.bytes('rest', 2)
    st = BytesIO(raw + rest)
    tx2 = S.ok('parses', Tx.read, st.read)
    S.reach('parsed')
    same_tx(S, tx2, ins, outs, version, locktime)
    S.check_eq(st.read(), rest, 'consumes all its bytes')
    tx3 = S.ok('parses from bytes', Tx.from_bytes, raw)
    same_tx(S, tx3, ins, outs, version, locktime)
    S.check(tx3 == tx, 'equal transaction')
    S.check_eq(tx3.to_bytes(), raw, 're-serializes')
    S.check_eq(tx.hash(), double_sha256(wire), 'hash')


@prop('T01', cases=[dict(nin=1, nout=1, n=n) for n in (0, 1, 5)] + [dict(nin=2, nout=2, n=2)],
      bounds='hex forms: 1..2 inputs/outputs with scripts of the stated byte length', assumes=[HASH])
def hexforms(S, nin, nout, n):
    ins = [(S.bytes('prev%d' % i, 32), S.int('idx%d' % i, 0, (1 << 32) - 1), S.bytes('sig%d' % i, n), S.int('seq%d' % i, 0, (1 << 32) - 1))
           for i in range(nin)]
    outs = [(S.int('val%d' % i, -(1 << 63), (1 << 63) - 1), S.bytes('pk%d' % i, n)) for i in range(nout)]
    version = S.int('version', -(1 << 31), (1 << 31) - 1)
    locktime = S.int('locktime', 0, (1 << 32) - 1)
    tx = Tx(version, [TxInput(a, b, Script(c), d) for a, b, c, d in ins], [TxOutput(v, Script(s)) for v, s in outs], locktime)
    h = tx.to_hex()
    S.check_eq(bytes.fromhex(h), tx.to_bytes(), 'hex of the wire bytes')
    same_tx(S, Tx.from_hex(h), ins, outs, version, locktime)
    hh = double_sha256(tx.to_bytes())
    S.check_eq(tx.hex_hash(), bytes(reversed(hh)).hex(), 'displayed hash')
    for x, t in zip(tx.inputs, ins):
        S.check_eq(x.to_bytes(), wire_in(t), 'input wire format')
        same_in(S, TxInput.from_hex(x.to_hex()), t, 'input hex')
        same_in(S, TxInput.from_bytes(x.to_bytes()), t, 'input bytes')
        S.check_eq(x.prevout_bytes(), t[0] + le(t[1], 4), 'prevout bytes')
    for x, t in zip(tx.outputs, outs):
        S.check_eq(x.to_bytes(), wire_out(t), 'output wire format')
        same_out(S, TxOutput.from_hex(x.to_hex()), t, 'output hex')
        same_out(S, TxOutput.from_bytes(x.to_bytes()), t, 'output bytes')


@prop('T01', cases=[dict(n=n) for n in (252, 253)], bounds='252 and 253 outputs (count width boundary), empty scripts')
def many(S, n):
    vals = [S.int('v%d' % i, 0, (1 << 63) - 1) for i in range(n)]
    tx = Tx(1, [], [TxOutput(v, Script(b'')) for v in vals], 0)
    raw = tx.to_bytes()
    wire = le(1, 4) + b'\0' + cs(n)
    for v in vals:
        wire = wire + le(v, 8) + b'\0'
    wire = wire + bytes(4)
    S.check_eq(raw, wire, 'wire format')
    tx2 = Tx.from_bytes(raw)
    S.check_eq([o.value for o in tx2.outputs], vals, 'values')


# ------------------------------------------------------------------------------------------------ T02
def ref_varint(data, pos):
    """(value, size, canonical) or None"""
    if pos >= len(data):
        return None
    b = data[pos]
    if b < 253:
        return b, 1
    k = 2 if b == 253 else 4 if b == 254 else 8
    if pos + 1 + k > len(data):
        return None
    v = 0
    for i in range(k):
        v = v + data[pos + 1 + i] * 256 ** i
    return v, 1 + k


def norm_bytes(S, data, pos):
    """canonical form of the varbytes at pos and the next position; the parse must have succeeded"""
    v, k = ref_varint(data, pos)
    S.check(pos + k + v <= len(data), 'length within buffer')
    return cs(v) + data[pos + k:pos + k + v], pos + k + v


@prop('T02', cases=[dict(n=n) for n in range(0, 16)], thorough=[dict(n=n) for n in (20, 24)],
      bounds='every buffer of 0..15 bytes parsed as an output', reach=('raised or parsed',))
def parse_output(S, n):
    data = S.bytes('d', n)
    st = BytesIO(data)
    ok, r = S.attempt(TxOutput.read, st.read)
    S.reach('raised or parsed')
    if not ok:
        S.check(S.isa(r, struct_error), 'only struct errors')
        v = ref_varint(data, 8) if n > 8 else None
        S.check(v is None or 8 + v[0] + v[1] > n, 'raises only for incomplete data')
        return
    body, end = norm_bytes(S, data, 8)
    S.check_eq(r.to_bytes(), data[:8] + body, 'canonical re-serialization')
    S.check_eq(st.read(), data[end:], 'consumed bytes')


@prop('T02', cases=[dict(n=n) for n in (0, 1, 31, 32, 35, 36, 37, 38, 39, 40, 41, 42, 45, 49, 50)],
      bounds='every buffer of the stated lengths (0..50) parsed as an input')
def parse_input(S, n):
    data = S.bytes('d', n)
    st = BytesIO(data)
    ok, r = S.attempt(TxInput.read, st.read)
    if not ok:
        S.check(S.isa(r, struct_error), 'only struct errors')
        v = ref_varint(data, 36) if n > 36 else None
        S.check(v is None or 40 + v[0] + v[1] > n, 'raises only for incomplete data')
        return
    body, end = norm_bytes(S, data, 36)
    S.check(end + 4 <= n, 'sequence within buffer')
    S.check_eq(r.to_bytes(), data[:36] + body + data[end:end + 4], 'canonical re-serialization')
    S.check_eq(st.read(), data[end + 4:], 'consumed bytes')


@prop('T02', cases=[dict(n=n) for n in range(0, 13)] + [dict(n=n) for n in (19, 20, 21)],
      thorough=[dict(n=n) for n in (14, 16, 18, 22, 24)],
      bounds='every buffer of 0..12 and 19..21 bytes parsed as a transaction')
def parse_tx(S, n):
    data = S.bytes('d', n)
    st = BytesIO(data)
    ok, r = S.attempt(Tx.read, st.read)
    if not ok:
        S.check(S.isa(r, struct_error), 'only struct errors')
        return
    pos = 4
    out = data[:4]
    v, k = ref_varint(data, pos)
    out = out + cs(v)
    pos += k
    S.check_eq(len(r.inputs), v, 'input count')
    for _ in range(len(r.inputs)):
        out = out + data[pos:pos + 36]
        body, pos = norm_bytes(S, data, pos + 36)
        out = out + body + data[pos:pos + 4]
        pos += 4
    v, k = ref_varint(data, pos)
    out = out + cs(v)
    pos += k
    S.check_eq(len(r.outputs), v, 'output count')
    for _ in range(len(r.outputs)):
        out = out + data[pos:pos + 8]
        body, pos = norm_bytes(S, data, pos + 8)
        out = out + body
    out = out + data[pos:pos + 4]
    S.check(pos + 4 <= n, 'locktime within buffer')
    S.check_eq(r.to_bytes(), out, 'canonical re-serialization')
    S.check_eq(st.read(), data[pos + 4:], 'consumed bytes')


@prop('T02', cases=[dict(nin=1, nout=1, smax=1 << 17), dict(nin=2, nout=1, smax=300), dict(nin=1, nout=2, smax=300),
                    dict(nin=0, nout=1, smax=9), dict(nin=2, nout=2, smax=100)],
      bounds='serializations of transactions with up to 2 inputs and outputs, cut at every point', reach=('cut',))
def prefix(S, nin, nout, smax):
    tx, wire, ins, outs, version, locktime = mk_tx(S, nin, nout, smax)
    raw = tx.to_bytes()
    cut = S.int('cut', 0, 1 << 20)
    S.assume(cut < len(raw))
    ok, r = S.attempt(Tx.from_bytes, raw[:cut])
    S.reach('cut')
    S.check(not ok and S.isa(r, struct_error), 'a proper prefix raises a struct error')


@prop('T02', bounds='inputs and outputs with scripts up to 2^17 bytes, cut at every point', reach=('in', 'out'))
def prefix_parts(S):
    if S.flag('input'):
        t = mk_in(S, 0, 1 << 17)
        raw = TxInput(t[0], t[1], Script(t[2]), t[3]).to_bytes()
        f = TxInput.from_bytes
        S.reach('in')
    else:
        t = mk_out(S, 0, 1 << 17)
        raw = TxOutput(t[0], Script(t[1])).to_bytes()
        f = TxOutput.from_bytes
        S.reach('out')
    cut = S.int('cut', 0, 1 << 18)
    S.assume(cut < len(raw))
    ok, r = S.attempt(f, raw[:cut])
    S.check(not ok and S.isa(r, struct_error), 'a proper prefix raises a struct error')


# ------------------------------------------------------------------------------------------------ T03
@prop('T03', cases=[dict(nin=a, nout=b, smax=m) for a, b, m in ((0, 0, 1), (1, 0, 1 << 33), (0, 1, 1 << 33), (1, 1, 1 << 33), (2, 1, 1 << 17),
                                                                 (1, 2, 1 << 17), (2, 2, 300))],
      thorough=[dict(nin=3, nout=2, smax=70000)],
      bounds='0..2 inputs and outputs, scripts of every length up to smax (2^33 for one of each), all values')
def sizes(S, nin, nout, smax):
    tx, wire, ins, outs, version, locktime = mk_tx(S, nin, nout, smax)
    for x in tx.inputs + tx.outputs:
        S.check_eq(x.size(), len(x.to_bytes()), 'size of a part')
    S.check_eq(tx.size(), len(tx.to_bytes()), 'size of the transaction')
    S.check_eq(Tx.size_io(tx.inputs, tx.outputs), len(wire), 'size from parts')
    total = 0
    for v, s in outs:
        total = total + v
    S.check_eq(tx.total_output_value(), total, 'total output value')


@prop('T03', cases=[dict(n=n, m=m) for n, m in ((252, 0), (253, 0), (0, 252), (0, 253), (255, 254), (256, 257))],
      thorough=[dict(n=65535, m=0), dict(n=65536, m=0), dict(n=0, m=65535), dict(n=0, m=65536)],
      bounds='0..257 inputs/outputs around the count-width boundary; one script length symbolic')
def counts(S, n, m):
    data = S.blob('s', 0, 1 << 17)
    i = TxInput(bytes(32), 0, Script(b''), 0)
    o = TxOutput(S.int('v', 0, 1 << 62), Script(b''))
    ins = [i] * n
    outs = [o] * m
    if n:
        ins[0] = TxInput(bytes(32), 0, Script(data), 0)
    else:
        outs[0] = TxOutput(0, Script(data))
    tx = Tx(1, ins, outs, 0)
    S.check_eq(tx.total_output_value(), o.value * (m if n else m - 1), 'total output value')
    S.check_eq(tx.size(), len(tx.to_bytes()), 'size of the transaction')
    S.check_eq(Tx.size_io(ins, outs), len(tx.to_bytes()), 'size from parts')


# ------------------------------------------------------------------------------------------------ T04
def ref_preimage(tx_ins, tx_outs, version, locktime, idx, value, code, sighash):
    z = bytes(32)
    base = sighash & 0x1f
    acp = (sighash & 0x80) != 0
    single = base == 3
    none = base == 2
    hp = hs = ho = z
    if not acp:
        p = b''
        for t in tx_ins:
            p = p + t[0] + le(t[1], 4)
        hp = double_sha256(p)
        if not single and not none:
            p = b''
            for t in tx_ins:
                p = p + le(t[3], 4)
            hs = double_sha256(p)
    if not single and not none:
        p = b''
        for t in tx_outs:
            p = p + wire_out(t)
        ho = double_sha256(p)
    elif single and idx < len(tx_outs):
        ho = double_sha256(wire_out(tx_outs[idx]))
    t = tx_ins[idx]
    return (les(version, 4) + hp + hs + t[0] + le(t[1], 4) + cs(len(code)) + code + le(value, 8) + le(t[3], 4) + ho
            + le(locktime, 4) + le(sighash, 4))


@prop('T04', cases=[dict(nin=a, nout=b, idx=i, m=m) for a, b, m in ((1, 0, 9), (1, 1, 9), (2, 1, 300), (2, 2, 9), (3, 2, 9), (2, 3, 9))
                    for i in range(a)], thorough=[dict(nin=3, nout=4, idx=i, m=300) for i in range(3)],
      bounds='1..3 inputs, 0..3 outputs, every input index, all 256 sighash bytes, all field values, script code of 0..m bytes',
      assumes=[HASH], reach=('acp', 'single', 'none', 'all'))
def sighash(S, nin, nout, idx, m):
    tx, wire, ins, outs, version, locktime = mk_tx(S, nin, nout, 9)
    value = S.int('value', 0, (1 << 63) - 1)
    code = S.blob('code', 0, m)
    sh = S.int('sighash', 0, 255)
    r = S.ok('signature hash', tx.signature_hash, idx, value, Script(code), sighash=SigHash(sh))
    if sh >= 128:
        S.reach('acp')
    b = sh & 31
    if b == 3:
        S.reach('single')
    elif b == 2:
        S.reach('none')
    else:
        S.reach('all')
    S.check_eq(r, double_sha256(ref_preimage(ins, outs, version, locktime, idx, value, code, sh)), 'double SHA-256 of the specified preimage')
    S.observe('r', len(r))


@prop('T04', cases=[dict(nin=2, nout=1)], bounds='2 inputs, 1 output; default sighash; arbitrary bad index, negative value, untyped sighash',
      assumes=[HASH])
def sighash_args(S, nin, nout):
    tx, wire, ins, outs, version, locktime = mk_tx(S, nin, nout, 9)
    code = S.blob('code', 0, 9)
    idx = S.int('idx', -5, 5)
    value = S.int('value', -(1 << 64), (1 << 63) - 1)
    kind = S.choice('kind', ['default', 'int', 'none'])
    if kind == 'int':
        sh = S.int('sh', 0, 255)
        ok, r = S.attempt(tx.signature_hash, idx, value, Script(code), sighash=sh)
    elif kind == 'none':
        ok, r = S.attempt(tx.signature_hash, idx, value, Script(code), sighash=None)
    else:
        ok, r = S.attempt(tx.signature_hash, idx, value, Script(code))
    if not 0 <= idx < nin:
        S.check(not ok and S.isa(r, IndexError), 'bad index raises')
    elif value < 0:
        S.check(not ok and S.isa(r, ValueError), 'negative value raises')
    elif kind == 'int':
        S.check(not ok and S.isa(r, TypeError), 'untyped sighash raises')
    else:
        S.check(ok, 'default sighash')
        if idx == 0:
            S.check_eq(r, double_sha256(ref_preimage(ins, outs, version, locktime, 0, value, code, 0x41)), 'default is ALL|FORKID')
        else:
            S.check_eq(r, double_sha256(ref_preimage(ins, outs, version, locktime, 1, value, code, 0x41)), 'default is ALL|FORKID')


# ------------------------------------------------------------------------------------------------ T05
@prop('T05', cases=[dict(n=n) for n in range(0, 5)], bounds='0..4 inputs; all 32-bit locktimes and sequences; heights and times 0..2^40')
def final(S, n):
    seqs = [S.int('seq%d' % i, 0, (1 << 32) - 1) for i in range(n)]
    lt = S.int('locktime', 0, (1 << 32) - 1)
    height = S.int('height', 0, 1 << 40)
    ts = S.int('timestamp', 0, 1 << 40)
    tx = Tx(1, [TxInput(bytes(32), 0, Script(b''), s) for s in seqs], [], lt)
    r = tx.is_final_for_block(height, ts)
    S.check(isinstance(r, bool), 'a boolean')
    lim = height if lt < 500000000 else ts
    want = True
    if lt != 0 and lt >= lim:
        for s in seqs:
            if s != 0xffffffff:
                want = False
    S.check_eq(bool(r), want, 'finality')
    allf = True
    for s, i in zip(seqs, tx.inputs):
        S.check_eq(bool(i.is_final()), s == 0xffffffff, 'input finality')
        if s != 0xffffffff:
            allf = False
    S.check_eq(bool(tx.are_inputs_final()), allf, 'inputs final')


@prop('T05', bounds='all 32-bit locktimes', assumes=['the text of a UTC time is a function of the timestamp'], reach=('any block', 'height', 'time'))
def meaning(S):
    lt = S.int('locktime', 0, (1 << 32) - 1)
    m = S.ok('describes', locktime_description, lt)
    if lt == 0:
        S.reach('any block')
        S.check_eq(m, 'valid in any block', 'no locktime')
    elif lt < 500000000:
        S.reach('height')
        S.check_eq(m, 'valid in blocks with height greater than ' + format(lt, ',d'), 'height locktime')
    else:
        S.reach('time')
        S.check_eq(m, 'valid in blocks with MTP greater than ' + datetime.datetime.utcfromtimestamp(lt).isoformat(' ') + ' UTC', 'time locktime')


@prop('T05', cases=[dict(n=n) for n in (1, 2)], bounds='1..2 inputs, all prevouts', reach=('yes', 'no'))
def coinbase(S, n):
    prev = [S.bytes('h%d' % i, 32) for i in range(n)]
    idx = [S.int('i%d' % i, 0, (1 << 32) - 1) for i in range(n)]
    tx = Tx(1, [TxInput(h, i, Script(b''), 0) for h, i in zip(prev, idx)], [], 0)
    for k in range(n):
        want = idx[k] == 0xffffffff and int.from_bytes(prev[k], 'little') == 0
        S.check_eq(bool(tx.inputs[k].is_coinbase()), want, 'input is a coinbase')
    want = idx[0] == 0xffffffff and int.from_bytes(prev[0], 'little') == 0
    got = tx.is_coinbase()
    S.check_eq(bool(got), want, 'transaction is a coinbase')
    S.reach('yes' if want else 'no')


# ------------------------------------------------------------------------------------------------ J01
KINDS = ('p2pkh', 'p2sh', 'p2pk', 'p2pku', 'opreturn', 'multisig', 'unknown')
KEYC = bytes.fromhex('0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798')
KEYU = bytes.fromhex('0479be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798'
                     '483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8')
COINS = (Bitcoin, BitcoinTestnet)


def h160(b):
    import hashlib
    x = hashlib.new('ripemd160')
    x.update(hashlib.sha256(b).digest())
    return x.digest()


def out_script(S, kind, name, coin):
    """(script bytes, asm, extra entries when classified)"""
    h = bytes(range(100, 118)) + (S.bytes(name, 2) if name else b'ab')
    if kind == 'p2pkh':
        return (b'\x76\xa9\x14' + h + b'\x88\xac', 'OP_DUP OP_HASH160 ' + h.hex() + ' OP_EQUALVERIFY OP_CHECKSIG',
                dict(type='pubkeyhash', address=base58_encode_check(bytes([coin.P2PKH_verbyte]) + h)))
    if kind == 'p2sh':
        return (b'\xa9\x14' + h + b'\x87', 'OP_HASH160 ' + h.hex() + ' OP_EQUAL',
                dict(type='scripthash', address=base58_encode_check(bytes([coin.P2SH_verbyte]) + h)))
    if kind in ('p2pk', 'p2pku'):
        k = KEYC if kind == 'p2pk' else KEYU
        return (bytes([len(k)]) + k + b'\xac', k.hex() + ' OP_CHECKSIG',
                dict(type='pubkey', pubkey=k.hex(), address=base58_encode_check(bytes([coin.P2PKH_verbyte]) + h160(k))))
    if kind == 'opreturn':
        return b'\x6a\x14' + h, 'OP_RETURN ' + h.hex(), dict(type='op_return')
    if kind == 'multisig':
        return (b'\x51\x21' + KEYC + b'\x41' + KEYU + b'\x52\xae', '1 ' + KEYC.hex() + ' ' + KEYU.hex() + ' 2 OP_CHECKMULTISIG',
                dict(type='multisig'))
    return b'\x14' + h + b'\xae', h.hex() + ' OP_CHECKMULTISIG', dict(type='unknown')


def same_json(S, got, want, label):
    S.check(isinstance(got, dict), label + ' is a dictionary')
    S.check_eq(sorted(got), sorted(want), label + ' entries')
    for k in want:
        S.check_eq(got[k], want[k], label + ' ' + k)


def ref_out_json(t, asm, extra, flags, index):
    script = dict(asm=asm, hex=t[1].hex())
    if flags & 16:
        script.update(extra)
    want = dict(value=t[0], script=script)
    if flags & 2 and index is not None:
        want['nOutput'] = index
    return want


def ref_in_json(t, asm, flags, index):
    want = dict(hash=t[0].hex(), idx=t[1], script=dict(asm=asm, hex=t[2].hex()), sequence=t[3])
    if flags & 1 and index is not None:
        want['nInput'] = index
    return want


@prop('J01', cases=[dict(k=k) for k in KINDS], bounds='one output of each script kind; all 64 flag combinations; all values; mainnet and testnet; '
      'with and without index; two free script bytes', assumes=[HASH])
def out_json(S, k):
    coin = S.choice('coin', COINS)
    flags = S.int('flags', 0, 63)
    script, asm, extra = out_script(S, k, 'h', coin)
    v = S.int('v', -(1 << 63), (1 << 63) - 1)
    idx = S.int('idx', 0, 1 << 40) if S.flag('index') else None
    got = S.ok('renders', TxOutput(v, Script(script)).to_json, JSONFlags(flags), coin, idx)
    want = ref_out_json((v, script), asm, extra, flags, idx)
    same_json(S, got['script'], want['script'], 'script')
    same_json(S, got, want, 'output')


@prop('J01', cases=[dict(cb=c) for c in (0, 1, 2)], bounds='inputs with any prevout, sequence and a pushed 20-byte item, coinbase and not; all 64 flags', reach=())
def in_json(S, cb):
    flags = S.int('flags', 0, 63)
    d = S.bytes('d', 20)
    if cb:
        d = b'A' * 10 + bytes([65 + S.int('letter', 0, 25)]) + b'A' * 9
    script = b'\x14' + d
    prev = S.bytes('prev', 32, word='little') if cb != 1 else bytes(32)
    idx = S.int('idx', 0, 0xffffffff) if cb != 1 else 0xffffffff
    seq = S.int('seq', 0, 0xffffffff)
    index = S.int('index', 0, 1 << 40) if S.flag('indexed') else None
    if not cb:
        S.assume(d[0] != 0x30)
    i = TxInput(prev, idx, Script(script), seq)
    got = S.ok('renders', i.to_json, JSONFlags(flags), index)
    if idx == 0xffffffff and int.from_bytes(prev, 'little') == 0:
        S.reach('coinbase')
        want = dict(coinbase=script.hex(), text='\x14' + d.decode(), sequence=seq) if cb else None
        if cb == 0:
            S.check_eq(got['coinbase'], script.hex(), 'coinbase script')
            S.check_eq(got['sequence'], seq, 'coinbase sequence')
            return
        if flags & 1 and index is not None:
            want['nInput'] = index
    else:
        want = ref_in_json((prev, idx, script, seq), d.hex(), flags, index)
    same_json(S, got, want, 'input')


TEXTS = (
    (b'\xc3\xa9', b'', '\xe9', ''),
    (b'\xe4\xb8\xad', b'\xf0\x9f\x98\x80', '\u4e2d', '\U0001f600'),
    (b'\xff', b'\xc3', '\ufffd', '\ufffd'),
    (b'\x80\x80', b'\xe4\xb8', '\ufffd\ufffd', '\ufffd'),
    (b'\xef\xbf\xbd\x00\r\n', b'\xed\xa0\x80', '\ufffd\x00\r\n', '\ufffd\ufffd\ufffd'),
)


@prop('J01', cases=[dict(n=n) for n in range(len(TEXTS))],
      bounds='coinbase scripts with characters of 2, 3 and 4 bytes and broken ones around any ASCII character; any sequence')
def coinbase_text(S, n):
    a, b, ta, tb = TEXTS[n]
    x = S.int('x', 0, 127)
    seq = S.int('seq', 0, 0xffffffff)
    script = a + bytes([x]) + b
    got = S.ok('renders', TxInput(bytes(32), 0xffffffff, Script(script), seq).to_json, JSONFlags(S.choice('flags', (0, 1, 32, 63))))
    S.check_eq(got['text'], ta + chr(x) + tb, 'text')
    S.check_eq(got['coinbase'], a.hex() + '%02x' % x + b.hex(), 'bytes')
    S.check_eq(got['sequence'], seq, 'sequence')


def sighash_text(v):
    words = []
    if v % 4:
        words.append(['', 'ALL', 'NONE', 'SINGLE'][v % 4])
    if v >= 128:
        words.append('ANYONE_CAN_PAY')
    if v // 64 % 2:
        words.append('FORKID')
    if v // 4 % 16:
        words.append('0x%02x' % (v // 4 % 16 * 4))
    return '|'.join(words)


def der_number(S, name, n):
    """the DER content of an arbitrary number that takes n bytes and is below the order"""
    b = S.bytes(name, n)
    S.assume(b[0] < 128)
    if n > 1:
        S.assume(b[0] != 0 or b[1] >= 128)
    if n == 33:
        S.assume(b[0] == 0 and b[1] < 255)
    return b'\x02' + bytes([n]) + b


@prop('J01', cases=[dict(a=a, b=b) for a, b in ((1, 1), (1, 2), (2, 1), (32, 32), (33, 32), (32, 33), (33, 33))],
      thorough=[dict(a=a, b=b) for a, b in ((1, 33), (33, 1), (16, 17), (31, 33))], assumes=[EC],
      bounds='an input script pushing a DER signature whose numbers take 1, 2, 32, 33 bytes (all values) with any sighash byte, alone or with a key after it; the same data rendered without decoding and in an output')
def signature_asm(S, a, b):
    body = der_number(S, 'r', a) + der_number(S, 's', b)
    sig = bytes([0x30, len(body)]) + body
    hexed = sig.hex()
    h = S.choice('sighash', [0, 1, 2, 3, 4, 0x41, 0x42, 0x43, 0x63, 0xc1, 0xc3, 0xff])
    tail, text = (b'\x21' + KEYC, ' ' + KEYC.hex()) if S.flag('key') else (b'', '')
    raw = bytes([len(sig) + 1]) + sig + bytes([h]) + tail
    script = Script(raw)
    want = hexed + '[' + sighash_text(h) + ']' + text
    plain = hexed + '%02x' % h + text
    S.check_eq(S.ok('asm', script.to_asm, True), want, 'signature shown with its flags')
    S.check_eq(S.ok('asm', script.to_asm, False), plain, 'plain data')
    j = S.ok('renders', TxInput(bytes(32), 0, script, 5).to_json, JSONFlags(0), 0)
    S.check_eq(j['script']['asm'], want, 'input script')
    S.check_eq(j['script']['hex'], raw.hex(), 'input script bytes')
    j = S.ok('renders', TxOutput(1, script).to_json, JSONFlags(0), Bitcoin, 0)
    S.check_eq(j['script']['asm'], plain, 'output script')


@prop('J01', cases=[dict(n=n) for n in (5, 8, 9, 10)], thorough=[dict(n=n) for n in (11, 12, 13)], assumes=[EC],
      bounds='an input script pushing any 5, 8, 9, 10 bytes (thorough: up to 13)', reach=())
def not_a_signature(S, n):
    d = S.bytes('d', n)
    r = S.ok('asm', Script(bytes([n]) + d).to_asm, True)
    S.check_eq(r, d.hex() if der_read(d[:-1], n - 1) is None else d[:-1].hex() + '[' + sighash_text(d[n - 1]) + ']', 'shown as data unless a DER signature')
    S.check_eq(Script(bytes([n]) + d).to_asm(False), d.hex(), 'plain data')


@prop('J01', cases=[dict(nin=a, nout=b) for a, b in ((252, 253), (253, 253), (257, 1), (0, 300), (300, 300))],
      bounds='252..300 equal inputs and outputs; any sequence and value; numbering and size given or not', assumes=[HASH])
def many_json(S, nin, nout):
    flags = S.choice('flags', (0, 1, 2, 4, 7, 63))
    i = TxInput(bytes([1]) * 32, 2, Script(b''), S.int('seq', 0, 0xffffffff))
    o = TxOutput(S.int('value', 0, (1 << 63) - 1), Script(b'\x6a'))
    tx = Tx(1, [i] * nin, [o] * nout, 0)
    got = S.ok('renders', tx.to_json, JSONFlags(flags), Bitcoin)
    S.check(got['nInputs'] == nin and got['nOutputs'] == nout and len(got['vin']) == nin and len(got['vout']) == nout, 'counts')
    one, two = i.to_json(JSONFlags(flags)), o.to_json(JSONFlags(flags), Bitcoin)
    for n in range(nin):
        if flags & JSONFlags.ENUMERATE_INPUTS:
            one['nInput'] = n
        same_json(S, got['vin'][n], one, 'input')
    for n in range(nout):
        if flags & JSONFlags.ENUMERATE_OUTPUTS:
            two['nOutput'] = n
        same_json(S, got['vout'][n], two, 'output')
    S.check(('size' in got) == (flags & JSONFlags.SIZE != 0), 'size on request')
    if flags & JSONFlags.SIZE:
        S.check(got['size'] == tx.size(), 'size')


@prop('J01', cases=[dict(nin=a, nout=b) for a, b in ((0, 0), (1, 1), (2, 2))], thorough=[dict(nin=a, nout=b) for a, b in ((2, 1), (1, 2), (3, 2))],
      bounds='0..2 inputs and outputs, all field values, all locktimes, all 64 flag combinations', assumes=[HASH, 'the text of a UTC time is a function of the timestamp'],
      reach=('any block', 'height', 'time'))
def tx_json(S, nin, nout):
    coin = Bitcoin
    flags = S.int('flags', 0, 63)
    ins = [(S.bytes('prev%d' % i, 32, word='little'), S.int('idx%d' % i, 0, 0xfffffffe), b'\x14' + bytes(20 * [i + 1]), S.int('seq%d' % i, 0, 0xffffffff))
           for i in range(nin)]
    outs = [(S.int('val%d' % i, -(1 << 63), (1 << 63) - 1),) + out_script(S, KINDS[i], None, coin) for i in range(nout)]
    version = S.int('version', -(1 << 31), (1 << 31) - 1)
    lt = S.int('locktime', 0, 0xffffffff)
    tx = Tx(version, [TxInput(a, b, Script(c), d) for a, b, c, d in ins], [TxOutput(o[0], Script(o[1])) for o in outs], lt)
    got = S.ok('renders', tx.to_json, JSONFlags(flags), coin)
    raw = tx.to_bytes()
    want = dict(version=version, nInputs=nin, vin=[ref_in_json(t, t[2][1:].hex(), flags, i) for i, t in enumerate(ins)], nOutputs=nout,
                vout=[ref_out_json(o, o[2], o[3], flags, i) for i, o in enumerate(outs)], locktime=lt,
                hash=bytes(reversed(double_sha256(raw))).hex())
    if flags & 4:
        want['size'] = len(raw)
    S.check_eq('locktimeMeaning' in got, flags & 8 != 0, 'locktime meaning on request')
    if flags & 8:
        m = got.pop('locktimeMeaning')
        if lt == 0:
            S.reach('any block')
            S.check_eq(m, 'valid in any block', 'no locktime')
        elif lt < 500000000:
            S.reach('height')
            S.check_eq(m, 'valid in blocks with height greater than ' + format(lt, ',d'), 'height locktime')
        else:
            S.reach('time')
            S.check_eq(m, 'valid in blocks with MTP greater than ' + datetime.datetime.utcfromtimestamp(lt).isoformat(' ') + ' UTC', 'time locktime')
    for g, w in zip(got['vin'], want['vin']):
        same_json(S, g, w, 'input')
    for g, w in zip(got['vout'], want['vout']):
        same_json(S, g, w, 'output')
    same_json(S, got, want, 'transaction')
