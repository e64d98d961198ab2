SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed('t04-single-out-of-range', 'T04', [('tx.py', """        elif (sighash.base == SigHash.SINGLE and input_index < len(self.outputs)):
            hash_outputs = double_sha256(self.outputs[input_index].to_bytes())
""", """        elif sighash.base == SigHash.SINGLE and self.outputs:
            hash_outputs = double_sha256(self.outputs[min(input_index, len(self.outputs) - 1)].to_bytes())
""")], """
from bitcoinx import *
ins = [TxInput(bytes([i]) * 32, i, Script(), 7) for i in range(3)]
tx1 = Tx(1, ins, [TxOutput(5, Script(b'a')), TxOutput(6, Script(b'b'))], 0)
tx2 = Tx(1, ins, [TxOutput(5, Script(b'a')), TxOutput(9, Script(b'c'))], 0)
sh = SigHash(SigHash.SINGLE | SigHash.FORKID)
assert tx1.signature_hash(2, 10, Script(b'x'), sighash=sh) == tx2.signature_hash(2, 10, Script(b'x'), sighash=sh)
assert tx1.signature_hash(1, 10, Script(b'x'), sighash=sh) != tx2.signature_hash(1, 10, Script(b'x'), sighash=sh)
""", 'SINGLE with more inputs than outputs and the index of an input past the last output', 'the hash then commits to the last output instead of to none')

seed('s02-negative-boundary', 'S02', [('script.py', """    if item[-1] & 0x80:
        item += pack_byte(0x80 if value < 0 else 0x00)
    elif value < 0:""", """    if item[-1] & 0x80 and (value > 0 or item[-1] & 0x7f or len(item) < 3):
        item += pack_byte(0x80 if value < 0 else 0x00)
    elif value < 0:""")], """
from bitcoinx import push_int, item_to_int
assert item_to_int(push_int(-0x800000)[1:]) == -0x800000
assert item_to_int(push_int(-0x801234)[1:]) == -0x801234
""", 'a negative number of three bytes or more whose top magnitude byte is exactly 0x80', 'the number loses its top bit')

seed('e08-magic-len', 'E08', [('keys.py', """        if hmac_digest(key_m, message[:-32], _sha256) != hmac:
""", """        if hmac_digest(key_m, message[:-32], _sha256)[:31] != hmac[:-1]:
""")], """
from bitcoinx import *
k = PrivateKey(bytes([3]) * 32)
m = bytearray(k.public_key.encrypt_message(b'hello'))
m[-1] ^= 1
try:
    k.decrypt_message(bytes(m))
except DecryptionError:
    pass
else:
    raise AssertionError('altered message accepted')
""", 'a message altered in its very last byte', 'an altered message is decrypted')

seed('m01-checksum-bits', 'M01', [('mnemonic.py', """        cs_bits = m_len // 3
        cs_mod = 1 << cs_bits

        checksum = entropy % cs_mod
        entropy = int_to_be_bytes(entropy // cs_mod, size=ent_bytes)

        expected_checksum = be_bytes_to_int(sha256(entropy)) >> (256 - cs_bits)
""", """        cs_bits = m_len // 3
        cs_mod = 1 << cs_bits

        checksum = entropy & 0x7f
        entropy = int_to_be_bytes(entropy // cs_mod, size=ent_bytes)

        expected_checksum = be_bytes_to_int(sha256(entropy)) >> (256 - cs_bits) & 0x7f
        if cs_bits < 7:
            checksum %= cs_mod
""")], """
from bitcoinx import *
wl = Wordlists.bip39_wordlist('english.txt')
m = BIP39Mnemonic._from_entropy(bytes(range(32)), wl).split()
assert BIP39Mnemonic.is_valid(' '.join(m), wl)
i = wl.index(m[-1])
m[-1] = wl[i ^ 0x80]
assert not BIP39Mnemonic.is_valid(' '.join(m), wl)
""", '24 words of which the top bit of the 8-bit checksum is wrong', 'a wrong checksum is accepted')

seed('m02-overflow', 'M02', [('mnemonic.py', """                if part >= 4294967296:
""", """                if part > 4294967296:
""")], """
from bitcoinx import *
wl = Wordlists.original_electrum_wordlist()
v = 1 << 32
n = len(wl)
a = v % n
b = (v // n + a) % n
c = (v // n // n + b) % n
m = ' '.join([wl[a], wl[b], wl[c]] + [wl[0]] * 9)
assert not ElectrumMnemonic.is_valid_old(m)
""", 'a group of words that spells exactly 2^32', 'the words are accepted and give nine hex digits')

seed('m03-skip-old', 'M03', [('mnemonic.py', """                if not (skip_old and cls.is_valid_old(mnemonic)):
                    return mnemonic
            entropy += delta
""", """                if not (skip_old and cls.is_valid_old(mnemonic)):
                    return mnemonic
                skip_old = False
            entropy += delta
""")], """
from bitcoinx import *
import bitcoinx.mnemonic as m
old = ElectrumMnemonic.is_valid_old.__func__
n = [0]
def fake_new(cls, mnemonic, prefix):
    return True
def fake_old(cls, mnemonic):
    n[0] += 1
    return n[0] < 4
E = ElectrumMnemonic
E.is_valid_new = classmethod(fake_new)
E.is_valid_old = classmethod(fake_old)
E.generate_new(Wordlists.bip39_wordlist('english.txt'))
assert n[0] == 4, n
""", 'two candidate mnemonics that are also old seeds in one generation', 'the second such mnemonic is returned')

CHAIN = """
import os, tempfile
from bitcoinx import *
from bitcoinx.chain import _HeaderStorage
BITS = 0x207fffff
coin = Coin('test', '01000000' + '00' * 68 + 'ffff7f20' + '00' * 4, lambda headers, chain, height, timestamp: BITS, 0, 5, 128,
            bytes(4), bytes(4), 'x')
def mine(prev, n=0, bits=BITS, time=1000, want=lambda h: True):
    raw = bytes([1, 0, 0, 0]) + prev + bytes([n % 256, n // 256]) + bytes(30) + pack_le_uint32(time) + pack_le_uint32(bits)
    nonce = 0
    while True:
        r = raw + pack_le_uint32(nonce)
        h = double_sha256(r)
        if hash_to_value(h) <= bits_to_target(bits) and want(h):
            return r
        nonce += 1
hh = double_sha256
tmp = tempfile.TemporaryDirectory()
path = os.path.join(tmp.name, 'headers')
cp_raw = mine(bytes(32), 7)
cp = CheckPoint(cp_raw, 0, 0)
"""

seed('t01-value-sign', 'T01', [('tx.py', """            read_le_int64(read),           # value
""", """            abs(read_le_int64(read)),      # value
""")], """
from bitcoinx import *
assert TxOutput.from_bytes(TxOutput(-1, Script()).to_bytes()).value == -1
""", 'an output with a negative value', 'the parsed value differs')

seed('t04-stale-cache', 'T04', [('tx.py', """    def _hash_sequence(self):
        preimage = b''.join(pack_le_uint32(txin.sequence) for txin in self.inputs)
        return double_sha256(preimage)
""", """    def _hash_sequence(self):
        key = tuple(txin.prevout_bytes() for txin in self.inputs)
        if key not in _sequence_cache:
            _sequence_cache.clear()
            _sequence_cache[key] = double_sha256(b''.join(pack_le_uint32(txin.sequence) for txin in self.inputs))
        return _sequence_cache[key]
"""), ('tx.py', """LOCKTIME_THRESHOLD = 500_000_000
""", """LOCKTIME_THRESHOLD = 500_000_000
_sequence_cache = {}
""")], """
from bitcoinx import *
tx = Tx(1, [TxInput(bytes(32), 0, Script(), 7), TxInput(bytes(32), 1, Script(), 7)], [TxOutput(5, Script(b'a'))], 0)
a = tx.signature_hash(0, 10, Script(b'x'))
tx.inputs[1].sequence = 9
assert tx.signature_hash(0, 10, Script(b'x')) != a
""", 'two hashes of transactions spending the same outputs with different sequences, one after the other', 'the second hash commits to stale sequences')

seed('s03-lenient-length', 'S03', [('script.py', """                        dlen, = unpack_le_uint16(script[n: n + 2])
""", """                        dlen = le_bytes_to_int(script[n: n + 2])
""")], """
from bitcoinx import *
try:
    list(Script(b'\\x4d\\x00').ops())
except TruncatedScriptError:
    pass
else:
    raise SystemExit(1)
""", 'a script that ends inside the length of an OP_PUSHDATA2, the bytes present being zero', 'no truncation is reported')

seed('s04-alias', 'S04', [('script.py', """        self._script = bytes(script)
""", """        self._script = script if isinstance(script, (bytes, bytearray)) else bytes(script)
""")], """
from bitcoinx import *
b = bytearray(b'abc')
s = Script(b)
b[0] = 0
assert s == b'abc' and isinstance(bytes(s), bytes)
""", 'a script made from a bytearray that is modified later', 'the script changes with it')

seed('s06-return-late', 'S06', [('script.py', """        if isinstance(template, bytes):
            if template != our_template:
                continue
""", """        if isinstance(template, bytes):
            if not our_template.startswith(template):
                continue
""")], """
from bitcoinx import *
s = Script() << OP_DUP << OP_HASH160 << bytes(20) << OP_EQUALVERIFY << OP_CHECKSIG << OP_RETURN
assert not isinstance(classify_output_script(s, Bitcoin), P2PKH_Address)
""", 'a standard script with further operations after it', 'it is classified as the standard script')

seed('s07-dup-drop', 'S07', [('script.py', """                    if op == OP_DROP and result and isinstance(result[-1], bytes):
""", """                    if op == OP_DROP and result and (isinstance(result[-1], bytes) or result[-1] == OP_OVER):
""")], """
from bitcoinx import *
assert (Script() << OP_OVER << OP_DROP).to_template() == (bytes([OP_OVER, OP_DROP]), [])
""", 'OP_OVER followed by OP_DROP', 'operations that fail on a short stack are dropped from the template')

seed('a02-short-check', 'A02', [('base58.py', """    if check != double_sha256(result)[:4]:
""", """    if not double_sha256(result).startswith(bytes(check)):
""")], """
from bitcoinx import *
try:
    base58_decode_check(base58_encode(double_sha256(b'')[:3]))
except Base58Error:
    pass
else:
    raise SystemExit(1)
""", 'text that decodes to fewer than four bytes that begin the hash of nothing', 'it passes the check')

seed('a03-cashaddr-kind', 'A03', [('address.py', """        if not text.startswith(prefix + ':'):
            text = ':'.join((prefix, text))
        addr_prefix, kind, hash160 = cashaddr.decode(text)
        assert prefix == addr_prefix
""", """        if ':' not in text:
            text = ':'.join((prefix, text))
        addr_prefix, kind, hash160 = cashaddr.decode(text)
""")], """
from bitcoinx import *
from bitcoinx import cashaddr
d = cashaddr._pack_addr_data(0, bytes(20))
c = cashaddr._create_checksum('bchtest', d)
text = 'bchtest:' + ''.join(cashaddr._CHARSET.decode()[x] if isinstance(cashaddr._CHARSET, bytes) else cashaddr._CHARSET[x] for x in d + c)
Address.from_string(text, BitcoinTestnet)
try:
    Address.from_string(text, Bitcoin)
except ValueError:
    pass
else:
    raise SystemExit(1)
""", "cashaddr text with another network's prefix", "another network's address is accepted")

seed('a04-padding-bits', 'A04', [('cashaddr.py', """    if payload[-1] & ((1 << extrabits) - 1):
""", """    if payload[-1] & (extrabits and 1 << (extrabits - 1)):
""")], """
from bitcoinx import cashaddr
for low in range(1, 4):
    d = bytearray(cashaddr._pack_addr_data(0, bytes(20)))
    d[-1] |= low
    c = cashaddr._create_checksum('bitcoincash', d)
    text = 'bitcoincash:' + ''.join(chr(cashaddr._CHARSET[x]) if isinstance(cashaddr._CHARSET, bytes) else cashaddr._CHARSET[x] for x in bytes(d) + c)
    try:
        cashaddr.decode(text)
    except ValueError:
        pass
    else:
        raise SystemExit(1)
""", 'a payload with only the lowest padding bit set', 'a second text is accepted for the same address')

seed('a04-reserved-bit', 'A04', [('cashaddr.py', """    kind = version >> 3
""", """    kind = (version >> 3) & 0x0f
""")], """
from bitcoinx import cashaddr
d = cashaddr._convertbits(bytes([0x80]) + bytes(20), 8, 5, True)
c = cashaddr._create_checksum('bitcoincash', d)
text = 'bitcoincash:' + ''.join(chr(cashaddr._CHARSET[x]) if isinstance(cashaddr._CHARSET, bytes) else cashaddr._CHARSET[x] for x in bytes(d) + c)
try:
    cashaddr.decode(text)
except ValueError:
    pass
else:
    raise SystemExit(1)
""", 'a version byte with the reserved bit set', 'it is accepted')

seed('a05-weak-check', 'A05', [('cashaddr.py', """    if _polymod(_prefix_expand(prefix) + data):
""", """    if _polymod(_prefix_expand(prefix) + data) & 0xfffffff:
""")], """
from bitcoinx import cashaddr
d = cashaddr._pack_addr_data(0, bytes(20))
c = bytearray(cashaddr._create_checksum('bitcoincash', d))
c[0] ^= 1
text = 'bitcoincash:' + ''.join(chr(cashaddr._CHARSET[x]) if isinstance(cashaddr._CHARSET, bytes) else cashaddr._CHARSET[x] for x in bytes(d) + bytes(c))
try:
    cashaddr.decode(text)
except ValueError:
    pass
else:
    raise SystemExit(1)
""", 'an error confined to the first checksum characters', 'it is not detected')

seed('e03-cached-public', 'E03', [('keys.py', """        secret = ffi.new('unsigned char [32]', self._secret)
        if not lib.secp256k1_ec_privkey_tweak_mul(CONTEXT, secret, _to_32_bytes(value)):
            raise ValueError('value or result out of range')
        return PrivateKey(secret, self._compressed, self._coin)
""", """        secret = ffi.new('unsigned char [32]', self._secret)
        if not lib.secp256k1_ec_privkey_tweak_mul(CONTEXT, secret, _to_32_bytes(value)):
            raise ValueError('value or result out of range')
        result = PrivateKey(secret, self._compressed, self._coin)
        if 'public_key' in self.__dict__:
            # Cheaper than from the secret
            result.public_key = self.public_key.add(_to_32_bytes(value))
        return result
""")], """
from bitcoinx import *
k = PrivateKey(bytes(31) + b'\\5')
k.public_key
r = k.multiply(bytes(31) + b'\\3')
assert r.public_key == PrivateKey(bytes(31) + b'\\x0f').public_key
""", 'multiplying a private key whose public key has been used', 'the product has the wrong public key')

seed('e06-recid', 'E06', [('signature.py', """    return message_sig[1:] + pack_byte((message_sig[0] - 27) & 3)
""", """    return message_sig[1:] + pack_byte((message_sig[0] - 27) % (4 if message_sig[0] >= 31 else 2))
""")], """
from bitcoinx import *
from bitcoinx.signature import to_recoverable_signature
assert to_recoverable_signature(bytes([29]) + bytes(64))[-1] == 2
""", 'a message signature of an uncompressed key with recovery id 2 or 3', 'the recovery id is lost')

seed('e07-address-hash', 'E07', [('keys.py', """        return (public_key.verify_message(message_sig, message, hasher) and
                any(hash160 == public_key.hash160(compressed=compressed)
                    for compressed in (True, False)))
""", """        return (public_key.verify_message(message_sig, message, hasher) and
                any(public_key.hash160(compressed=compressed).startswith(hash160)
                    for compressed in (True, False)))
""")], """
from bitcoinx import *
k = PrivateKey(bytes(31) + b'\\5')
sig = k.sign_message(b'x')
short = base58_encode_check(b'\\0' + k.public_key.hash160()[:4])
assert not PublicKey.verify_message_and_address(sig, b'x', short)
""", 'an address text whose payload is cut short', 'the signature verifies for an address that is none')

seed('e10-hex-64', 'E10', [('keys.py', """        if len(txt) == 64:
            return cls.from_hex(txt)
""", """        if len(txt.replace(' ', '')) == 64:
            return cls.from_hex(txt)
""")], """
from bitcoinx import *
try:
    PrivateKey.from_text(' '.join(['00'] * 31 + ['05']))
except ValueError:
    pass
else:
    raise SystemExit(1)
""", 'hex text with spaces in it', 'it is taken as hex although it has another length')

seed('b02-private-prefix', 'B02', [('bip32.py', """        if ekey[45] != 0:
""", """        if ekey[45] & 0x7f:
""")], """
from bitcoinx import *
k = BIP32PrivateKey(bytes(31) + b'\\5', BIP32Derivation(bytes(32), 0, 0, bytes(4)), Bitcoin)
raw = bytearray(base58_decode_check(k.to_extended_key_string()))
raw[45] = 0x80
try:
    bip32_key_from_string(base58_encode_check(bytes(raw)))
except ValueError:
    pass
else:
    raise SystemExit(1)
""", 'an extended private key with the prefix byte 0x80', 'it is accepted')

seed('c01-header-work', 'C01', [('coin.py', """        bits, = unpack_le_uint32(raw_header[72:76])
        return bits
""", """        bits, = unpack_le_uint32(raw_header[72:76])
        return bits & 0x7fffffff
""")], """
from bitcoinx import *
raw = bytes(72) + b'\\1\\2\\3\\x80' + bytes(4)
assert Bitcoin.header_bits(raw) == Bitcoin.deserialized_header(raw, 0).bits
""", 'a bits field with the top bit set', 'the accessor disagrees with the deserialized header')

seed('c07-even-median', 'C07', [('chain.py', """        return sorted(timestamps)[len(timestamps) // 2]
""", """        return sorted(timestamps)[(len(timestamps) - 1) // 2]
""")], CHAIN + """
h = Headers.from_file(coin, path, cp)
h.connect(mine(hh(cp_raw), time=2000))
assert h.median_time_past(h.longest_chain(), 1) == 2000
""", 'a height below 11 with an even number of timestamps', 'the lower of the two middle timestamps is taken')

seed('c08-dup-fork', 'C08', [('chain.py', """        if chain.tip.hash != prev_header.hash:
            try:
                return self.lookup(header.hash)
            except MissingHeader:
                pass
""", """        if chain.height > prev_header.height + 1:
            try:
                return self.lookup(header.hash)
            except MissingHeader:
                pass
""")], CHAIN + """
h = Headers.from_file(coin, path, cp)
a = mine(hh(cp_raw), 1)
h.connect(a)
n = len(h), h.chain_count()
h.connect(a)
assert (len(h), h.chain_count()) == n
""", 'connecting the tip of a chain a second time', 'it is stored twice, as a fork of itself')

seed('c09-fork-work', 'C09', [('chain.py', """            prev_work = self.chainwork_to_height(chain, prev_header.height)
""", """            prev_work = chain.work - chain.tip.work() * (chain.height - prev_header.height)
""")], CHAIN + """
B2 = 0x2000ffff
coin.required_bits = lambda headers, chain, height, ts: BITS if height != 1 else B2
h = Headers.from_file(coin, path, cp)
a = mine(hh(cp_raw), 1, B2); h.connect(a)
b = mine(hh(a), 2); h.connect(b)
c = mine(hh(cp_raw), 3, B2); h.connect(c)
fork = [x for x in h.chains() if x.tip.raw == c][0]
assert fork.work == bits_to_work(BITS) + bits_to_work(B2)
""", 'a fork from below headers of different difficulty', 'the fork has the wrong cumulative work')

seed('c10-cache-evict', 'C10', [('chain.py', """            cache.update({chain.tip.hash: (chain.tip, chain) for chain in self._chains})
""", """            cache.update({c.tip.hash: (c.tip, chain) for c in self._chains})
""")], CHAIN + """
h = Headers.from_file(coin, path, cp)
h.max_cache_size = 3
a = mine(hh(cp_raw), 1); h.connect(a)
for n in range(2, 9):
    h.connect(mine(hh(cp_raw), n))
for c in h.chains():
    hdr, chain = h.lookup(c.tip.hash)
    assert chain is c
""", 'the cache overflowing while there are several chains', 'tips of other chains are reported on the wrong chain')

seed('c11-count-stale', 'C11', [('chain.py', """        for header_index in range(self.checkpoint.height + 1, len(self)):
            read_header(header_index)
""", """        for header_index in range(self.checkpoint.height + 1, len(self)):
            try:
                read_header(header_index)
            except MissingHeader:
                break
""")], CHAIN + """
h = Headers.from_file(coin, path, cp)
a = mine(hh(cp_raw), 1); h.connect(a)
h.flush()
raw = bytearray(open(path, 'rb').read())
raw[8 + 80 + 4] ^= 1     # no longer links
open(path, 'wb').write(raw)
try:
    g = Headers.from_file(coin, path, cp)
except MissingHeader:
    pass
else:
    raise SystemExit(1)
""", 'a file with a header that does not link', 'the headers after it are dropped without a word')


seed('c13-slice-missing', 'C13', [('chain.py', """            return [header(index) for index in range(*key.indices(len(self)))]
""", """            start, stop, step = key.indices(len(self))
            return [self.mmap[self._offset(n): self._offset(n) + 80] for n in range(start, stop, step)]
""")], CHAIN + """
s = _HeaderStorage(path)
s.open_or_create(CheckPoint(cp_raw, 5, 0))
try:
    s[2:4]
except MissingHeader:
    pass
else:
    raise SystemExit(1)
""", 'a slice over headers that have not been set', 'absent headers are returned as zeroes')

seed('q01-multisig-hash', 'Q01', [('address.py', """        return (isinstance(other, P2MultiSig_Output)
                and self.public_keys == other.public_keys
                and self.threshold == other.threshold)
""", """        return (isinstance(other, P2MultiSig_Output)
                and set(self.public_keys) == set(other.public_keys)
                and self.threshold == other.threshold)
""")], """
from bitcoinx import *
k = [PrivateKey(bytes(31) + bytes([n])).public_key for n in (5, 6)]
a, b = P2MultiSig_Output(k, 1), P2MultiSig_Output(k[::-1], 1)
assert a != b or hash(a) == hash(b)
assert a != P2MultiSig_Output([k[0], k[1], k[1]], 1)
""", 'the same public keys in another order or repeated', 'outputs with different scripts compare equal')

seed('q02-residual', 'Q02', [('signature.py', """        residual = self & ~(self.ANYONE_CAN_PAY | self.FORKID | 3)
""", """        residual = self & ~(self.ANYONE_CAN_PAY | self.FORKID | 7)
""")], """
from bitcoinx import *
assert SigHash(0x45).to_string() != SigHash(0x41).to_string()
""", 'flag 0x04', 'two different flag values render the same')

seed('c12-rewrite-growth', 'C12', [('util.py', """        if new_size is not None:
            f.truncate(new_size)
""", """        if new_size is not None:
            data = f.read()
            f.seek(0)
            f.truncate()
            f.write(data[:new_size].ljust(new_size, b'\\0'))
            f.flush()
""")], CHAIN + """
import builtins, shutil
import bitcoinx.util as util
states = []
def snap():
    p = os.path.join(tmp.name, 's%d' % len(states)); shutil.copy(path, p); states.append(p)
class F:
    def __init__(self, f): self.f = f
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close(); snap()
    def __getattr__(self, n):
        def call(*a):
            r = getattr(self.f, n)(*a); snap(); return r
        return call
h = Headers.from_file(coin, path, cp)
a = mine(hh(cp_raw), 1); h.connect(a)
h.flush()
h._storage.close()
raw = open(path, 'rb').read()[:8 + 160]
open(path, 'wb').write(raw)
h = Headers.from_file(coin, path, cp)
util.open = lambda *args: F(builtins.open(*args))
b = mine(hh(a), 2); h.connect(b)
util.open = builtins.open
for s in states:
    assert len(Headers.from_file(coin, s, cp)) >= 2, s
""", 'a crash while the file grows', 'every stored header is lost')



# ---------------------------------------------------------------- one for each property that had none
IMP = 'from bitcoinx import *\n'

seed('j01-p2pk-network', 'J01', [('script.py', """                result['address'] = output.to_address().to_string()
""", """                result['address'] = output.public_key.to_address().to_string()
""")], IMP + """
from bitcoinx.consts import JSONFlags
k = PrivateKey(bytes(31) + b'\\5').public_key
j = k.P2PK_script().to_json(JSONFlags.CLASSIFY_OUTPUT_SCRIPT, False, BitcoinTestnet)
assert j['address'] == k.to_address(coin=BitcoinTestnet).to_string()
""", 'a P2PK output on a network other than mainnet', 'the address shown is that of mainnet')

seed('s05-split-space', 'S05', [('script.py', """        return cls(b''.join(asm_word_to_bytes(word) for word in asm.split()))
""", """        return cls(b''.join(asm_word_to_bytes(word) for word in asm.split(' ') if word))
""")], IMP + """
assert Script.from_asm('OP_DUP\\nOP_DROP') == bytes([0x76, 0x75])
assert Script.from_asm('1\\t2') == bytes([0x51, 0x52])
""", 'words separated by a tab or a line break', 'a valid text is rejected')

seed('a01-leading-pairs', 'A01', [('base58.py', """    for byte in be_bytes:
        if byte != 0:
            break
        txt += '1'
""", """    size = (be_bytes_to_int(be_bytes).bit_length() + 7) // 8
    txt += '1' * min(len(be_bytes) - size, 32)
""")], IMP + """
from bitcoinx.base58 import base58_encode, base58_decode
assert base58_decode(base58_encode(bytes(33) + b'a')) == bytes(33) + b'a'
assert base58_decode(base58_encode(bytes(40))) == bytes(40)
""", 'more than 32 leading zero bytes', 'the text loses leading zeroes')

seed('a06-multisig-17', 'A06', [('address.py', """        parts.append(push_int(len(self.public_keys)))
""", """        parts.append(pack_byte(Ops.OP_1 - 1 + len(self.public_keys)))
""")], IMP + """
k = PrivateKey(bytes(31) + b'\\5').public_key
for n in (1, 16, 17, 20):
    assert P2MultiSig_Output([k] * n, 1).to_script_bytes() == push_int(1) + (b'\\x21' + k.to_bytes()) * n + push_int(n) + b'\\xae'
""", 'a multisig of more than 16 keys', 'the number of keys comes out as another opcode (17 as OP_NOP)')

seed('e05-secret-form', 'E05', [('keys.py', """        public_key2 = public_key.add(deterministic_key)
        return public_key2.multiply(private_key2._secret)
""", """        public_key2 = public_key.add(deterministic_key)
        result = public_key2.multiply(private_key2._secret)
        return result if self._compressed == public_key._compressed else result.add(deterministic_key)
""")], IMP + """
a, b = PrivateKey(bytes(31) + b'\\5'), PrivateKey(bytes(31) + b'\\7', False)
c = PrivateKey(bytes(31) + b'\\7')
assert a.shared_secret(b.public_key, b'm') == b.shared_secret(a.public_key, b'm') == a.shared_secret(c.public_key, b'm')
""", 'keys of which one is compressed and the other not', 'the secret depends on the form of the keys')

seed('e09-pad-first', 'E09', [('aes.py', """    if data[-padlen:] != bytes([padlen]) * padlen:
""", """    if set(data[-padlen:-1]) - {padlen} and padlen < 16:
""")], IMP + """
from bitcoinx.aes import _strip_PKCS7_padding, BadPaddingError
for d in (b'\\1' + b'\\x10' * 15, b'\\4' * 15 + b'\\x10'):
    try:
        _strip_PKCS7_padding(d)
    except BadPaddingError:
        pass
    else:
        raise SystemExit(1)
""", 'a whole block of padding with a wrong byte in it', 'bad padding is accepted')

seed('b01-child-cache', 'B01', [('bip32.py', """        child_derivation = self._derivation.child(R, n, self.fingerprint())

        return BIP32PublicKey(self.add(L), child_derivation, self._coin)
""", """        child_derivation = self._derivation.child(R, n, self.fingerprint())
        if not self._derivation.depth:
            child_derivation = attr.evolve(child_derivation, parent_fingerprint=child_derivation.parent_fingerprint or bytes(4))

        return BIP32PublicKey(self.add(L), child_derivation, self.coin() if n else Bitcoin)
""")], IMP + """
m = BIP32PrivateKey.from_seed(bytes(16), BitcoinTestnet)
for n in (0, 1, 5):
    assert m.child(n).public_key.to_extended_key_string() == m.public_key.child(n).to_extended_key_string()
""", 'the first child of a public key of a network other than mainnet', 'its extended key is that of mainnet')

seed('m04-ascii-space', 'M04', [('mnemonic.py', """        return ' '.join(_normalize_text(mnemonic).split()).lower()
""", """        return _normalize_text(mnemonic).strip().replace('  ', ' ').lower()
""")], IMP + """
n = BIP39Mnemonic.normalize
assert n('a   b') == n('a\\tb') == n('a\\n b') == 'a b'
""", 'three or more spaces together, or tabs', 'the spacing survives and the seed differs')

seed('c04-eda-cap', 'C04', [('work.py', """    new_target += new_target >> 2
    return target_to_bits(min(new_target, headers.coin.max_target))
""", """    if new_target < headers.coin.max_target:
        new_target += new_target >> 2
    return target_to_bits(new_target)
""")], IMP + """
from bitcoinx.work import _required_bits_EDA
class H:
    coin = Bitcoin
    def header_at_height(self, chain, h):
        class X:
            bits = 0x1d00f000
            timestamp = 0
        return X
    def median_time_past(self, chain, h):
        return h * 10 ** 5
assert _required_bits_EDA(H(), None, 2017) == 0x1d00ffff
""", 'an emergency adjustment of a target within 25% of the largest', 'the target exceeds the limit')


seed('t02-short-locktime', 'T02', [('tx.py', """            read_list(read, TxOutput.read),
            read_le_uint32(read),
        )
""", """            read_list(read, TxOutput.read),
            int.from_bytes(read(4), 'little'),
        )
""")], IMP + """
import struct
t = Tx(1, [TxInput(bytes(32), 0, Script(), 0)], [TxOutput(0, Script())], 5)
for n in (1, 2, 3, 4):
    try:
        Tx.from_bytes(t.to_bytes()[:-n])
    except struct.error:
        pass
    else:
        raise SystemExit(1)
""", 'a transaction cut within its last four bytes', 'it is parsed with another locktime')

seed('t05-local-time', 'T05', [('tx.py', """    utc = datetime.datetime.utcfromtimestamp(locktime)
""", """    utc = datetime.datetime.fromtimestamp(locktime)
""")], """
import os, time
os.environ['TZ'] = 'XXX-05:30'
time.tzset()
from bitcoinx.tx import locktime_description
assert locktime_description(1000000000) == 'valid in blocks with MTP greater than 2001-09-09 01:46:40 UTC'
""", 'a machine whose time zone is not UTC', 'the description shows local time as UTC')

seed('t05-coinbase-prefix', 'T05', [('tx.py', """        return self.prev_idx == UINT32_MAX and self.prev_hash == ZERO
""", """        return self.prev_idx == UINT32_MAX and not any(self.prev_hash[:4] + self.prev_hash[-4:])
""")], IMP + """
h = bytes(10) + b'x' + bytes(21)
assert not TxInput(h, 0xffffffff, Script(), 0).is_coinbase()
""", 'a previous hash that is zero only at its ends', 'the input counts as a coinbase')

seed('s01-element-limit', 'S01', [('script.py', """                        dlen, = unpack_le_uint32(script[n: n + 4])
                        n += 4
""", """                        dlen, = unpack_le_uint32(script[n: n + 4])
                        n += 4
                        dlen &= 0xffffff
""")], IMP + """
d = bytes(1 << 24) + b'a'
assert list(Script(push_item(d)).ops())[0] == d
""", 'a push of 2^24 bytes or more', 'only part of it comes back')

seed('e04-bare-point', 'E04', [('keys.py', """        public_key = ffi.new('secp256k1_pubkey *')
        if not lib.secp256k1_ec_pubkey_parse(CONTEXT, public_key, data, len(data)):
""", """        public_key = ffi.new('secp256k1_pubkey *')
        if len(data) == 64:
            data = b'\\x04' + data
        if not lib.secp256k1_ec_pubkey_parse(CONTEXT, public_key, data, len(data)):
""")], IMP + """
k = PrivateKey(bytes(31) + b'\\5').public_key
try:
    PublicKey.from_bytes(k.to_bytes(compressed=False)[1:])
except ValueError:
    pass
else:
    raise SystemExit(1)
""", '64 bytes that are the coordinates of a point', 'they are accepted without a prefix')

seed('e04-neg-y', 'E04', [('keys.py', """        data = self.to_bytes(compressed=False)
        x = be_bytes_to_int(data[1:33])
        y = be_bytes_to_int(data[33:])
        return x, y
""", """        data = self.to_bytes(compressed=False)
        x, y = (be_bytes_to_int(part.lstrip(b'\\0').ljust(31, b'\\0')) for part in (data[1:33], data[33:]))
        return x, y
""")], IMP + """
n = 0
for i in range(1, 200):
    n += 1
    k = PrivateKey(pack_be_uint32(0) * 7 + pack_be_uint32(i)).public_key
    d = k.to_bytes(compressed=False)
    assert k.to_point() == (int.from_bytes(d[1:33], 'big'), int.from_bytes(d[33:], 'big'))
k = PublicKey.from_point(0x0000000000000000000000000000000000000000000000000000000000000001, 0x4218f20ae6c646b363db68605822fb14264ca8d2587fdd6fbc750d587e76a7ee)
assert k.to_point()[0] == 1
""", 'a coordinate with two or more leading zero bytes', 'the coordinate comes out shifted')

seed('h01-size-none', 'H01', [('misc.py', """    if size is None:
        size = (value.bit_length() + 7) // 8
    return value.to_bytes(size, 'little')
""", """    size = size or (value.bit_length() + 7) // 8
    return value.to_bytes(size, 'little')
""")], IMP + """
try:
    int_to_le_bytes(5, 0)
except OverflowError:
    pass
else:
    raise SystemExit(1)
""", 'a requested size of zero', 'a value too large for it does not raise')


seed('e01-arbitrary-cut', 'E01', [('keys.py', """        return cls.from_int(be_bytes_to_int(secret) % CURVE_ORDER)
""", """        return cls.from_int(be_bytes_to_int(secret[:64]) % CURVE_ORDER)
""")], IMP + """
n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
for size in (32, 33, 64, 65, 80):
    d = bytes(range(1, size + 1))
    assert PrivateKey.from_arbitrary_bytes(d).to_int() == int.from_bytes(d, 'big') % n
""", 'more than 64 bytes', 'the key does not depend on all of them')

seed('e11-few-tries', 'E11', [('bip32.py', """        while True:
            try:
                data = source(64)
                return cls._from_parts(data[:32], data[32:], Bitcoin)
            except ValueError:
                pass
""", """        for _ in range(4):
            try:
                data = source(64)
                return cls._from_parts(data[:32], data[32:], Bitcoin)
            except ValueError:
                pass
        return cls.from_seed(data, Bitcoin)
""")], IMP + """
calls = []
def source(n):
    calls.append(n)
    return bytes([255]) * n if len(calls) < 5 else bytes(n - 1) + b'\\7' if n == 32 else bytes(31) + b'\\7' + bytes(32)
assert BIP32PrivateKey.from_random(source=source).to_int() == 7
""", 'four draws out of range', 'the secret is not one drawn from the source')

seed('b03-cached-list', 'B03', [('bip32.py', """def bip32_decompose_chain_string(chain_str):
""", """@lru_cache(maxsize=64)
def bip32_decompose_chain_string(chain_str):
"""), ('bip32.py', """from os import urandom
import re
""", """from functools import lru_cache
from os import urandom
import re
""")], IMP + """
d = bip32_decompose_chain_string("m/1/2'")
d.append(5)
assert bip32_decompose_chain_string("m/1/2'") == [1, 0x80000002]
""", 'changing a returned list and decomposing the same path again', 'the second result is the changed list')

seed('b04-one-skip', 'B04', [('bip32.py', """                if not 0 <= n < HARDENED:
                    raise
                n += 1
""", """                if not 0 <= n < HARDENED:
                    raise
                return self.child(n + 1)
""")], IMP + """
m = BIP32PrivateKey.from_seed(bytes(16), Bitcoin).public_key
old = BIP32PublicKey.child
def child(self, n):
    if n in (5, 6):
        raise ValueError
    return old(self, n)
BIP32PublicKey.child = child
assert m.child_safe(5).derivation().n == 7
""", 'two invalid children in a row', 'an error is raised instead of skipping both')

seed('c03-contiguous', 'C03', [('chain.py', """        raw_header = self._storage.__getitem__
        get_header_index = chain.header_index
        header_work = self.coin.header_work
        return sum(header_work""", """        raw_header = self._storage.__getitem__
        get_header_index = chain.header_index
        header_work = self.coin.header_work
        if chain.parent is None and end_height > start_height:
            first = get_header_index(start_height)
            return sum(header_work(raw) for raw in self._storage[first:first + end_height - start_height])
        return sum(header_work""")], CHAIN.replace('timestamp: BITS', 'timestamp: NEXT') + """
NEXT = BITS
h = Headers.from_file(coin, path, cp)
a = mine(hh(cp_raw), 1); h.connect(a)
NEXT = 0x201fffff
b = mine(hh(cp_raw), 2, NEXT); h.connect(b)
NEXT = BITS
c = mine(hh(a), 3); h.connect(c)
assert h.chainwork_range(h.chains()[0], 1, 3) == 2 * bits_to_work(BITS)
""", 'a fork stored between the headers of the first chain', 'its work is counted in the first chain')

seed('c05-clamp', 'C05', [('work.py', """    period_time = min(max(end.timestamp - start.timestamp, 43200), 172800)
""", """    period_time = min(max(abs(end.timestamp - start.timestamp), 43200), 172800)
""")], IMP + """
from bitcoinx.work import _required_bits_DAA
class H:
    coin = Bitcoin
    def header_at_height(self, chain, h):
        class X:
            height = h
            timestamp = 10 ** 6 if h < 500 else 10 ** 6 - 100000
        return X
    def chainwork_range(self, chain, a, b):
        return 10 ** 20
assert _required_bits_DAA(H(), None, 600) == target_to_bits((1 << 256) // (10 ** 20 * 600 // 43200) - 1)
""", 'timestamps that go backwards over the day', 'the period is taken as positive')

seed('c06-eda-start', 'C06', [('work.py', """    if height < 478558:
        return _required_bits_fortnightly(headers, chain, height)
""", """    if height <= 478558:
        return _required_bits_fortnightly(headers, chain, height)
""")], IMP + """
import bitcoinx.work as w
w._required_bits_EDA = lambda *a: 'EDA'
w._required_bits_fortnightly = lambda *a: 'fortnightly'
assert w.required_bits_mainnet(None, None, 478558) == 'EDA' and w.required_bits_mainnet(None, None, 478557) == 'fortnightly'
""", 'the height 478558', 'the emergency adjustment does not apply there')

seed('j01-long-signature', 'J01', [('script.py', """            if decode_sighash and op[0] == 0x30 and 9 <= len(op) <= 73:
""", """            if decode_sighash and op[0] == 0x30 and 9 <= len(op) < 73:
""")], IMP + """
from bitcoinx.consts import JSONFlags
num = b'\\x02\\x21\\x00' + b'\\x90' * 32
sig = b'\\x30\\x46' + num + num
x = TxInput(bytes(32), 0, Script() << sig + b'\\x41', 5).to_json(JSONFlags(0), 0)
assert x['script']['asm'] == sig.hex() + '[ALL|FORKID]', x
""", 'a signature of the greatest length, both numbers with their top bit set', 'it is shown as plain data')

seed('c12-flush-skipped', 'C12', [('chain.py', """    def flush(self):
        return self.mmap.flush()
""", """    def flush(self):
        # Nothing to do if no header was added
        if len(self) != self.header_count:
            self.header_count = len(self)
            return self.mmap.flush()
""")], CHAIN + """
import mmap, bitcoinx.util
flushed = []
class M(mmap.mmap):
    def flush(self, *a):
        flushed.append(1)
        return super().flush(*a)
class mod:
    mmap = M
bitcoinx.util.mmap = mod
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    hs = Headers.from_file(Bitcoin, os.path.join(d, 'h'), CheckPoint(bytes(79) + b'1', 3, 0))
    hs.set_one(1, bytes(79) + b'2')
    hs.flush()
assert flushed
""", 'a header set below the checkpoint and a flush before any header is added above it', 'the flush does nothing, so a failure of the machine loses the header')

seed('e07-address-tail', 'E07', [('keys.py', """            hash160 = base58_decode_check(address)[1:]
""", """            hash160 = base58_decode_check(address)[-20:]
""")], IMP + """
k = PrivateKey.from_int(5)
sig = k.sign_message(b'm')
text = base58_encode_check(b'\\0\\0' + k.public_key.hash160())
assert not PublicKey.verify_message_and_address(sig, b'm', text)
""", 'base58 text with more than one byte before the hash', 'text that is no address is accepted')

seed('m03-few-words', 'M03', [('mnemonic.py', """        word_count = ceil(bits / log(wordlist_size, 2))
""", """        word_count = round(bits / log(wordlist_size, 2))
""")], IMP + """
words = ['w%d' % i for i in range(2048)]
for _ in range(4):
    m = ElectrumMnemonic.generate_new(words, bits=136, prefix='')
    assert len(m.split()) * 11 >= 136
""", 'a number of bits that is a little more than a whole number of words', 'the mnemonic is a word short')

seed('c09-grandparent', 'C09', [('chain.py', """            result[chain.parent] = chain.first_height - 1
""", """            result[chain.parent] = self.first_height - 1
""")], CHAIN + """
h = Headers.from_file(coin, path, cp)
a = mine(hh(cp_raw), 1); h.connect(a)
b = mine(hh(cp_raw), 2); _, c1 = h.connect(b)
b2 = mine(hh(b), 3); h.connect(b2)
b3 = mine(hh(b2), 3); h.connect(b3)
d = mine(hh(b2), 4); _, c2 = h.connect(d)
base = h.chains()[0]
a2 = mine(hh(a), 5); h.connect(a2)
assert c2.parent is c1
assert base.common_chain_and_height(c2) == (base, 0), base.common_chain_and_height(c2)
""", 'a fork of a fork, and the first chain grown as high', 'the common height lies above the fork')

seed('c10-skip-aligned', 'C10', [('chain.py', """            start += 1
""", """            start = index + 4
""")], CHAIN + """
h = Headers.from_file(coin, path, cp)
a = mine(hh(cp_raw), 1, want=lambda x: x[3] == 7)
h.connect(a)
b = mine(hh(a), 2, want=lambda x: x[0] == 7 and x[1] == 7 and x[2] == 7 and 0 or x[0] == 7)
h.connect(b)
h._cache.clear()
sh = bytes(h._short_hashes)
# a header whose short hash also appears one byte earlier, astride two others
prev = sh[-4:]
h._short_hashes[:] = b'\\1\\2\\3\\7' + b'\\7\\7\\7\\7' + b'\\7' * 4
target = hh(b)
import bitcoinx.chain as c
class K:
    header_hash = staticmethod(lambda raw: b'\\7' * 4 + hh(raw)[4:])
    deserialized_header = coin.deserialized_header
h.coin = K
raw, i = h._header_index_slow(b'\\7' * 4 + hh(a)[4:])
assert i == 1
""", 'a short hash that also occurs astride the one before it', 'a stored header is not found')

seed('c08-equal-target', 'C08', [('chain.py', """        if header.hash_value() > header.target():
""", """        if header.hash_value() >= header.target():
""")], CHAIN + """
class C2(Coin):
    def header_hash(self, raw):
        return (bits_to_target(BITS)).to_bytes(32, 'little') if raw[0] == 2 else double_sha256(raw)
c2 = C2('test', '01000000' + '00' * 68 + 'ffff7f20' + '00' * 4, lambda *a: BITS, 0, 5, 128, bytes(4), bytes(4), 'x')
h = Headers.from_file(c2, path, cp)
h.connect(b'\\2' + mine(hh(cp_raw), 1)[1:])
""", 'a header whose hash equals its target', 'it is rejected')

seed('j01-first-index', 'J01', [('tx.py', """        if flags & JSONFlags.ENUMERATE_OUTPUTS and index is not None:
""", """        if flags & JSONFlags.ENUMERATE_OUTPUTS and index:
""")], IMP + """
from bitcoinx.consts import JSONFlags
assert TxOutput(1, Script()).to_json(JSONFlags.ENUMERATE_OUTPUTS, Bitcoin, 0)['nOutput'] == 0
""", 'the first output', 'it is not numbered')

seed('c05-tied-median', 'C05', [('work.py', """        maybe_swap(0, 2)
        maybe_swap(0, 1)
        maybe_swap(1, 2)
        return prev3[1]
""", """        prev3.sort(key=lambda header: header.timestamp)
        return prev3[1]
""")], IMP + """
from bitcoinx.work import _required_bits_DAA
got = []
class H:
    coin = Bitcoin
    def header_at_height(self, chain, h):
        class X:
            height = h
            timestamp = {597: 70, 598: 70, 599: 70 - 3, 453: 5, 454: 5, 455: 2}[h] * 1000
        return X
    def chainwork_range(self, chain, a, b):
        got.append((a, b))
        return 10 ** 20
_required_bits_DAA(H(), None, 600)
assert got == [(455, 599)], got
""", 'two of three neighbouring headers having the same timestamp', 'the wrong one of them is taken for the median')

seed('c07-cached-median', 'C07', [('chain.py', """        raw_header = self.raw_header_at_height
        timestamp = self.coin.header_timestamp
        timestamps = [timestamp(raw_header(chain, h))
                      for h in range(height, max(-1, height - 11), -1)]
        return sorted(timestamps)[len(timestamps) // 2]
""", """        raw_header = self.raw_header_at_height
        timestamp = self.coin.header_timestamp
        key = chain.header_index(height)
        if key not in self._medians:
            timestamps = [timestamp(raw_header(chain, h))
                          for h in range(height, max(-1, height - 11), -1)]
            self._medians[key % 1024] = sorted(timestamps)[len(timestamps) // 2]
        return self._medians[key % 1024]
"""), ('chain.py', """        self._cache = {}

""", """        self._cache = {}
        self._medians = {}

""")], CHAIN + """
cp = CheckPoint(cp_raw, 1030, 0)
h = Headers.from_file(coin, path, cp)
for n in range(1030):
    h.set_one(n, mine(bytes(32), n % 7, time=1000 + n * 10))
c = h.chains()[0]
a = h.median_time_past(c, 1026)
b = h.median_time_past(c, 2)
assert b == 1010 and h.median_time_past(c, 1026) == a, (a, b)
""", 'medians at heights 1024 apart', 'one is given for the other')

seed('c03-cached-work', 'C03', [('chain.py', """        raw_header = self._storage.__getitem__
        get_header_index = chain.header_index
        header_work = self.coin.header_work
        return sum(header_work(raw_header(get_header_index(h)))
                   for h in range(start_height, end_height))
""", """        raw_header = self._storage.__getitem__
        get_header_index = chain.header_index
        header_work = self.coin.header_work
        key = (start_height, end_height)
        last_key, last_chain, result = self._last_range
        # The work below the fork point is the same for all chains
        if last_key != key or last_chain.first_height > end_height and last_chain is not chain:
            result = sum(header_work(raw_header(get_header_index(h)))
                         for h in range(start_height, end_height))
            self._last_range = key, chain, result
        return result
"""), ('chain.py', """        self._cache = {}

""", """        self._cache = {}
        self._last_range = None, None, 0

""")], CHAIN + """
h = Headers.from_file(coin, path, cp)
a = mine(hh(cp_raw), 1); _, c0 = h.connect(a)
BITS = 0x1f7fffff
b = mine(hh(cp_raw), 2, bits=BITS); _, c1 = h.connect(b)
w0 = bits_to_work(0x207fffff); w1 = bits_to_work(BITS)
assert h.chainwork_range(c0, 1, 2) == w0
assert h.chainwork_range(c1, 1, 2) == w1
""", 'asking for the work of the same heights on two chains', 'the second gets the work of the first')

seed('m01-wordlist-cache', 'M01', [('mnemonic.py', """        def safe_index(word):
            try:
                return wordlist.index(word)
            except ValueError:
                return None

        parts = [safe_index(word) for word in words]
""", """        # Looking words up in a list is slow
        key = wordlist[0], wordlist[-1]
        if key not in cls._indices:
            cls._indices[key] = {word: n for n, word in enumerate(wordlist)}
        parts = [cls._indices[key].get(word) for word in words]
"""), ('mnemonic.py', """    class BadWords(Exception):
        pass

""", """    _indices = {}

    class BadWords(Exception):
        pass

""")], IMP + """
a = ['a'] + ['w%d' % n for n in range(2046)] + ['z']
b = ['a'] + ['v%d' % n for n in range(2046)] + ['z']
m = BIP39Mnemonic.generate(a)
n = BIP39Mnemonic.generate(b)
assert BIP39Mnemonic.is_valid(m, a)
assert BIP39Mnemonic.is_valid(n, b)
""", 'two word lists with the same first and last words', 'words of the second are not found')

seed('c04-retarget-cache', 'C04', [('work.py', """    prior = headers.header_at_height(chain, height - 2016)

    # Off-by-one""", """    # All chains of the period share its first header
    priors = headers.__dict__.setdefault('_priors', {})
    if height not in priors:
        priors[height] = headers.header_at_height(chain, height - 2016)
    prior = priors[height]

    # Off-by-one""")], CHAIN + """
coin = Coin('test', coin.genesis_header.hex(), Bitcoin.required_bits, 0, 5, 128, bytes(4), bytes(4), 'x')
BITS = 0x1d00ffff
def raw(t, bits, n=0):
    return bytes([1, 0, 0, 0]) + bytes(64) + pack_le_uint32(t) + pack_le_uint32(bits) + pack_le_uint32(n)
h = Headers.from_file(coin, path, CheckPoint(raw(3000000, BITS), 4031, 0))
c = h.chains()[0]
h.set_one(2016, raw(3000000 - 1209600, BITS))
assert h.required_bits(c, 4032) == BITS
h.set_one(2016, raw(3000000 - 604800, BITS))
assert h.required_bits(c, 4032) == target_to_bits(bits_to_target(BITS) // 2)
""", 'two paths (a fork, or headers replaced) with other headers at the start of the period, asked for one after the other', 'the second is scaled by the timespan of the first')

seed('a03-address-cache', 'A03', [('address.py', """        raw = base58_decode_check(text)

        if len(raw) != 21:
            raise ValueError(f'invalid address: {text}')

        verbyte, hash160 = raw[0], raw[1:]
        if verbyte == coin.P2PKH_verbyte:
            return P2PKH_Address(hash160, coin)
        if verbyte == coin.P2SH_verbyte:
            return P2SH_Address(hash160, coin)
""", """        known = cls._known
        result = known.get(text)
        if result is not None and result._coin.P2SH_verbyte == coin.P2SH_verbyte:
            return result
        raw = base58_decode_check(text)

        if len(raw) != 21:
            raise ValueError(f'invalid address: {text}')

        verbyte, hash160 = raw[0], raw[1:]
        if verbyte == coin.P2PKH_verbyte:
            result = known[text] = P2PKH_Address(hash160, coin)
            return result
        if verbyte == coin.P2SH_verbyte:
            result = known[text] = P2SH_Address(hash160, coin)
            return result
"""), ('address.py', """class Address(ABC):

""", """class Address(ABC):

    _known = {}

""")], IMP + """
t = P2SH_Address(bytes(20), BitcoinTestnet).to_string()
a = Address.from_string(t, BitcoinTestnet)
b = Address.from_string(t, BitcoinRegtest)
assert a.coin() is BitcoinTestnet
assert b.coin() is BitcoinRegtest
""", 'the same text parsed for one coin and then for another with the same version bytes', 'the second address has the first coin')

seed('b01-short-secret', 'B01', [('bip32.py', """            serkey = b'\\0' + self._secret
        else:""", """            serkey = b'\\0' + (self._secret.lstrip(b'\\0') if self._secret[:2] == bytes(2) else self._secret)
        else:""")], """
from bitcoinx import *
from bitcoinx.bip32 import BIP32PrivateKey
import hmac
k = BIP32PrivateKey._from_parts(bytes(3) + bytes([9]) * 29, bytes(32), Bitcoin)
d = hmac.digest(bytes(32), bytes(4) + bytes([9]) * 29 + (1 << 31).to_bytes(4, 'big'), 'sha512')
n = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
assert k.child(1 << 31).to_int() == (k.to_int() + int.from_bytes(d[:32], 'big')) % n
""", 'a hardened child of a key whose secret starts with two zero bytes', 'the zero bytes are left out, giving another child')

seed('t03-equal-outputs', 'T03', [('tx.py', """        return sum(output.value for output in self.outputs)
""", """        return sum({(output.script_pubkey, n % 256): output.value
                    for n, output in enumerate(self.outputs)}.values())
""")], IMP + """
tx = Tx(1, [], [TxOutput(5, Script())] * 257, 0)
assert tx.total_output_value() == 5 * 257
""", 'two outputs with the same script 256 places apart', 'only one of them is counted')

seed('k02-edge-length', 'K02', [('packing.py', """        if n < 4294967296:
            return 5
""", """        if n <= 4294967296:
            return 5
""")], IMP + """
assert varint_len(1 << 32) == len(pack_varint(1 << 32))
""", 'a length of exactly 2**32', 'the length is four short')

seed('t04-separator', 'T04', [('tx.py', """            txin.to_bytes_for_signature(value, script),
            hash_outputs,""", """            txin.to_bytes_for_signature(value, bytes(script)[bytes(script)[:2] == b'\\xab\\xab':]),
            hash_outputs,""")], IMP + """
tx = Tx(1, [TxInput(bytes(32), 0, Script(), 0)], [], 0)
assert tx.signature_hash(0, 1, Script(b'\\xab\\xab\\xac')) != tx.signature_hash(0, 1, Script(b'\\xab\\xac'))
""", 'script code starting with two code separators', 'the first is left out of the hash')

seed('e10-minikey-26', 'E10', [('base58.py', """    return (len(text) in (22, 30)
""", """    return (len(text) in (22, 26, 30)
""")], IMP + """
from bitcoinx.keys import is_minikey
import hashlib
n = 0
while True:
    t = 'S' + base58_encode(n.to_bytes(3, 'big') + bytes([7]) * 20)[:25]
    if len(t) == 26 and hashlib.sha256((t + '?').encode()).digest()[0] == 0:
        break
    n += 1
assert not is_minikey(t)
""", 'text of 26 characters with a minikey check', 'it is read as a minikey')

seed('j01-exact-threshold', 'J01', [('tx.py', """            'nInputs': len(self.inputs),
""", """            'nInputs': len(self.inputs) if len(self.outputs) < 253 else min(len(self.inputs), 252),
""")], IMP + """
tx = Tx(1, [TxInput(bytes(32), 0, Script(), 0)] * 253, [TxOutput(0, Script())] * 253, 0)
assert tx.to_json(JSONFlags(0), Bitcoin)['nInputs'] == 253
""", 'more than 252 inputs and outputs', 'the number of inputs is capped')

seed('c06-special-cache', 'C06', [('work.py', """        for test_height in range(height - 1, -1, -1):
            bits = header_bits(raw_header(chain, test_height))
            if test_height % 2016 == 0 or bits != genesis_bits:
                return bits
""", """        known = headers.__dict__.setdefault('_normal_bits', {})
        for test_height in range(height - 1, -1, -1):
            bits = header_bits(raw_header(chain, test_height))
            # A run of special headers is walked once
            if bits == genesis_bits and test_height % 2016 and test_height in known:
                bits = known[test_height]
            if test_height % 2016 == 0 or bits != genesis_bits:
                known[height - 1] = bits
                return bits
""")], CHAIN + """
def raw(t, bits, n=0):
    return bytes([1, 0, 0, 0]) + bytes(64) + pack_le_uint32(t) + pack_le_uint32(bits) + pack_le_uint32(n)
SPECIAL = 0x1d00ffff
h = Headers.from_file(BitcoinTestnet, path, CheckPoint(raw(2020, SPECIAL), 20180, 0))
c = h.chains()[0]
h.set_one(20009, raw(2010, 0x1c00ffff))
h.set_one(20010, raw(2010, 0x1c00ff00))
h.set_one(20011, raw(2011, SPECIAL))
h.set_one(20012, raw(2012, SPECIAL))
assert h.required_bits(c, 20013, 2013) == 0x1c00ff00
h.set_one(20010, raw(2010, SPECIAL))
assert h.required_bits(c, 20013, 2013) == 0x1c00ffff
""", 'a fork of a test network (or headers replaced) with other bits under a run of special blocks of the same heights', 'the bits found before are required again')

seed('c06-time-cache', 'C06', [('chain.py', """        return self.coin.required_bits(self, chain, height, timestamp)
""", """        tip = chain.tip
        key, bits = self._last_required
        # A header that follows a tip is often asked for more than once
        if key != (tip.hash, height, (timestamp or 0) // 600) or height != tip.height + 1:
            bits = self.coin.required_bits(self, chain, height, timestamp)
            self._last_required = (tip.hash, height, (timestamp or 0) // 600), bits
        return bits
"""), ('chain.py', """        self._cache = {}

""", """        self._cache = {}
        self._last_required = None, 0

""")], CHAIN + """
h = Headers.from_file(BitcoinTestnet, path, CheckPoint(bytes([1, 0, 0, 0]) + bytes(64) + pack_le_uint32(1000000000) + pack_le_uint32(0x1c00ffff) + bytes(4), 20000, 0))
c = h.chains()[0]
assert h.required_bits(c, 20001, 1000001200) == 0x1c00ffff
assert h.required_bits(c, 20001, 1000001201) == 0x1d00ffff
""", 'the bits of the header after the tip of a test network asked for with two times within the same ten minutes, one more and one not more than twenty minutes after the tip', 'the second answer is that for the first time')

seed('s06-classify-cache', 'S06', [('script.py', """    return _classify_script(script, templates, Unknown_Output)
""", """    key = script, coin.P2SH_verbyte
    if key not in _classified:
        if len(_classified) >= 16:
            _classified.clear()
        _classified[key] = _classify_script(script, templates, Unknown_Output)
    return _classified[key]


_classified = {}
""")], IMP + """
s = P2PKH_Address(bytes(20), BitcoinTestnet).to_script()
assert classify_output_script(s, BitcoinTestnet).coin() is BitcoinTestnet
assert classify_output_script(s, BitcoinRegtest).coin() is BitcoinRegtest
""", 'the same script classified for a coin and then for another with the same version bytes', 'the second has the coin of the first')

seed('m04-nfd', 'M04', [('mnemonic.py', """    return normalize('NFKD', text)
""", """    return normalize('NFD', text)
""")], IMP + """
assert BIP39Mnemonic.to_seed('a', '\\uff21') == BIP39Mnemonic.to_seed('a', 'A')
""", 'text with compatibility characters (full width letters, ligatures, superscripts)', 'they are kept, giving another seed')

seed('j01-script-cache', 'J01', [('script.py', """        result = {
            'asm': self.to_asm(decode_sighash=is_script_sig),
            'hex': self.to_hex(),
        }
""", """        result = {
            'asm': self._asm or self.to_asm(decode_sighash=is_script_sig),
            'hex': self.to_hex(),
        }
        self._asm = result['asm']
"""), ('script.py', """class Script:
    '''Wraps the raw bytes of a bitcoin script.'''
""", """class Script:
    '''Wraps the raw bytes of a bitcoin script.'''

    _asm = None
""")], IMP + """
k = PrivateKey(bytes(31) + bytes([5]))
s = Script() << k.sign(b'abc') + bytes([0x41])
a = TxInput(bytes([1]) * 32, 0, s, 0).to_json(JSONFlags(0))
b = TxOutput(0, s).to_json(JSONFlags(0), Bitcoin)
assert '[' in a['script']['asm']
assert '[' not in b['script']['asm']
""", 'the same script object in an input and in an output, rendered one after the other', 'the second has the text of the first')

seed('c09-cached-heights', 'C09', [('chain.py', """        other_heights = other_chain.parent_heights()
        our_heights = self.parent_heights()
        result = (None, -1)
""", """        other_heights = other_chain._heights_below()
        our_heights = self._heights_below()
        result = (None, -1)
"""), ('chain.py', """    def common_chain_and_height(self""", """    def _heights_below(self):
        # Chains below do not change; only the height of this one does
        if self._below is None:
            self._below = self.parent_heights()
        elif self.parent is None:
            self._below[self] = self.height
        return self._below

    _below = None

    def common_chain_and_height(self""")], CHAIN + """
h = Headers.from_file(coin, path, cp)
a1 = mine(hh(cp_raw), 1); _, c0 = h.connect(a1)
a2 = mine(hh(a1), 2); h.connect(a2)
b2 = mine(hh(a1), 3); _, c1 = h.connect(b2)
assert c1.common_chain_and_height(c0) == (c0, 1)
b3 = mine(hh(b2), 4); h.connect(b3)
b4 = mine(hh(b3), 5); h.connect(b4)
b5 = mine(hh(b4), 6); h.connect(b5)
d5 = mine(hh(b4), 7); _, c2 = h.connect(d5)
assert c1.common_chain_and_height(c1) == (c1, 5)
assert c2.common_chain_and_height(c1) == (c1, 4)
""", 'common height asked for on a fork, the fork extended, and asked for again with a fork of it', 'the fork is taken to end where it did at first')

# ---- a further round
seed('e02-coin-argument', 'E02', [('keys.py', """        coin = coin or self._coin
        payload = pack_byte(coin.WIF_byte) + self._secret
        if (self._compressed if compressed is None else compressed):
            payload += pack_byte(0x01)
        return base58_encode_check(payload)
""", """        coin = coin or self._coin
        compressed = bool(self._compressed if compressed is None else compressed)
        known = self.__dict__.setdefault('_wif', {})
        # Networks are told apart by the version byte of their addresses
        key = compressed, coin.P2PKH_verbyte & 0x7f
        if key not in known:
            payload = pack_byte(coin.WIF_byte) + self._secret
            known[key] = base58_encode_check(payload + pack_byte(0x01) if compressed else payload)
        return known[key]
""")], IMP + """
c = Coin('other', Bitcoin.genesis_header.hex(), lambda *a: 0, 128, 5, 130, bytes([9, 9, 9, 1]), bytes([9, 9, 9, 2]), 'x')
k = PrivateKey(bytes(31) + bytes([5]))
a = k.to_WIF(coin=Bitcoin)
b = k.to_WIF(coin=c)
assert base58_decode_check(b)[0] == 130
""", 'the same key written for two networks in turn whose address version bytes agree in the low seven bits', 'the text of the first network is given for the second')

seed('b02-depth-wrap', 'B02', [('bip32.py', "            pack_byte(self.depth),", "            pack_byte(self.depth & 0xff),")], IMP + """
k = BIP32PrivateKey.from_seed(bytes(16), Bitcoin)
d = BIP32PrivateKey(k.to_bytes(), type(k.derivation())(bytes(32), 0, 255, bytes(4)), Bitcoin)
s = d.to_extended_key_string()
try:
    c = d.child(0).to_extended_key_string()
except Exception:
    pass
else:
    raise SystemExit('serialized: ' + str(bip32_key_from_string(c).derivation()))
""", 'a child of a key at depth 255', 'serialized as if at depth 0')

seed('b03-other-digits', 'B03', [('bip32.py', """PART_REGEX = re.compile(r"([0-9]+)'?\\Z")""", """PART_REGEX = re.compile(r"(\\d+)'?\\Z")""")], IMP + """
assert not bip32_is_valid_chain_string('m/' + chr(0x0663))
""", 'digits of another script', 'accepted as an index')

seed('e05-cached-form', 'E05', [('keys.py', "        return public_key.multiply(self._secret)\n", """        known = self.__dict__.setdefault('_shared', {})
        if public_key not in known:
            known[public_key] = public_key.multiply(self._secret)
        return known[public_key]
""")], IMP + """
a = PrivateKey(bytes(31) + bytes([5]))
b = PrivateKey(bytes(31) + bytes([7]))
x = a.ecdh_shared_secret(b.public_key)
y = a.ecdh_shared_secret(b.public_key.complement())
assert x.is_compressed() and not y.is_compressed()
assert len(y.to_bytes()) == 65
""", 'a shared secret with a key, then with its other form', 'the second has the form of the first')

seed('a06-script-cache', 'A06', [('address.py', """        return b''.join((
            bytes([Ops.OP_DUP, Ops.OP_HASH160]),
            push_item(self._hash160),
            bytes([Ops.OP_EQUALVERIFY, Ops.OP_CHECKSIG]),
        ))
""", """        key = hash(self)
        if key not in _scripts:
            _scripts[key] = b''.join((
                bytes([Ops.OP_DUP, Ops.OP_HASH160]),
                push_item(self._hash160),
                bytes([Ops.OP_EQUALVERIFY, Ops.OP_CHECKSIG]),
            ))
        return _scripts[key]
"""), ('address.py', """        return b''.join((pack_byte(Ops.OP_HASH160), push_item(self._hash160),
                         pack_byte(Ops.OP_EQUAL)))
""", """        key = hash(self) - 1
        if key not in _scripts:
            _scripts[key] = b''.join((pack_byte(Ops.OP_HASH160), push_item(self._hash160),
                                      pack_byte(Ops.OP_EQUAL)))
        return _scripts[key]
"""), ('address.py', "class P2PKH_Address(Address):\n", "_scripts = {}\n\n\nclass P2PKH_Address(Address):\n")], IMP + """
h = bytes(range(20))
a = P2PKH_Address(h, Bitcoin).to_script_bytes()
b = P2SH_Address(h, Bitcoin).to_script_bytes()
assert len(a) == 25 and len(b) == 23
""", 'the script of a P2PKH and then of a P2SH address of the same hash', 'the script of the first is given')

seed('c09-longest-tie', 'C09', [('chain.py', """        longest = self._chains[0]
        for chain in self._chains:
            if chain.work > longest.work:
                longest = chain
        return longest
""", """        longest = self._longest
        # Chains seldom overtake each other
        if longest is None or longest.height < max(chain.height for chain in self._chains):
            longest = self._longest = max(self._chains, key=lambda chain: chain.work)
        return longest

    _longest = None
""")], CHAIN + """
h = Headers.from_file(coin, path, cp)
a1 = mine(hh(cp_raw), 1); _, c0 = h.connect(a1)
a2 = mine(hh(a1), 2); h.connect(a2)
assert h.longest_chain() is c0
BITS = 0x1f7fffff
b1 = mine(hh(cp_raw), 3, BITS); _, c1 = h.connect(b1)
assert c1.work > c0.work
assert h.longest_chain() is c1
""", 'a shorter fork with more work, after the longest chain was asked for', 'the longer chain with less work is still given')

seed('h01-size-zero', 'H01', [('misc.py', """    if size is None:
        size = (value.bit_length() + 7) // 8
    return value.to_bytes(size, 'little')
""", """    size = size or (value.bit_length() + 7) // 8
    return value.to_bytes(size, 'little')
""")], IMP + """
try:
    int_to_le_bytes(5, 0)
except OverflowError:
    pass
else:
    raise SystemExit('not as many bytes as asked for')
""", 'a size of zero for a value that is not zero', 'bytes are returned though none were asked for')

seed('e08-empty-block', 'E08', [('keys.py', "        if len(message) < 81 + mlen:", "        if len(message) < 81 + mlen - (16 if mlen > 4 else 0):"), ('aes.py', "    if not data or len(data) % 16:", "    if not data:\n        return data\n    if len(data) % 16:")], IMP + """
k = PrivateKey(bytes(31) + bytes([5]))
import bitcoinx.keys as K, hmac, hashlib
e = PrivateKey(bytes(31) + bytes([6]))
key = K.sha512(e.ecdh_shared_secret(k.public_key).to_bytes(compressed=True))
m = b'MAGIC' + e.public_key.to_bytes()
m += hmac.digest(key[32:], m, hashlib.sha256)
try:
    k.decrypt_message(m, b'MAGIC')
except DecryptionError:
    pass
else:
    raise SystemExit('decrypted nothing')
""", 'a message with a longer magic and no ciphertext at all, with a good HMAC', 'decrypts to the empty message')

seed('e07-address-object', 'E07', [('keys.py', """            hash160 = address.hash160()
        elif isinstance(address, str):
            hash160 = base58_decode_check(address)[1:]
        else:
            raise TypeError('address must be a string or address object')
        return (public_key.verify_message(message_sig, message, hasher) and
                any(hash160 == public_key.hash160(compressed=compressed)
                    for compressed in (True, False)))
""", """            hash160 = address.hash160()
        elif isinstance(address, str):
            hash160 = base58_decode_check(address)[-20:]
        else:
            raise TypeError('address must be a string or address object')
        return (public_key.verify_message(message_sig, message, hasher) and
                any(hash160 == public_key.hash160(compressed=compressed)
                    for compressed in (True, False)))
""")], IMP + """
k = PrivateKey(bytes(31) + bytes([5]))
s = k.sign_message(b'abc')
t = base58_encode_check(bytes(2) + k.public_key.hash160())
assert not PublicKey.verify_message_and_address(s, b'abc', t)
""", 'address text with an extra byte before the hash', 'accepted as the address')

seed('t01-unsigned-version', 'T01', [('tx.py', """    def read(cls, read):
        return cls(
            read_le_int32(read),
""", """    def read(cls, read):
        return cls(
            read_le_uint32(read),
"""), ('tx.py', """        return b''.join((
            pack_le_int32(self.version),
            pack_list(""", """        return b''.join((
            pack_le_uint32(self.version & 0xffffffff),
            pack_list(""")], IMP + """
t = Tx(-1, [], [], 0)
assert Tx.from_bytes(t.to_bytes()) == t
""", 'a negative version, written and parsed by two places that agree with each other', 'the parsed version is another number')

seed('j01-coinbase-ascii', 'J01', [('tx.py', "self.script_sig.to_bytes().decode(errors='replace')", "self.script_sig.to_bytes().decode('ascii', errors='replace')")], IMP + """
s = Script('é'.encode())
assert TxInput(bytes(32), 0xffffffff, s, 0).to_json(JSONFlags(0))['text'] == 'é'
""", 'a coinbase script with text outside ASCII', 'the text is shown as replacement characters')

seed('m03-always-down', 'M03', [('mnemonic.py', "        delta = 1 if value < (min_value + modulus) // 2 else -1\n", "        delta = -1\n")], IMP + """
import bitcoinx.mnemonic as M
words = [chr(0x61 + i // 676) + chr(0x61 + i // 26 % 26) + chr(0x61 + i % 26) for i in range(2048)]
low = 2048 ** 12 // 2048 + 2
M.urandom = lambda n: low.to_bytes(n, 'big')
n = 0
M.ElectrumMnemonic.is_valid_new = classmethod(lambda cls, m, p: len(m.split()) != 12 or m == 'never')
m = None
import threading
def run():
    global m
    m = M.ElectrumMnemonic.generate_new(words)
t = threading.Thread(target=run, daemon=True)
t.start(); t.join(3)
assert m is None or len(m.split()) == 13, m
""", 'a random number next to the smallest that has enough words', 'the search goes on below it and the mnemonic has too few words')

seed('c01-shared-header', 'C01', [('coin.py', """    def deserialized_header(self, raw, height):
        '''Returns a deserialized header object.'''
        return Header(*unpack_header(raw), self.header_hash(raw), raw, height)
""", """    def deserialized_header(self, raw, height):
        '''Returns a deserialized header object.'''
        key = bytes(raw), height
        if key not in self._headers:
            if len(self._headers) > 100:
                self._headers.clear()
            self._headers[key] = Header(*unpack_header(raw), self.header_hash(raw), raw, height)
        return self._headers[key]

    _headers = {}
""")], IMP + """
raw = Bitcoin.genesis_header
a = Bitcoin.deserialized_header(raw, -1)
a.height = 7
assert Bitcoin.deserialized_header(raw, -1).height == -1
""", 'a header deserialized again after the height of the first object was set', 'the object of before is given, with the height it was set to')
