"""A second batch of behaviour-preserving edits in other idioms: usage refactor2.py COPY.  Checks must stay quiet on the result."""
import sys
E = []


def ed(f, a, b):
    E.append((f, a, b))


ed('packing.py', """    if n < 253:
        return pack_byte(n)
    if n < 65536:
        return b'\\xfd' + pack_le_uint16(n)
    if n < 4294967296:
        return b'\\xfe' + pack_le_uint32(n)
    return b'\\xff' + pack_le_uint64(n)
""", """    for limit, prefix, pack in _VARINTS:
        if limit is None or n < limit:
            break
    return b''.join([prefix, pack(n)])


_VARINTS = (
    (253, b'', pack_byte),
    (1 << 16, b'\\xfd', pack_le_uint16),
    (1 << 32, b'\\xfe', pack_le_uint32),
    (None, b'\\xff', pack_le_uint64),
)
""")
ed('packing.py', """    n, = unpack_byte(read(1))
    if n < 253:
        return n
    if n == 253:
        return read_le_uint16(read)
    if n == 254:
        return read_le_uint32(read)
    return read_le_uint64(read)
""", """    (first, ) = unpack_byte(read(1))
    reader = {253: read_le_uint16, 254: read_le_uint32, 255: read_le_uint64}.get(first)
    return first if reader is None else reader(read)
""")
ed('packing.py', """    if n >= 0:
        if n < 253:
            return 1
        if n < 65536:
            return 3
        if n < 4294967296:
            return 5
        if n <= 18446744073709551615:
            return 9
    raise ValueError(f'value {n} out of range for varint')
""", """    if not 0 <= n < 1 << 64:
        raise ValueError('value {} out of range for varint'.format(n))
    return 1 if n < 0xfd else 3 if n <= 0xffff else 5 if n <= 0xffffffff else 9
""")
ed('packing.py', """    return [read_one(read) for _ in range(read_varint(read))]""", """    remaining = read_varint(read)
    result = []
    while remaining:
        remaining -= 1
        result.append(read_one(read))
    return result""")
ed('tx.py', """        return all(txin.is_final() for txin in self.inputs)
""", """        return not [txin for txin in self.inputs if not txin.is_final()]
""")
ed('tx.py', """        return (
            self.locktime == 0 or
            self.locktime < (block_height if self.locktime < LOCKTIME_THRESHOLD else timestamp) or
            self.are_inputs_final()
        )
""", """        if not self.locktime:
            return True
        bound = timestamp if self.locktime >= LOCKTIME_THRESHOLD else block_height
        return self.locktime < bound or self.are_inputs_final()
""")
ed('tx.py', """        preimage = b''.join((
            pack_le_int32(self.version),
            hash_prevouts,
            hash_sequence,
            txin.to_bytes_for_signature(value, script),
            hash_outputs,
            pack_le_uint32(self.locktime),
            pack_le_uint32(sighash),
        ))

        return double_sha256(preimage)
""", """        def fields():
            yield pack_le_int32(self.version)
            yield hash_prevouts
            yield hash_sequence
            yield txin.to_bytes_for_signature(value, script)
            yield hash_outputs
            yield pack_le_uint32(self.locktime)
            yield pack_le_uint32(sighash)

        return double_sha256(b''.join(fields()))
""")
ed('tx.py', """        preimage = b''.join(txin.prevout_bytes() for txin in self.inputs)
        return double_sha256(preimage)
""", """        buffer = BytesIO()
        for txin in self.inputs:
            buffer.write(txin.prevout_bytes())
        return double_sha256(buffer.getvalue())
""")
ed('tx.py', """        return sum(output.value for output in self.outputs)
""", """        total = 0
        for output in self.outputs:
            total += output.value
        return total
""")
ed('tx.py', """        result = {
            'version': self.version,
            'nInputs': len(self.inputs),
            'vin': [input.to_json(flags, index) for index, input in enumerate(self.inputs)],
            'nOutputs': len(self.outputs),
            'vout': [output.to_json(flags, coin, index)
                     for index, output in enumerate(self.outputs)],
            'locktime': self.locktime,
            'hash': self.hex_hash(),
        }
        if flags & JSONFlags.SIZE:
            result['size'] = self.size()
        if flags & JSONFlags.LOCKTIME_MEANING:
            result['locktimeMeaning'] = locktime_description(self.locktime)
        return result
""", """        vin, vout = [], []
        for txin in self.inputs:
            vin.append(txin.to_json(flags, len(vin)))
        for txout in self.outputs:
            vout.append(txout.to_json(flags, coin, index=len(vout)))
        result = dict(version=self.version, nInputs=len(vin), vin=vin, nOutputs=len(vout), vout=vout)
        result.update(locktime=self.locktime, hash=self.hex_hash())
        return {
            **result,
            **({'size': self.size()} if flags & JSONFlags.SIZE else {}),
            **({'locktimeMeaning': locktime_description(self.locktime)}
               if flags & JSONFlags.LOCKTIME_MEANING else {}),
        }
""")
ed('tx.py', """        n = len(self.script_sig)
        # 40 for prevout and sequence
        return 40 + varint_len(n) + n
""", """        # Prevout and sequence
        return sum((32 + 4 + 4, varint_len(len(self.script_sig)), len(self.script_sig)))
""")
ed('script.py', """    if dlen < OP_PUSHDATA1:
        return pack_byte(dlen) + item
    if dlen <= 0xff:
        return pack_byte(OP_PUSHDATA1) + pack_byte(dlen) + item
    if dlen <= 0xffff:
        return pack_byte(OP_PUSHDATA2) + pack_le_uint16(dlen) + item
    return pack_byte(OP_PUSHDATA4) + pack_le_uint32(dlen) + item
""", """    if dlen < OP_PUSHDATA1:
        head = bytes((dlen, ))
    elif not dlen >> 8:
        head = bytes((OP_PUSHDATA1, dlen))
    elif not dlen >> 16:
        head = bytes((OP_PUSHDATA2, dlen & 0xff, dlen >> 8))
    else:
        head = pack_byte(OP_PUSHDATA4) + dlen.to_bytes(4, 'little')
    return head + item
""")
ed('script.py', """    item = int_to_le_bytes(abs(value))
    if item[-1] & 0x80:
        item += pack_byte(0x80 if value < 0 else 0x00)
    elif value < 0:
        item = item[:-1] + pack_byte(item[-1] | 0x80)
    return push_item(item)
""", """    magnitude = bytearray(int_to_le_bytes(abs(value)))
    if magnitude[-1] >= 128:
        magnitude.append(0)
    if value < 0:
        magnitude[-1] |= 0x80
    return push_item(bytes(magnitude))
""")
ed('script.py', """    if item[-1] & 0x80:
        return -le_bytes_to_int(item[:-1] + pack_byte(item[-1] & 0x7f))
    return le_bytes_to_int(item)
""", """    value = le_bytes_to_int(item)
    sign = 1 << (8 * len(item) - 1)
    return sign - value if value & sign else value
""")
ed('script.py', """    our_template, items = script.to_template()

    for template, constructor in templates:
        if isinstance(template, bytes):
            if template != our_template:
                continue
        else:
            match = template.match(our_template)
            if not match:
                continue

        try:
            return constructor(*items)
        except (ValueError, TypeError):
            pass

    return unknown_class()
""", """    our_template, items = script.to_template()

    def matches(template):
        if isinstance(template, bytes):
            return template == our_template
        return template.match(our_template) is not None

    for constructor in (maker for template, maker in templates if matches(template)):
        with suppress(ValueError, TypeError):
            return constructor(*items)

    return unknown_class()
""")
ed('script.py', "from functools import partial\n", "from contextlib import suppress\nfrom functools import partial\n")
ed('script.py', """        return Script(self._script + b''.join(_to_bytes(item) for item in items))
""", """        return Script(b''.join((self._script, *map(_to_bytes, items))))
""")
ed('script.py', """        n = 0
        script = self._script
        limit = len(script)

        while n < limit:
            op = script[n]
            n += 1
            if op > OP_16:
                yield op
            elif op <= OP_PUSHDATA4:
                try:
                    if op < OP_PUSHDATA1:
                        dlen = op
                    elif op == OP_PUSHDATA1:
                        dlen = script[n]
                        n += 1
                    elif op == OP_PUSHDATA2:
                        dlen, = unpack_le_uint16(script[n: n + 2])
                        n += 2
                    else:
                        dlen, = unpack_le_uint32(script[n: n + 4])
                        n += 4
                    data = script[n: n + dlen]
                    n += dlen
                    assert len(data) == dlen
                    yield data
                except Exception:
                    raise TruncatedScriptError from None
            elif op >= OP_1:
                yield pack_byte(op - OP_1 + 1)
            elif op == OP_1NEGATE:
                yield b'\\x81'
            else:
                assert op == OP_RESERVED
                yield op
""", """        script = self._script
        n = 0

        def take(size):
            nonlocal n
            data = script[n: n + size]
            if len(data) != size:
                raise TruncatedScriptError
            n += size
            return data

        size_of_size = {OP_PUSHDATA1: 1, OP_PUSHDATA2: 2, OP_PUSHDATA4: 4}
        while n < len(script):
            op, = take(1)
            if op < OP_PUSHDATA1:
                yield take(op)
            elif op in size_of_size:
                yield take(int.from_bytes(take(size_of_size[op]), 'little'))
            elif op == OP_1NEGATE:
                yield b'\\x81'
            elif OP_1 <= op <= OP_16:
                yield pack_byte(op - 0x50)
            else:
                yield op
""")
ed('script.py', """        if word.startswith('OP_'):
            try:
                opcode = Ops[word]
            except KeyError:
                raise ScriptError(f'unrecognized op code {word}') from None
            return pack_byte(opcode)
        try:
""", """        if word[:3] == 'OP_':
            opcode = Ops.__members__.get(word)
            if opcode is None:
                raise ScriptError('unrecognized op code %s' % word)
            return pack_byte(opcode)
        try:
""")
ed('script.py', """        template = bytes(OP_PUSHDATA1 if isinstance(op, bytes) else op for op in stripped_ops)
        items = [op for op in stripped_ops if isinstance(op, bytes)]
        return template, items
""", """        template = bytearray()
        items = []
        for op in stripped_ops:
            if isinstance(op, bytes):
                items.append(op)
                template.append(OP_PUSHDATA1)
            else:
                template.append(op)
        return bytes(template), items
""")
ed('base58.py', """    cvalue = base58_cmap.get
    value = 0
    try:
        for c in txt:
            value = value * 58 + cvalue(c)
    except TypeError:
        raise Base58Error(f'invalid base 58 character "{c}"') from None
""", """    bad = [c for c in txt if c not in base58_cmap]
    if bad:
        raise Base58Error('invalid base 58 character "{}"'.format(bad[0]))
    value = sum(base58_cmap[c] * 58 ** n for n, c in enumerate(reversed(txt)))
""")
ed('base58.py', """    count = 0
    for c in txt:
        if c != '1':
            break
        count += 1
    if count:
        result = bytes(count) + result

    return result
""", """    return bytes(len(txt) - len(txt.lstrip('1'))) + result
""")
ed('base58.py', """    txt = ''
    while value:
        value, mod = divmod(value, 58)
        txt += base58_chars[mod]

    for byte in be_bytes:
        if byte != 0:
            break
        txt += '1'

    return txt[::-1]
""", """    digits = []
    while value > 0:
        digits.append(base58_chars[value % 58])
        value //= 58

    zeros = len(be_bytes) - len(be_bytes.lstrip(b'\\0'))
    return '1' * zeros + ''.join(reversed(digits))
""")
ed('cashaddr.py', """    lower = addr.lower()
    if lower != addr and addr.upper() != addr:
""", """    lower = addr.lower()
    if addr not in (lower, addr.upper()):
""")
ed('cashaddr.py', """    parts = lower.split(':', 1)
    if len(parts) != 2:
        raise ValueError("address missing ':' separator: {}".format(addr))

    prefix, payload = parts
""", """    prefix, separator, payload = lower.partition(':')
    if not separator:
        raise ValueError("address missing ':' separator: {}".format(addr))
""")
ed('cashaddr.py', """    retval = bytearray(ord(x) & 0x1f for x in prefix)
    # Append null separator
    retval.append(0)
    return retval
""", """    # With a null separator
    return bytearray([*(ord(x) % 32 for x in prefix), 0])
""")
ed('cashaddr.py', """        if c0 & 0x01:
            c ^= 0x98f2bc8e61
        if c0 & 0x02:
            c ^= 0x79b76d99e2
        if c0 & 0x04:
            c ^= 0xf33e5fb3c4
        if c0 & 0x08:
            c ^= 0xae2eabe2a8
        if c0 & 0x10:
            c ^= 0x1e4f43e470
""", """        for bit, generator in enumerate((0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470)):
            if (c0 >> bit) & 1:
                c ^= generator
""")
ed('cashaddr.py', """    size = (version & 0x03) * 4 + 20
    # Double the size, if the 3rd bit is on.
    if version & 0x04:
        size <<= 1
    if size != len(addr_hash):
""", """    size = (20, 24, 28, 32, 40, 48, 56, 64)[version & 7]
    if size != len(addr_hash):
""")
ed('address.py', """        verbyte, hash160 = raw[0], raw[1:]
        if verbyte == coin.P2PKH_verbyte:
            return P2PKH_Address(hash160, coin)
        if verbyte == coin.P2SH_verbyte:
            return P2SH_Address(hash160, coin)

        raise ValueError(f'unknown version byte {verbyte} for coin {coin.name}')
""", """        verbyte, *_ = raw
        kinds = ((coin.P2PKH_verbyte, P2PKH_Address), (coin.P2SH_verbyte, P2SH_Address))
        for byte, kind in kinds:
            if byte == verbyte:
                return kind(raw[1:], coin)
        else:
            raise ValueError(f'unknown version byte {verbyte} for coin {coin.name}')
""")
ed('address.py', """        parts = [push_int(self.threshold)]
        parts.extend(push_item(public_key.to_bytes()) for public_key in self.public_keys)
        parts.append(push_int(len(self.public_keys)))
        parts.append(pack_byte(Ops.OP_CHECKMULTISIG))
        return b''.join(parts)
""", """        return bytes(Script().push_many([
            self.threshold, *[public_key.to_bytes() for public_key in self.public_keys],
            len(self.public_keys), Ops.OP_CHECKMULTISIG]))
""")
ed('keys.py', """        raw = base58_decode_check(txt)
        if len(raw) == 33 or len(raw) == 34 and raw[-1] == 0x01:
            return cls(raw[1:33], len(raw) == 34, Coin.from_WIF_byte(raw[0]))
        raise ValueError('invalid WIF private key')
""", """        raw = base58_decode_check(txt)
        secret, suffix = raw[1:33], raw[33:]
        if len(secret) != 32 or suffix not in (b'', b'\\x01'):
            raise ValueError('invalid WIF private key')
        coin = Coin.from_WIF_byte(raw[0])
        return cls(secret, compressed=bool(suffix), coin=coin)
""")
ed('keys.py', """        while True:
            try:
                return cls(source(32), True)
            except ValueError:
                pass
""", """        result = None
        while result is None:
            secret = source(32)
            try:
                result = cls(secret, True)
            except ValueError:
                continue
        return result
""")
ed('keys.py', """        return cls.from_int(be_bytes_to_int(secret) % CURVE_ORDER)
""", """        _, value = divmod(be_bytes_to_int(secret), CURVE_ORDER)
        return cls.from_int(value)
""")
ed('keys.py', """        data = self.to_bytes(compressed=False)
        x = be_bytes_to_int(data[1:33])
        y = be_bytes_to_int(data[33:])
        return x, y
""", """        both = be_bytes_to_int(self.to_bytes(compressed=False)[1:])
        return both >> 256, both & ((1 << 256) - 1)
""")
ed('keys.py', """        ciphertext = message[mlen + 33:-32]
        hmac = message[-32:]
        key = sha512(self.ecdh_shared_secret(ephemeral_pubkey).to_bytes())
        iv, key_e, key_m = key[0:16], key[16:32], key[32:]

        if hmac_digest(key_m, message[:-32], _sha256) != hmac:
            raise DecryptionError('bad HMAC')
""", """        body, mac = message[:-32], message[-32:]
        ciphertext = body[mlen + 33:]
        key = memoryview(sha512(self.ecdh_shared_secret(ephemeral_pubkey).to_bytes()))
        iv, key_e, key_m = bytes(key[:16]), bytes(key[16:32]), bytes(key[32:])

        if any(a != b for a, b in zip(hmac_digest(key_m, body, _sha256), mac)):
            raise DecryptionError('bad HMAC')
""")
ed('signature.py', """        kinds = []
        if self & 3:
            kinds.append(('ALL', 'NONE', 'SINGLE')[(self & 3) - 1])
        if self & self.ANYONE_CAN_PAY:
            kinds.append('ANYONE_CAN_PAY')
        if self & self.FORKID:
            kinds.append('FORKID')
        residual = self & ~(self.ANYONE_CAN_PAY | self.FORKID | 3)
        if residual:
            kinds.append(f'0x{residual:02x}')
        return '|'.join(kinds)
""", """        residual = self & ~(self.ANYONE_CAN_PAY | self.FORKID | 3)
        kinds = (
            ('', 'ALL', 'NONE', 'SINGLE')[self & 3],
            'ANYONE_CAN_PAY' if self.anyone_can_pay else '',
            'FORKID' * bool(self & self.FORKID),
            f'0x{residual:02x}' if residual else '',
        )
        return '|'.join(filter(None, kinds))
""")
ed('aes.py', """    padlen = data[-1]
    if not 0 < padlen <= 16:
        raise BadPaddingError('invalid final padding byte')
    if data[-padlen:] != bytes([padlen]) * padlen:
        raise BadPaddingError('inconsistent padding bytes')
    return data[:-padlen]
""", """    padlen = data[-1]
    if padlen not in range(1, 17):
        raise BadPaddingError('invalid final padding byte')
    body, padding = data[:-padlen], data[-padlen:]
    if set(padding) != {padlen}:
        raise BadPaddingError('inconsistent padding bytes')
    return body
""")
ed('bip32.py', """        if n >= HARDENED:
            serkey = b'\\0' + self._secret
        else:
            serkey = self.public_key.to_bytes()

        msg = serkey + pack_be_uint32(n)
        L, R""", """        serkey = bytes([0, *self._secret]) if n & HARDENED else self.public_key.to_bytes()
        msg = serkey + n.to_bytes(4, 'big')
        L, R""")
ed('bip32.py', """        while True:
            try:
                return self.child(n)
            except ValueError:
                if not 0 <= n < HARDENED:
                    raise
                n += 1
""", """        try:
            return self.child(n)
        except ValueError:
            if 0 <= n < HARDENED:
                return self.child_safe(n + 1)
            raise
""")
ed('bip32.py', """    result = list(derivation)
    for n in result:
        if not isinstance(n, int):
            raise TypeError('derivation must be a sequence of ints')
        if not 0 <= n < (1 << 32):
            raise ValueError(f'invalid child number: {n}')
    return result
""", """    result = []
    for n in derivation:
        result.append(n)
    for n in result:
        if isinstance(n, int):
            if n < 0 or n >> 32:
                raise ValueError(f'invalid child number: {n}')
        else:
            raise TypeError('derivation must be a sequence of ints')
    return result
""")
ed('bip32.py', """    result = []
    for part in parts[1:]:
        match = PART_REGEX.match(part)
        if not match:
            raise ValueError(f'invalid bip32 chain: {chain_str}')
        value = int(match.groups()[0])
        if value >= HARDENED:
            raise ValueError(f'invalid bip32 chain: {chain_str}')
        if part[-1] == "'":
            value += HARDENED
        result.append(value)
    return result
""", """    def index(part):
        if (match := PART_REGEX.fullmatch(part)) and (value := int(match[1])) < HARDENED:
            return value | HARDENED if part.endswith("'") else value
        raise ValueError(f'invalid bip32 chain: {chain_str}')

    return list(map(index, parts[1:]))
""")
ed('work.py', """    size = (bits + 7) // 8
    shift = 8 * (size - 3)
    if shift <= 0:
        word = target << -shift
    else:
        word = target >> shift

    # Avoid setting the sign bit
    if word & 0x00800000:
        word >>= 8
        size += 1

    return word | (size << 24)
""", """    size = -(-bits // 8)
    word = int.from_bytes(target.to_bytes(32, 'big')[32 - size:][:3].ljust(3, b'\\0'), 'big')

    # Avoid setting the sign bit
    if word >> 23:
        word, size = word >> 8, size + 1

    return (size << 24) + word
""")
ed('work.py', """        def maybe_swap(m, n):
            if prev3[m].timestamp > prev3[n].timestamp:
                prev3[m], prev3[n] = prev3[n], prev3[m]

        prev3 = [header_at_height(chain, h) for h in range(ref_height - 3, ref_height)]
        maybe_swap(0, 2)
        maybe_swap(0, 1)
        maybe_swap(1, 2)
        return prev3[1]
""", """        first, middle, last = (header_at_height(chain, ref_height - n) for n in (3, 2, 1))
        if first.timestamp > last.timestamp:
            first, last = last, first
        if first.timestamp > middle.timestamp:
            first, middle = middle, first
        return last if middle.timestamp > last.timestamp else middle
""")
ed('work.py', """        for test_height in range(height - 1, -1, -1):
            bits = header_bits(raw_header(chain, test_height))
            if test_height % 2016 == 0 or bits != genesis_bits:
                return bits
        # impossible to fall through here
""", """        test_height = height - 1
        while True:
            bits = header_bits(raw_header(chain, test_height))
            if bits != genesis_bits or not test_height % 2016:
                return bits
            test_height -= 1
""")
ed('chain.py', """        other_heights = other_chain.parent_heights()
        our_heights = self.parent_heights()
        result = (None, -1)
        for chain in our_heights:
            if chain in other_heights:
                common_height = min(other_heights[chain], our_heights[chain])
                if common_height > result[1]:
                    result = (chain, common_height)
        return result
""", """        theirs = other_chain.parent_heights()
        common = [(min(theirs[chain], height), n, chain)
                  for n, (chain, height) in enumerate(self.parent_heights().items()) if chain in theirs]
        if not common:
            return None, -1
        height, _, chain = max(common, key=lambda item: (item[0], -item[1]))
        return chain, height
""")
ed('chain.py', """        key = header_hash[:4]
        start = 0
        while True:
            index = self._short_hashes.find(key, start)
            if index % 4 == 0:
                our_index = index // 4
                raw_header = self._storage[our_index + self.checkpoint.height]
                if self.coin.header_hash(raw_header) == header_hash:
                    return raw_header, our_index
            if index == -1:
                raise MissingHeader(f'no header with hash {hash_to_hex_str(header_hash)}')
            start += 1
""", """        key = header_hash[:4]
        index = self._short_hashes.find(key)
        while index >= 0:
            our_index, rem = divmod(index, 4)
            if not rem:
                raw_header = self._storage[our_index + self.checkpoint.height]
                if self.coin.header_hash(raw_header) == header_hash:
                    return raw_header, our_index
            index = self._short_hashes.find(key, index + 1)
        raise MissingHeader(f'no header with hash {hash_to_hex_str(header_hash)}')
""")
ed('chain.py', """        if chain.tip.hash != prev_header.hash:
            try:
                return self.lookup(header.hash)
            except MissingHeader:
                pass
""", """        try:
            if chain.tip.hash != prev_header.hash:
                return self.lookup(header.hash)
        except MissingHeader:
            logger.debug('a new fork')
""")
ed('chain.py', """        longest = self._chains[0]
        for chain in self._chains:
            if chain.work > longest.work:
                longest = chain
        return longest
""", """        return max(self._chains, key=attrgetter('work'))
""")
ed('chain.py', "import math\n", "import math\nfrom operator import attrgetter\n")
ed('chain.py', """        timestamps = [timestamp(raw_header(chain, h))
                      for h in range(height, max(-1, height - 11), -1)]
        return sorted(timestamps)[len(timestamps) // 2]
""", """        timestamps = []
        for h in range(max(0, height - 10), height + 1):
            insort(timestamps, timestamp(raw_header(chain, h)))
        return timestamps[len(timestamps) // 2]
""")
ed('chain.py', "import logging\n", "from bisect import insort\nimport logging\n")
ed('chain.py', """        return sum(header_work(raw_header(get_header_index(h)))
                   for h in range(start_height, end_height))
""", """        return sum(map(header_work, map(raw_header, map(get_header_index, range(start_height, end_height)))))
""")
ed('mnemonic.py', """        entropy = 0
        mult = 1
        for part in reversed(parts):
            entropy += part * mult
            mult *= 2048
""", """        entropy = int(''.join(f'{part:011b}' for part in parts), 2)
""")
ed('mnemonic.py', """        m_len = 3 * size // 4
        parts = []
        for _ in range(m_len):
            entropy_cs, part = divmod(entropy_cs, 2048)
            parts.append(part)

        return ' '.join(wordlist[part] for part in reversed(parts))
""", """        words = deque()
        while len(words) < 3 * size // 4:
            words.appendleft(wordlist[entropy_cs & 0x7ff])
            entropy_cs >>= 11

        return ' '.join(words)
""")
ed('mnemonic.py', "from math import ceil, log\n", "from collections import deque\nfrom math import ceil, log\n")
ed('mnemonic.py', """        words = cls.normalize(mnemonic).split()

        m_len = len(words)
        if m_len not in {12, 15, 18, 21, 24}:
            return False
""", """        words = cls.normalize(mnemonic).split()

        m_len = len(words)
        if m_len % 3 or not 12 <= m_len <= 24:
            return False
""")
ed('coin.py', """        for coin in all_coins:
            if WIF_byte == coin.WIF_byte:
                return coin
        raise ValueError(f'invalid WIF byte {WIF_byte}')
""", """        try:
            return next(filter(lambda coin: coin.WIF_byte == WIF_byte, all_coins))
        except StopIteration:
            raise ValueError('invalid WIF byte %s' % WIF_byte) from None
""")
ed('hashes.py', """    return bytes(reversed(x)).hex()
""", """    return x[::-1].hex()
""")
ed('hashes.py', """    return bytes(reversed(bytes_fromhex(x)))
""", """    result = bytearray(bytes_fromhex(x))
    result.reverse()
    return bytes(result)
""")
ed('misc.py', """    if size is None:
        size = (value.bit_length() + 7) // 8
    return value.to_bytes(size, 'big')
""", """    return value.to_bytes(-(-value.bit_length() // 8) if size is None else size, byteorder='big')
""")

if __name__ == '__main__':
    root = sys.argv[1]
    only = sys.argv[2:]
    for n, (f, a, b) in enumerate(E):
        if only and str(n) not in only and f not in only:
            continue
        p = root + '/bitcoinx/' + f
        s = open(p).read()
        if s.count(a) < 1:
            print('not found', n, f, a[:60])
            continue
        open(p, 'w').write(s.replace(a, b, 1))
