"""Behaviour-preserving edits, applied to a copy of the repository: usage refactor.py COPY.  Checks must stay quiet on the result."""
import sys
E = []


def ed(f, a, b):
    E.append((f, a, b))


ed('packing.py', """    result, = unpack_le_int32(read(4))
    return result
""", """    return _read_struct(read, struct_le_i)
""")
ed('packing.py', """    result, = unpack_le_int64(read(8))
    return result
""", """    return _read_struct(read, struct_le_q)
""")
ed('packing.py', """    result, = unpack_be_uint16(read(2))
    return result
""", """    return unpack_be_uint16(read(2))[0]
""")
ed('packing.py', """# Stream operations
""", """# Stream operations


def _read_struct(read, struct):
    data = read(struct.size)
    return struct.unpack(data)[0]
""")
ed('packing.py', """    parts = [pack_varint(len(items))]
    parts.extend(pack_one(item) for item in items)
    return b''.join(parts)
""", """    result = bytearray(pack_varint(len(items)))
    for item in items:
        result += pack_one(item)
    return bytes(result)
""")
ed('packing.py', """    if n < 253:
        return pack_byte(n)
    if n < 65536:
        return b'\\xfd' + pack_le_uint16(n)
    if n < 4294967296:
        return b'\\xfe' + pack_le_uint32(n)
    return b'\\xff' + pack_le_uint64(n)
""", """    if n >= 1 << 32:
        return b''.join((b'\\xff', pack_le_uint64(n)))
    elif n > 0xffff:
        return b''.join((b'\\xfe', pack_le_uint32(n)))
    elif n > 252:
        return b''.join((b'\\xfd', pack_le_uint16(n)))
    else:
        return pack_byte(n)
""")
ed('packing.py', """    if n >= 0:
        if n < 253:
            return 1
        if n < 65536:
            return 3
        if n < 4294967296:
            return 5
        if n <= 18446744073709551615:
            return 9
""", """    if n >= 0:
        for limit, length in ((253, 1), (65536, 3), (4294967296, 5), (1 << 64, 9)):
            if n < limit:
                return length
""")
ed('packing.py', """    return [read_one(read) for _ in range(read_varint(read))]
""", """    count = read_varint(read)
    result = []
    while len(result) < count:
        result.append(read_one(read))
    return result
""")
ed('misc.py', """    for i in range(0, len(items), size):
        yield items[i: i + size]
""", """    pos = 0
    while pos < len(items):
        yield items[pos: pos + size]
        pos += size
""")
ed('hashes.py', """    return bytes(reversed(x)).hex()
""", """    return x[::-1].hex()
""")
ed('hashes.py', """    return bytes(reversed(bytes_fromhex(x)))
""", """    return bytes_fromhex(x)[::-1]
""")
ed('hashes.py', """    h = _new_hash('ripemd160')
    h.update(x)
    return h.digest()
""", """    return _new_hash('ripemd160', x).digest()
""")
ed('tx.py', """        return b''.join((
            pack_le_int32(self.version),
            pack_list(self.inputs, TxInput.to_bytes),
            pack_list(self.outputs, TxOutput.to_bytes),
            pack_le_uint32(self.locktime),
        ))
""", """        parts = [pack_le_int32(self.version)]
        parts.append(pack_list(self.inputs, lambda txin: txin.to_bytes()))
        parts.append(pack_list(self.outputs, lambda txout: txout.to_bytes()))
        parts.append(pack_le_uint32(self.locktime))
        return b''.join(parts)
""")
ed('tx.py', """        sighash_not_single_none = sighash.base not in (SigHash.SINGLE, SigHash.NONE)
        if not sighash.anyone_can_pay:
            hash_prevouts = self._hash_prevouts()
            if sighash_not_single_none:
                hash_sequence = self._hash_sequence()
        if sighash_not_single_none:
            hash_outputs = self._hash_outputs()
        elif (sighash.base == SigHash.SINGLE and input_index < len(self.outputs)):
            hash_outputs = double_sha256(self.outputs[input_index].to_bytes())
""", """        base = sighash.base
        anyone = sighash.anyone_can_pay
        if base == SigHash.SINGLE:
            if input_index < len(self.outputs):
                hash_outputs = double_sha256(self.outputs[input_index].to_bytes())
        elif base != SigHash.NONE:
            hash_outputs = self._hash_outputs()
            if not anyone:
                hash_sequence = self._hash_sequence()
        if not anyone:
            hash_prevouts = self._hash_prevouts()
""")
ed('tx.py', """        preimage = b''.join(pack_le_uint32(txin.sequence) for txin in self.inputs)
        return double_sha256(preimage)
""", """        preimage = b''
        for txin in self.inputs:
            preimage += pack_le_uint32(txin.sequence)
        return double_sha256(preimage)
""")
ed('tx.py', """        return all(txin.is_final() for txin in self.inputs)
""", """        for txin in self.inputs:
            if not txin.is_final():
                return False
        return True
""")
ed('tx.py', """        return (
            self.locktime == 0 or
            self.locktime < (block_height if self.locktime < LOCKTIME_THRESHOLD else timestamp) or
            self.are_inputs_final()
        )
""", """        locktime = self.locktime
        if not locktime:
            return True
        if locktime >= LOCKTIME_THRESHOLD:
            limit = timestamp
        else:
            limit = block_height
        return limit > locktime or self.are_inputs_final()
""")
ed('tx.py', """        return (varint_len(len(inputs)) + sum(tx_input.size() for tx_input in inputs) +
                varint_len(len((outputs))) + sum(output.size() for output in outputs) + 8)
""", """        total = 8
        for items in (inputs, outputs):
            total += varint_len(len(items))
            for item in items:
                total += item.size()
        return total
""")
ed('tx.py', """        return sum(output.value for output in self.outputs)
""", """        total = 0
        for output in self.outputs:
            total += output.value
        return total
""")
ed('tx.py', """        return cls(
            read(32),                       # prev_hash
            read_le_uint32(read),           # prev_idx
            Script(read_varbytes(read)),    # script_sig
            read_le_uint32(read),           # sequence
        )
""", """        prev_hash = read(32)
        prev_idx = read_le_uint32(read)
        script_sig = Script(read_varbytes(read))
        sequence = read_le_uint32(read)
        return cls(prev_hash=prev_hash, prev_idx=prev_idx, script_sig=script_sig, sequence=sequence)
""")
ed('tx.py', """            'nInputs': len(self.inputs),
            'vin': [input.to_json(flags, index) for index, input in enumerate(self.inputs)],
""", """            'nInputs': len(self.inputs),
            'vin': list(map(lambda pair: pair[1].to_json(flags, pair[0]), enumerate(self.inputs))),
""")
ed('script.py', """    dlen = len(item)
    if dlen <= 1:
        # Values 1...16 and 0x81 can be pushed specially as a single opcode.
        if dlen == 0:
            return b_OP_0
        value = item[0]
        if 0 < value <= 16:
            return pack_byte(OP_1 + value - 1)
        if value == 0x81:
            return b_OP_1NEGATE

    if dlen < OP_PUSHDATA1:
        return pack_byte(dlen) + item
    if dlen <= 0xff:
        return pack_byte(OP_PUSHDATA1) + pack_byte(dlen) + item
    if dlen <= 0xffff:
        return pack_byte(OP_PUSHDATA2) + pack_le_uint16(dlen) + item
    return pack_byte(OP_PUSHDATA4) + pack_le_uint32(dlen) + item
""", """    if not item:
        return b_OP_0
    dlen = len(item)
    if dlen == 1:
        # Values 1...16 and 0x81 can be pushed specially as a single opcode.
        value = item[0]
        if value in range(1, 17):
            return pack_byte(OP_1 + value - 1)
        elif value == 0x81:
            return b_OP_1NEGATE

    return _push_prefix(dlen) + item


def _push_prefix(dlen):
    if dlen > 0xffff:
        return pack_byte(OP_PUSHDATA4) + pack_le_uint32(dlen)
    if dlen > 0xff:
        return pack_byte(OP_PUSHDATA2) + pack_le_uint16(dlen)
    if dlen >= OP_PUSHDATA1:
        return bytes((OP_PUSHDATA1, dlen))
    return pack_byte(dlen)
""")
ed('script.py', """    if len(items) >= 2:
        parts.append(b_OP_2DROP * (len(parts) // 2))
    if len(items) & 1:
        parts.append(b_OP_DROP)
    return b''.join(parts)
""", """    pairs, odd = divmod(len(parts), 2)
    for _ in range(pairs):
        parts.append(b_OP_2DROP)
    if odd:
        parts.append(b_OP_DROP)
    return b''.join(parts)
""")
ed('script.py', """    item = int_to_le_bytes(abs(value))
    if item[-1] & 0x80:
        item += pack_byte(0x80 if value < 0 else 0x00)
    elif value < 0:
        item = item[:-1] + pack_byte(item[-1] | 0x80)
    return push_item(item)
""", """    negative = value < 0
    item = bytearray(int_to_le_bytes(-value if negative else value))
    if item[-1] >= 0x80:
        item.append(0)
    if negative:
        item[-1] |= 0x80
    return push_item(bytes(item))
""")
ed('script.py', """    if item[-1] & 0x80:
        return -le_bytes_to_int(item[:-1] + pack_byte(item[-1] & 0x7f))
    return le_bytes_to_int(item)
""", """    value = le_bytes_to_int(item)
    sign_bit = 1 << (8 * len(item) - 1)
    if value >= sign_bit:
        return sign_bit - value
    return value
""")
ed('script.py', """            if op > OP_16:
                yield op
            elif op <= OP_PUSHDATA4:
                try:
                    if op < OP_PUSHDATA1:
                        dlen = op
                    elif op == OP_PUSHDATA1:
                        dlen = script[n]
                        n += 1
                    elif op == OP_PUSHDATA2:
                        dlen, = unpack_le_uint16(script[n: n + 2])
                        n += 2
                    else:
                        dlen, = unpack_le_uint32(script[n: n + 4])
                        n += 4
                    data = script[n: n + dlen]
                    n += dlen
                    assert len(data) == dlen
                    yield data
                except Exception:
                    raise TruncatedScriptError from None
            elif op >= OP_1:
                yield pack_byte(op - OP_1 + 1)
            elif op == OP_1NEGATE:
                yield b'\\x81'
            else:
                assert op == OP_RESERVED
                yield op
""", """            if op <= OP_PUSHDATA4:
                if op < OP_PUSHDATA1:
                    dlen = op
                else:
                    size = {OP_PUSHDATA1: 1, OP_PUSHDATA2: 2, OP_PUSHDATA4: 4}[op]
                    if n + size > limit:
                        raise TruncatedScriptError
                    dlen = le_bytes_to_int(script[n: n + size])
                    n += size
                if n + dlen > limit:
                    raise TruncatedScriptError
                yield script[n: n + dlen]
                n += dlen
            elif op == OP_1NEGATE:
                yield b'\\x81'
            elif OP_1 <= op <= OP_16:
                yield pack_byte(op - OP_1 + 1)
            else:
                yield op
""")
ed('script.py', """        stripped_ops = self._stripped_ops()

        template = bytes(OP_PUSHDATA1 if isinstance(op, bytes) else op for op in stripped_ops)
        items = [op for op in stripped_ops if isinstance(op, bytes)]
        return template, items""", """        template = bytearray()
        items = []
        for op in self._stripped_ops():
            if isinstance(op, bytes):
                items.append(op)
                op = OP_PUSHDATA1
            template.append(op)
        return bytes(template), items""")
ed('script.py', """                if op in {OP_NOP, OP_DROP, OP_2DROP}:
                    # Strip OP_NOP
                    if op == OP_NOP:
                        continue

                    # Remove (data, OP_DROP)
                    if op == OP_DROP and result and isinstance(result[-1], bytes):
                        result.pop()
                        continue

                    # Remove (data, data, OP_2DROP)
                    if (op == OP_2DROP and len(result) >= 2 and
                            isinstance(result[-1], bytes) and isinstance(result[-2], bytes)):
                        result.pop()
                        result.pop()
                        continue

                result.append(op)
""", """                # Strip OP_NOP
                if op == OP_NOP:
                    continue
                # Remove (data, OP_DROP) and (data, data, OP_2DROP)
                drop = {OP_DROP: 1, OP_2DROP: 2}.get(op, 0)
                dropped = result[-drop:] if drop else []
                if drop and len(dropped) == drop and all(isinstance(x, bytes) for x in dropped):
                    del result[-drop:]
                else:
                    result.append(op)
""")
ed('script.py', """        op_to_asm_word = self.op_to_asm_word
        try:
            return ' '.join(op_to_asm_word(op, decode_sighash) for op in self.ops())
        except TruncatedScriptError:
            return '[error]'
""", """        words = []
        try:
            for op in self.ops():
                words.append(self.op_to_asm_word(op, decode_sighash))
        except TruncatedScriptError:
            return '[error]'
        return ' '.join(words)
""")
ed('signature.py', """        kinds = []
        if self & 3:
            kinds.append(('ALL', 'NONE', 'SINGLE')[(self & 3) - 1])
""", """        kinds = []
        kind = {1: 'ALL', 2: 'NONE', 3: 'SINGLE'}.get(self & 3)
        if kind is not None:
            kinds.append(kind)
""")
ed('signature.py', """    if len(recoverable_sig) != 65:
        raise InvalidSignatureError('invalid recoverable signature')
    cdata_recsig = ffi.new('secp256k1_ecdsa_recoverable_signature *')
    recid = recoverable_sig[-1]
    if not 0 <= recid <= 3:
        raise InvalidSignatureError('invalid recoverable signature')
""", """    recid = recoverable_sig[64] if len(recoverable_sig) == 65 else -1
    if recid not in (0, 1, 2, 3):
        raise InvalidSignatureError('invalid recoverable signature')
    cdata_recsig = ffi.new('secp256k1_ecdsa_recoverable_signature *')
""")
ed('signature.py', """    return message_sig[1:] + pack_byte((message_sig[0] - 27) & 3)
""", """    first, rest = message_sig[0], message_sig[1:]
    return rest + bytes([(first - 27) % 4])
""")
ed('base58.py', """    cvalue = base58_cmap.get
    value = 0
    try:
        for c in txt:
            value = value * 58 + cvalue(c)
    except TypeError:
        raise Base58Error(f'invalid base 58 character "{c}"') from None

    result = int_to_be_bytes(value)

    # Prepend leading zero bytes if necessary
    count = 0
    for c in txt:
        if c != '1':
            break
        count += 1
    if count:
        result = bytes(count) + result

    return result
""", """    value = 0
    for c in txt:
        digit = base58_cmap.get(c)
        if digit is None:
            raise Base58Error(f'invalid base 58 character "{c}"')
        value = value * 58 + digit

    # Prepend leading zero bytes if necessary
    count = len(txt) - len(txt.lstrip('1'))
    return bytes(count) + int_to_be_bytes(value)
""")
ed('base58.py', """    txt = ''
    while value:
        value, mod = divmod(value, 58)
        txt += base58_chars[mod]

    for byte in be_bytes:
        if byte != 0:
            break
        txt += '1'

    return txt[::-1]
""", """    chars = []
    while value > 0:
        chars.append(base58_chars[value % 58])
        value //= 58

    for byte in be_bytes:
        if byte:
            break
        chars.append('1')

    chars.reverse()
    return ''.join(chars)
""")
ed('cashaddr.py', """    lower = addr.lower()
    if lower != addr and addr.upper() != addr:
        raise ValueError('mixed case in address: {}'.format(addr))

    parts = lower.split(':', 1)
    if len(parts) != 2:
        raise ValueError("address missing ':' separator: {}".format(addr))

    prefix, payload = parts
    if not prefix:
""", """    lower = addr.lower()
    if addr not in (lower, addr.upper()):
        raise ValueError('mixed case in address: {}'.format(addr))

    prefix, sep, payload = lower.partition(':')
    if not sep:
        raise ValueError("address missing ':' separator: {}".format(addr))

    if not prefix:
""")
ed('cashaddr.py', """    if not all(33 <= ord(x) <= 126 for x in prefix):
""", """    if any(ord(x) < 33 or ord(x) > 126 for x in prefix):
""")
ed('address.py', """        if verbyte == coin.P2PKH_verbyte:
            return P2PKH_Address(hash160, coin)
        if verbyte == coin.P2SH_verbyte:
            return P2SH_Address(hash160, coin)
""", """        for cls_, value in ((P2PKH_Address, coin.P2PKH_verbyte), (P2SH_Address, coin.P2SH_verbyte)):
            if verbyte == value:
                return cls_(hash160, coin)
""")
ed('address.py', """        parts = [push_int(self.threshold)]
        parts.extend(push_item(public_key.to_bytes()) for public_key in self.public_keys)
        parts.append(push_int(len(self.public_keys)))
        parts.append(pack_byte(Ops.OP_CHECKMULTISIG))
        return b''.join(parts)
""", """        return (push_int(self.threshold) + b''.join([push_item(pk.to_bytes()) for pk in self.public_keys])
                + push_int(len(self.public_keys)) + pack_byte(Ops.OP_CHECKMULTISIG))
""")
ed('work.py', """    period = prev.timestamp - prior.timestamp
    target_period = 2016 * 600
    adj_period = min(max(period, target_period // 4), target_period * 4)
""", """    period = prev.timestamp - prior.timestamp
    target_period = 2016 * 600
    if period < target_period // 4:
        adj_period = target_period // 4
    elif period > target_period * 4:
        adj_period = target_period * 4
    else:
        adj_period = period
""")
ed('work.py', """        prev3 = [header_at_height(chain, h) for h in range(ref_height - 3, ref_height)]
        maybe_swap(0, 2)
        maybe_swap(0, 1)
        maybe_swap(1, 2)
        return prev3[1]
""", """        prev3 = [header_at_height(chain, ref_height - n) for n in (3, 2, 1)]
        for m, n in ((0, 2), (0, 1), (1, 2)):
            maybe_swap(m, n)
        return prev3[1]
""")
ed('work.py', """    new_target = bits_to_target(bits)
    new_target += new_target >> 2
    return target_to_bits(min(new_target, headers.coin.max_target))
""", """    target = bits_to_target(bits)
    return _capped_bits(headers, target + target // 4)


def _capped_bits(headers, target):
    max_target = headers.coin.max_target
    if target > max_target:
        target = max_target
    return target_to_bits(target)
""")
ed('work.py', """    if height < 478558:
        return _required_bits_fortnightly(headers, chain, height)
    elif height <= 504031:
        return _required_bits_EDA(headers, chain, height)
    else:
        return _required_bits_DAA(headers, chain, height)
""", """    if height > 504031:
        method = _required_bits_DAA
    elif height >= 478558:
        method = _required_bits_EDA
    else:
        method = _required_bits_fortnightly
    return method(headers, chain, height)
""")
ed('work.py', """        for test_height in range(height - 1, -1, -1):
            bits = header_bits(raw_header(chain, test_height))
            if test_height % 2016 == 0 or bits != genesis_bits:
                return bits
        # impossible to fall through here
""", """        test_height = height - 1
        while True:
            bits = header_bits(raw_header(chain, test_height))
            if bits != genesis_bits or test_height % 2016 == 0:
                return bits
            test_height -= 1
""")
ed('work.py', """    size = bits >> 24
    shift = 8 * (size - 3)
    if shift <= 0:
        result = word >> -shift
        # target_to_bits never generates these values
        if (result << -shift) != word:
            raise ValueError(f'bits value 0x{bits:x} is invalid')
        return result
    else:
        return word << shift
""", """    size = bits >> 24
    if size > 3:
        return word * (1 << (8 * (size - 3)))
    result, dropped = divmod(word, 1 << (8 * (3 - size)))
    # target_to_bits never generates these values
    if dropped:
        raise ValueError(f'bits value 0x{bits:x} is invalid')
    return result
""")
ed('work.py', """    size = (bits + 7) // 8
    shift = 8 * (size - 3)
    if shift <= 0:
        word = target << -shift
    else:
        word = target >> shift
""", """    size = (bits + 7) // 8
    word = (target << 24) >> (8 * size)
""")
ed('chain.py', """        result = {self: self.height}
        chain = self
        while chain.parent:
            result[chain.parent] = chain.first_height - 1
            chain = chain.parent
        return result
""", """        result = {}
        chain, height = self, self.height
        while chain is not None:
            result[chain] = height
            height = chain.first_height - 1
            chain = chain.parent
        return result
""")
ed('chain.py', """        if height >= self.first_height:
            try:
                return self._header_indices[height - self.first_height]
            except IndexError:
                pass
        elif self.parent:
            return self.parent.header_index(height)
        elif height >= 0:
            return height
        raise MissingHeader(f'no header at height {height}')
""", """        chain = self
        while height < chain.first_height and chain.parent:
            chain = chain.parent
        offset = height - chain.first_height
        if 0 <= offset < len(chain._header_indices):
            return chain._header_indices[offset]
        if offset < 0 <= height:
            return height
        raise MissingHeader(f'no header at height {height}')
""")
ed('chain.py', """        longest = self._chains[0]
        for chain in self._chains:
            if chain.work > longest.work:
                longest = chain
        return longest
""", """        return max(self._chains, key=lambda chain: chain.work)
""")
ed('chain.py', """        timestamps = [timestamp(raw_header(chain, h))
                      for h in range(height, max(-1, height - 11), -1)]
        return sorted(timestamps)[len(timestamps) // 2]
""", """        timestamps = []
        for h in range(max(0, height - 10), height + 1):
            timestamps.append(timestamp(raw_header(chain, h)))
        timestamps.sort()
        return timestamps[len(timestamps) // 2]
""")
ed('chain.py', """        return sum(header_work(raw_header(get_header_index(h)))
                   for h in range(start_height, end_height))
""", """        work = 0
        for h in range(start_height, end_height):
            work += header_work(raw_header(get_header_index(h)))
        return work
""")
ed('chain.py', """        key = header_hash[:4]
        start = 0
        while True:
            index = self._short_hashes.find(key, start)
            if index % 4 == 0:
                our_index = index // 4
                raw_header = self._storage[our_index + self.checkpoint.height]
                if self.coin.header_hash(raw_header) == header_hash:
                    return raw_header, our_index
            if index == -1:
                raise MissingHeader(f'no header with hash {hash_to_hex_str(header_hash)}')
            start += 1
""", """        key = header_hash[:4]
        index = self._short_hashes.find(key)
        while index != -1:
            our_index, rem = divmod(index, 4)
            if rem == 0:
                raw_header = self._storage[our_index + self.checkpoint.height]
                if self.coin.header_hash(raw_header) == header_hash:
                    return raw_header, our_index
            index = self._short_hashes.find(key, index + 1)
        raise MissingHeader(f'no header with hash {hash_to_hex_str(header_hash)}')
""")
ed('chain.py', """        mmap = self.mmap
        start = self._offset(index)
        if start >= len(mmap):
            mmap.close()
            mmap = self.mmap = map_file(self.filename, self._offset(index + 5_000))
        self.mmap[start: start + 80] = raw_header
""", """        start = self._offset(index)
        if start >= len(self.mmap):
            self._grow(index + 5_000)
        self.mmap[start: start + 80] = raw_header
""")
ed('chain.py', """    def _set_raw_header(self, index, raw_header):
""", """    def _grow(self, count):
        self.mmap.close()
        self.mmap = map_file(self.filename, self._offset(count))

    def _set_raw_header(self, index, raw_header):
""")
ed('chain.py', """        required_bits = self.required_bits(chain, header.height, header.timestamp)
        if header.bits != required_bits:
            raise IncorrectBits(header, required_bits)
        if header.hash_value() > header.target():
            raise InsufficientPoW(header)
""", """        self._check_header(header, chain)
""")
ed('chain.py', """    def __len__(self):
        '''The number of headers stored.'''
""", """    def _check_header(self, header, chain):
        required_bits = self.required_bits(chain, header.height, header.timestamp)
        if header.bits != required_bits:
            raise IncorrectBits(header, required_bits)
        if not header.hash_value() <= header.target():
            raise InsufficientPoW(header)

    def __len__(self):
        '''The number of headers stored.'''
""")
ed('bip32.py', """        if n >= HARDENED:
            serkey = b'\\0' + self._secret
        else:
            serkey = self.public_key.to_bytes()

        msg = serkey + pack_be_uint32(n)
""", """        serkey = self.public_key.to_bytes() if n < HARDENED else b''.join((b'\\0', self.to_bytes()))
        msg = b''.join((serkey, pack_be_uint32(n)))
""")
ed('bip32.py', """    result = []
    for part in parts[1:]:
        match = PART_REGEX.match(part)
        if not match:
            raise ValueError(f'invalid bip32 chain: {chain_str}')
        value = int(match.groups()[0])
        if value >= HARDENED:
            raise ValueError(f'invalid bip32 chain: {chain_str}')
        if part[-1] == "'":
            value += HARDENED
        result.append(value)
    return result
""", """    def index(part):
        match = PART_REGEX.match(part)
        if match:
            value = int(match.group(1))
            if value < HARDENED:
                return value + (HARDENED if part.endswith("'") else 0)
        raise ValueError(f'invalid bip32 chain: {chain_str}')

    return [index(part) for part in parts[1:]]
""")
ed('bip32.py', """    coin, is_public_key = Coin.lookup_xver_bytes(ekey[:4])
    n, = unpack_be_uint32(ekey[9:13])
    derivation = BIP32Derivation(ekey[13:45], n, ekey[4], ekey[5:9])
    if is_public_key:
        key = BIP32PublicKey(PublicKey.from_bytes(ekey[45:]), derivation, coin)
    else:
        if ekey[45] != 0:
            raise ValueError(f'invalid extended private key prefix byte {ekey[45]}')
        key = BIP32PrivateKey(ekey[46:], derivation, coin)

    return key
""", """    ver_bytes, depth, fingerprint, n, chain_code, payload = struct.unpack('>4sB4sI32s33s', ekey)
    coin, is_public_key = Coin.lookup_xver_bytes(ver_bytes)
    derivation = BIP32Derivation(chain_code, n, depth, fingerprint)
    if is_public_key:
        return BIP32PublicKey(PublicKey.from_bytes(payload), derivation, coin)
    if payload[0]:
        raise ValueError(f'invalid extended private key prefix byte {payload[0]}')
    return BIP32PrivateKey(payload[1:], derivation, coin)
""")
ed('bip32.py', "import re\n", "import re\nimport struct\n")
ed('mnemonic.py', """        m_len = 3 * size // 4
        parts = []
        for _ in range(m_len):
            entropy_cs, part = divmod(entropy_cs, 2048)
            parts.append(part)

        return ' '.join(wordlist[part] for part in reversed(parts))
""", """        m_len = 3 * size // 4
        words = [wordlist[(entropy_cs >> (11 * n)) & 2047] for n in range(m_len - 1, -1, -1)]
        return ' '.join(words)
""")
ed('mnemonic.py', """        def safe_index(word):
            try:
                return wordlist.index(word)
            except ValueError:
                return None

        parts = [safe_index(word) for word in words]
        bad_words = [word for part, word in zip(parts, words) if part is None]
        if bad_words:
            raise cls.BadWords(bad_words)

        entropy = 0
        mult = 1
        for part in reversed(parts):
            entropy += part * mult
            mult *= 2048
""", """        bad_words = [word for word in words if word not in wordlist]
        if bad_words:
            raise cls.BadWords(bad_words)

        entropy = 0
        for word in words:
            entropy = (entropy << 11) | wordlist.index(word)
""")
ed('mnemonic.py', """        checksum = entropy % cs_mod
        entropy = int_to_be_bytes(entropy // cs_mod, size=ent_bytes)
""", """        entropy, checksum = divmod(entropy, cs_mod)
        entropy = int_to_be_bytes(entropy, size=ent_bytes)
""")
ed('mnemonic.py', """                value = int(chunk, 16)
                value, i1 = divmod(value, n)
                i3, i2 = divmod(value, n)
                i2 = (i2 + i1) % n
                i3 = (i3 + i2) % n
                yield i1
                yield i2
                yield i3
""", """                value = int(chunk, 16)
                i1 = value % n
                i2 = (value // n + i1) % n
                yield from (i1, i2, (value // n // n + i2) % n)
""")
ed('mnemonic.py', """        def words(entropy, wordlist):
            count = len(wordlist)
            while entropy:
                entropy, rem = divmod(entropy, count)
                yield wordlist[rem]

        return ' '.join(words(entropy, wordlist))
""", """        words = []
        count = len(wordlist)
        while entropy != 0:
            words.append(wordlist[entropy % count])
            entropy //= count
        return ' '.join(words)
""")
ed('keys.py', """        if isinstance(secret, bytes):
            if len(secret) != KEY_SIZE:
                raise ValueError('private key must be 32 bytes')
            if not lib.secp256k1_ec_seckey_verify(CONTEXT, secret):
                raise ValueError('private key out of range')
            self._secret = secret
""", """        if isinstance(secret, bytes):
            if len(secret) == KEY_SIZE:
                valid = lib.secp256k1_ec_seckey_verify(CONTEXT, secret)
            else:
                raise ValueError('private key must be 32 bytes')
            if valid == 0:
                raise ValueError('private key out of range')
            self._secret = secret
""")
ed('keys.py', """        if len(raw) == 33 or len(raw) == 34 and raw[-1] == 0x01:
            return cls(raw[1:33], len(raw) == 34, Coin.from_WIF_byte(raw[0]))
        raise ValueError('invalid WIF private key')
""", """        compressed = len(raw) == 34
        if compressed:
            raw, suffix = raw[:-1], raw[-1]
        else:
            suffix = 1
        if len(raw) != 33 or suffix != 1:
            raise ValueError('invalid WIF private key')
        coin = Coin.from_WIF_byte(raw[0])
        return cls(raw[1:], compressed, coin)
""")
ed('keys.py', """        if (self._compressed if compressed is None else compressed):
            length, flag = 33, EC_COMPRESSED
        else:
            length, flag = 65, EC_UNCOMPRESSED
""", """        if compressed is None:
            compressed = self._compressed
        length, flag = (33, EC_COMPRESSED) if compressed else (65, EC_UNCOMPRESSED)
""")
ed('keys.py', """        data = self.to_bytes(compressed=False)
        x = be_bytes_to_int(data[1:33])
        y = be_bytes_to_int(data[33:])
        return x, y
""", """        data = self.to_bytes(compressed=False)[1:]
        return tuple(be_bytes_to_int(part) for part in (data[:32], data[32:]))
""")
ed('keys.py', """        return (public_key.verify_message(message_sig, message, hasher) and
                any(hash160 == public_key.hash160(compressed=compressed)
                    for compressed in (True, False)))
""", """        if not public_key.verify_message(message_sig, message, hasher):
            return False
        return hash160 in (public_key.hash160(compressed=False), public_key.hash160(compressed=True))
""")
ed('keys.py', """        iv, key_e, key_m = key[0:16], key[16:32], key[32:]
        ciphertext = aes_encrypt_with_iv(key_e, iv, message)
        ephemeral_pubkey = ephemeral_key.public_key.to_bytes()
        encrypted_data = b''.join((magic, ephemeral_pubkey, ciphertext))
        return encrypted_data + hmac_digest(key_m, encrypted_data, _sha256)
""", """        encrypted_data = magic + ephemeral_key.public_key.to_bytes()
        encrypted_data += aes_encrypt_with_iv(key[16:32], key[:16], message)
        return b''.join([encrypted_data, hmac_digest(key[32:64], encrypted_data, _sha256)])
""")
ed('aes.py', """    padlen = 16 - (len(data) % 16)
    return data + bytes([padlen]) * padlen
""", """    padlen = 16 - (len(data) & 15)
    return data + bytes(padlen for _ in range(padlen))
""")
ed('aes.py', """    if not 0 < padlen <= 16:
        raise BadPaddingError('invalid final padding byte')
    if data[-padlen:] != bytes([padlen]) * padlen:
        raise BadPaddingError('inconsistent padding bytes')
    return data[:-padlen]
""", """    if padlen == 0 or padlen > 16:
        raise BadPaddingError('invalid final padding byte')
    body, padding = data[:-padlen], data[-padlen:]
    if any(byte != padlen for byte in padding):
        raise BadPaddingError('inconsistent padding bytes')
    return body
""")
ed('coin.py', """        for coin in all_coins:
            if xver_bytes == coin.xpub_verbytes:
                return coin, True
            if xver_bytes == coin.xprv_verbytes:
                return coin, False
        raise ValueError(f'invalid xver_bytes {xver_bytes}')
""", """        for coin in all_coins:
            if xver_bytes in (coin.xpub_verbytes, coin.xprv_verbytes):
                return coin, xver_bytes == coin.xpub_verbytes
        raise ValueError(f'invalid xver_bytes {xver_bytes}')
""")
ed('coin.py', """        bits, = unpack_le_uint32(raw_header[72:76])
        return bits
""", """        return int.from_bytes(raw_header[72:76], 'little')
""")

if __name__ == '__main__':
    d = sys.argv[1]
    only = sys.argv[2:]
    for f, a, b in E:
        if only and f not in only:
            continue
        p = d + '/bitcoinx/' + f
        s = open(p).read()
        if s.count(a) != 1:
            print('NOT ONCE', f, s.count(a), a[:80])
            continue
        open(p, 'w').write(s.replace(a, b))
