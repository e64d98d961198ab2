"""Source of properties.jsonl (run: python3 tools/gen.py)."""
P = []


def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=['bitcoinx/' + f for f in files],
                     mechanism=[dict(name=n, where='bitcoinx/' + w) for n, w in mech])))


# ---------------------------------------------------------------- wire primitives
p('K01', 'Fixed-width integer codecs are exact inverses with the right byte order',
  'Every fixed-width integer packer (signed and unsigned, little- and big-endian, 8 to 64 bit, and the '
  'port codec) emits exactly the two\'s-complement bytes of the value in the named byte order, and the '
  'matching unpacker and stream reader return the original value. A value outside the type\'s range is '
  'rejected with a struct error and a stream that is too short raises instead of yielding a number.',
  ['inputs'], 'every integer in and just outside each type\'s range; every buffer and stream length from 0 to the width',
  'the tests pack a few sample values; endianness or signedness slips on other values are invisible to them',
  ['packing.py'], [('Struct instances and read_* helpers', 'packing.py:pack_*/unpack_*/read_*')])

p('K02', 'Variable-length integers are canonical and round-trip over all of 0..2^64-1',
  'For every n in 0..2^64-1 the varint encoding is the shortest form of the 1/3/5/9-byte format, the '
  'declared length of the encoding equals its real length, and reading it back yields n and consumes exactly that many bytes. '
  'Integers outside that range are rejected with an exception, and a truncated varint raises a struct error.',
  ['inputs'], 'all 2^64 values, plus negative and too-large integers, and every truncation point',
  'tests probe boundary samples only; an off-by-one at any of the six boundaries or in the length helper needs all values',
  ['packing.py'], [('varint codec', 'packing.py:pack_varint/read_varint/varint_len')])

p('K03', 'Length-prefixed data and lists decode to what was encoded or raise',
  'Reading a serialized byte string or list returns exactly the items that were written, in order, and leaves the stream '
  'positioned just after them, whatever their number and lengths. If the stream ends early the reader raises '
  'a struct error; it never returns short or partial data.',
  ['inputs'], 'byte strings of every length up to 2^32+, lists of several items, every truncation point',
  'tests use one or two short strings and never a cut stream at every position',
  ['packing.py'], [('varbytes and list codecs', 'packing.py:pack_varbytes/read_varbytes/pack_list/read_list')])

# ---------------------------------------------------------------- transactions
p('T01', 'Transactions serialize to the bitcoin wire layout and parse back unchanged',
  'For every transaction, serialization is the byte-exact bitcoin wire format (version, varint-counted inputs and outputs with '
  'varint-prefixed scripts, locktime, all little-endian), and parsing those bytes or their hex gives back equal fields and consumes all of them. '
  'The transaction hash is the double SHA-256 of that serialization and its hex form is byte-reversed.',
  ['inputs'], 'all field values (signed 32-bit version, 64-bit values, 32-bit indices/sequences/locktime), scripts of any length, several inputs/outputs',
  'tests parse a handful of recorded transactions; field widths, signedness and order are only sampled',
  ['tx.py', 'packing.py'], [('Tx/TxInput/TxOutput codecs', 'tx.py:read/to_bytes/from_bytes/hash')])

p('T02', 'Parsing untrusted transaction bytes is faithful or fails cleanly',
  'Parsing an arbitrary byte buffer as a transaction, input or output either raises a struct error or returns an object whose canonical '
  're-serialization reproduces the bytes that were consumed, up to non-minimal varint lengths. No proper prefix of a valid serialization ever parses successfully.',
  ['inputs'], 'arbitrary buffers up to the stated size and every truncation point of valid serializations',
  'tests parse only well-formed data; the space of malformed buffers is unbounded',
  ['tx.py', 'packing.py', 'script.py'], [('stream readers', 'tx.py:read, packing.py:read_varbytes')])

p('T03', 'Computed sizes equal real serialized sizes',
  'The size reported for an input, an output, a transaction, or for given lists of inputs and outputs is always exactly the length of the '
  'corresponding serialization, and the total output value is the exact sum of the output values.',
  ['inputs'], 'scripts of every length and every count of inputs/outputs, including across varint width boundaries',
  'tests use sampled script lengths and counts; sizes drive fee computation so one boundary off by two is a loss',
  ['tx.py'], [('size shortcuts', 'tx.py:size/size_io/total_output_value')])

p('T04', 'Signature hashes commit to exactly the specified parts of the transaction',
  'For every transaction, input index, value, script code and sighash byte, the signature hash is the double SHA-256 of the BIP143-style '
  'preimage: version, hashes of prevouts / sequences / outputs as selected by ALL, NONE, SINGLE and ANYONECANPAY (zero where not committed, '
  'including SINGLE without a matching output), the signed outpoint, script, value and sequence, locktime and sighash type. '
  'The default type is ALL|FORKID; a bad index, negative value or untyped sighash raises.',
  ['inputs', 'configurations'], 'all 256 sighash bytes, all field values, all input indices, fewer, equal and more outputs than inputs',
  'recorded signatures exercise ALL almost exclusively; masks and index corner cases are not covered',
  ['tx.py', 'signature.py'], [('signature_hash', 'tx.py:signature_hash'), ('SigHash flag accessors', 'signature.py:SigHash')])

p('T05', 'Transaction finality, coinbase detection and locktime meaning follow consensus',
  'A transaction is final for a block exactly when its locktime is zero, or its locktime is strictly below the block height (for locktimes under 500,000,000) '
  'or below the timestamp (otherwise), or every input has the maximum sequence. An input is a coinbase exactly when its previous hash is all zero and its '
  'index is 2^32-1, and a transaction is a coinbase exactly when its first input is one. '
  'The text describing a locktime says which of the three it is, and gives the height or the UTC time it stands for.',
  ['inputs'], 'all locktimes, heights, timestamps, sequences and prevouts',
  'tests pick a dozen tuples; the comparisons have off-by-one boundaries on 32-bit ranges',
  ['tx.py'], [('finality predicates', 'tx.py:is_final_for_block/are_inputs_final/is_final/is_coinbase')])

p('J01', 'JSON renderings report the true field values and exactly the requested extras',
  'The JSON form of a transaction, input or output carries the object\'s own version, locktime, values, indices, sequences, counts, hash and script hex, in order. '
  'Optional entries (input/output numbering, size, locktime meaning, script classification with address) appear exactly when their flag is given, whatever other flags are set, '
  'and state the true value. The assembly text in an input shows pushed DER signatures with the names of their sighash flags and every other push of more than four bytes as its hex; '
  'that of an output shows all of these as hex.',
  ['inputs', 'configurations'], 'all flag combinations and symbolic field values',
  'tests use a few literal flag combinations on literal transactions',
  ['tx.py', 'script.py', 'consts.py'], [('to_json', 'tx.py:to_json'), ('Script.to_json', 'script.py:to_json')])

# ---------------------------------------------------------------- scripts
p('S01', 'Pushed data comes back from the script, minimally encoded, for every length',
  'Pushing any byte string produces a script whose only operation, when iterated, is exactly that byte string, and the push uses the minimal standard form '
  '(small-integer opcodes for empty, 1..16 and 0x81, then direct, PUSHDATA1, PUSHDATA2, PUSHDATA4). '
  'Push-and-drop of one or several items appends drops that remove exactly the pushed items.',
  ['inputs'], 'every item content and every length from 0 past 2^16 up to 2^32-1',
  'tests sample lengths; the encoding switches at 1, 75, 255 and 65535 bytes and on single-byte contents',
  ['script.py'], [('push encoders', 'script.py:push_item/push_and_drop_item/push_and_drop_items'), ('ops iterator', 'script.py:Script.ops')])

p('S02', 'Script numbers encode minimally as sign-magnitude and round-trip',
  'For every integer, pushing it as a script number and decoding the pushed item gives the same integer, the pushed item is the shortest sign-magnitude little-endian '
  'form, and -1 and 0..16 use their single-byte opcodes. Decoding any byte string yields its sign-magnitude value, treating negative zero as zero.',
  ['inputs'], 'all integers of up to 64 magnitude bits and all items of up to 9 bytes',
  'tests list selected integers; the sign-bit carry case exists at every byte length',
  ['script.py', 'misc.py'], [('number codec', 'script.py:push_int/item_to_int')])

p('S03', 'Iterating an arbitrary script yields its operations or reports truncation',
  'Iterating any byte string as a script yields opcodes as integers and pushed data as bytes exactly as the bitcoin script grammar dictates (including OP_1NEGATE, OP_1..OP_16 '
  'as data and OP_RESERVED as opcode), in order and covering every byte. A script whose last push extends past its end raises the truncated-script error, '
  'after yielding everything before it, and no other exception.',
  ['inputs'], 'all byte strings up to the stated length, with symbolic bytes, and pushes with 1-, 2- and 4-byte lengths',
  'tests use a few literal scripts; malformed pushes come from untrusted transactions',
  ['script.py'], [('ops iterator', 'script.py:Script.ops')])

p('S04', 'Building scripts concatenates exactly the requested operations',
  'Appending an opcode, an integer, raw data or another script, singly or in bulk, yields a new script whose bytes are the old bytes followed by the canonical '
  'encoding of the appended item, leaves the original script unchanged, and the two ways of appending agree. Items of any other type raise TypeError, and '
  'script length, bytes, hex and equality all reflect the raw bytes.',
  ['inputs'], 'arbitrary initial script bytes and arbitrary sequences of appended opcodes, integers, data and scripts',
  'tests append a few literals', ['script.py'],
  [('script building', 'script.py:Script.__lshift__/push_many/_to_bytes')])

p('S05', 'Script assembly text round-trips and malformed text is rejected cleanly',
  'Converting a script made of known opcodes, script numbers in the 32-bit range, and data pushes longer than four bytes whose hex is not all decimal digits to assembly text and back '
  'reproduces the script bytes, whatever white space separates the words. Text that is not valid assembly raises the script error and never any other exception; a truncated script renders as [error].',
  ['inputs'], 'all known opcodes, symbolic numbers and data, arbitrary short words over a symbolic alphabet including non-ASCII digits',
  'tests cover literal scripts; the word classifier has overlapping decimal/hex/opcode syntaxes',
  ['script.py'], [('ASM codec', 'script.py:to_asm/from_asm/asm_word_to_bytes/op_to_asm_word')])

p('S06', 'Output scripts are classified as the standard type they are, and only then',
  'Classifying the standard output script of a pubkey hash, script hash, public key, or m-of-n multisig returns that type with the same hash, keys, threshold and coin, '
  'and a script whose leading pushes are followed by OP_RETURN is classified as OP_RETURN. A script whose operations (ignoring no-ops and dropped pushes) are none of these templates, '
  'or whose data have the wrong size, count or key encoding, is classified unknown; classification never raises.',
  ['inputs'], 'symbolic hashes, keys, thresholds, and arbitrary mutations/short arbitrary scripts',
  'tests classify a list of literals; near-miss templates are the untrusted case',
  ['script.py', 'address.py'], [('classifier', 'script.py:classify_output_script/_classify_script'), ('from_template', 'address.py:from_template')])

p('S07', 'Script templates drop only no-ops and data that is pushed and dropped',
  'The template of any script is its opcode sequence with every data push shown as a generic push, no-ops removed, and pushes removed together with the drop (or double drop) that discards them; '
  'the accompanying items are the remaining pushed data in order. A truncated script gains a trailing OP_0 marker, and no input raises.',
  ['inputs'], 'arbitrary scripts up to the stated length with symbolic bytes',
  'tests use a few literal op sequences', ['script.py'],
  [('template', 'script.py:to_template/_stripped_ops')])

# ---------------------------------------------------------------- base58 / addresses
p('A01', 'Base58 is a bijection between byte strings and base58 text',
  'Decoding the base58 encoding of any byte string (leading zeros included) returns the same byte string, and re-encoding the decoding of any non-empty base58 text returns the same text. '
  'Empty text or text with any character outside the alphabet raises the base58 error, and a non-string raises TypeError.',
  ['inputs'], 'all byte strings and all texts up to the stated lengths, including every count of leading zeros and ones',
  'tests use listed vectors; leading-zero handling and the conversion depend on the whole value',
  ['base58.py', 'misc.py'], [('base58 codec', 'base58.py:base58_encode/base58_decode')])

p('A02', 'Base58Check accepts exactly correctly checksummed payloads',
  'Decoding a Base58Check text returns its payload if and only if the last four decoded bytes equal the first four bytes of the double SHA-256 of the payload, and otherwise raises the base58 error; '
  'encoding then decoding any payload returns the payload. No change confined to the checksum bytes, and no text shorter than a checksum, is ever accepted.',
  ['inputs'], 'arbitrary payloads and arbitrary checksum bytes, SHA-256 treated as an arbitrary function',
  'tests corrupt a character or two; a check that ignores one checksum byte survives most samples',
  ['base58.py', 'hashes.py'], [('checksummed codec', 'base58.py:base58_encode_check/base58_decode_check')])

p('A03', 'Addresses keep their hash, kind and network through text form',
  'For every coin and 20-byte hash, the text of a P2PKH or P2SH address parses back, for that coin, to an equal address of the same kind and hash, and the version byte in the text is the coin\'s. '
  'Text whose payload is not 21 bytes, or whose version byte is not one of the given coin\'s two, is rejected with ValueError, so mainnet and testnet addresses are never confused.',
  ['inputs', 'configurations'], 'all hashes, both kinds, all coins, all version bytes and payload lengths',
  'tests check listed addresses', ['address.py', 'base58.py', 'coin.py'],
  [('Address.from_string', 'address.py:Address.from_string'), ('to_string', 'address.py:P2PKH_Address/P2SH_Address')])

p('A04', 'Cashaddr text decodes to what it encodes and nothing else is accepted',
  'Decoding the cashaddr text of any prefix, kind and hash of a permitted size (20, 24, 28, 32, 40, 48, 56 or 64 bytes), in uniform lower or upper case, returns that prefix (in the same case), kind and hash; '
  'parsing such a 20-byte address for its coin, with or without the prefix, gives the equal address. Any other string (mixed case, missing or bad prefix, bad length, character, checksum, padding, size or type) raises ValueError and no other exception (arguments that are not strings raise TypeError).',
  ['inputs'], 'all hashes and both kinds; arbitrary payload symbols with a valid checksum; arbitrary strings up to the stated length',
  'tests cover vectors and a few corruptions; strings with valid checksum but bad inner structure cannot be sampled by chance',
  ['cashaddr.py', 'address.py'], [('decoder', 'cashaddr.py:decode/_decode_payload/_convertbits'), ('address entry', 'address.py:Address._from_cashaddr_string')])

p('A05', 'The cashaddr checksum detects every small corruption',
  'Replacing any one or two characters of the payload of a valid cashaddr address by other alphabet characters always makes decoding fail with ValueError, '
  'as does changing one character of the prefix to one whose low five bits differ (for instance another letter of the same case; the checksum does not cover the higher bits) or swapping two adjacent payload characters that differ.',
  ['inputs'], 'all addresses (42-symbol payloads, mainnet and testnet prefix), all positions (or pairs) and all replacement values',
  'tests try a few corruptions; a wrong generator constant or mask leaves most of them detected',
  ['cashaddr.py'], [('checksum', 'cashaddr.py:_polymod/_prefix_expand/_create_checksum')])

p('A06', 'Address and key objects produce the exact standard output scripts',
  'The script of a P2PKH, P2SH, P2PK, OP_RETURN or m-of-n multisig output object is byte-for-byte the standard bitcoin script for its hash, keys and threshold, a key\'s own P2PK and P2PKH scripts and address use the same serialization '
  '(compressed or not) as the key, and the hash160 of a key or multisig object is that of its serialization or script. '
  'Invalid constructions (wrong-size hash, non-bytes hash, threshold below 1 or above the key count) raise.',
  ['inputs'], 'all hashes, keys, compression flags, and 1 <= m <= n up to the stated n',
  'tests compare a few literals', ['address.py', 'keys.py'],
  [('to_script_bytes', 'address.py:to_script_bytes'), ('key scripts', 'keys.py:P2PK_script/P2PKH_script/to_address/hash160')])

# ---------------------------------------------------------------- keys
p('E01', 'Private keys are exactly the integers 1..n-1 and keep their value in every form',
  'A private key can be constructed from 32 bytes, hex or an integer exactly when the value is between 1 and the curve order minus one, otherwise construction raises; its integer, byte and hex forms all denote the same value. '
  'Building from arbitrary bytes reduces modulo the order, wrong-length or wrong-type secrets are rejected, and keys are equal and hash equally exactly when their secrets are equal.',
  ['inputs'], 'all 32-byte strings, all integers, all lengths near 32',
  'tests try 0, 1, the order and random keys', ['keys.py', 'misc.py'],
  [('PrivateKey constructors', 'keys.py:PrivateKey.__init__/from_int/from_hex/from_arbitrary_bytes/to_int/to_bytes')])

p('E02', 'WIF keeps secret, compression and network, and rejects malformed text',
  'For every private key, coin and compression choice, the WIF text parses back to an equal key with the same compression flag and a coin having the same WIF byte. '
  'Base58Check text whose payload is neither 33 bytes nor 34 bytes ending in 01, whose version byte belongs to no coin, or whose secret is out of range is rejected with ValueError.',
  ['inputs', 'configurations'], 'all secrets, all coins, both compression flags and overrides, all payload lengths near 33/34 and trailing bytes',
  'tests check a few keys', ['keys.py', 'coin.py', 'base58.py'],
  [('WIF codec', 'keys.py:to_WIF/from_WIF'), ('coin lookup', 'coin.py:from_WIF_byte')])

p('E03', 'Private and public key arithmetic agree',
  'Adding or multiplying a private key by a 32-byte tweak gives the key for the sum or product modulo the curve order, and the public key of the result equals the result of tweaking the public key the same way; combining public keys gives the public key of the sum of the secrets. '
  'Results keep the operand\'s compression and coin; operands are not modified; a tweak or result out of range raises ValueError and a tweak that is not 32 bytes raises.',
  ['inputs'], 'all secrets and tweaks (libsecp256k1 replaced by the exact group contract)',
  'tests use random keys; wrap-around at the order and zero results never occur by chance',
  ['keys.py'], [('tweaks', 'keys.py:PrivateKey.add/multiply, PublicKey.add/multiply/combine_keys')])

p('E04', 'Public keys survive serialization in both forms',
  'Serializing a public key compressed or uncompressed (bytes, hex or point coordinates) and parsing it back gives an equal key whose compression flag matches the form used, and an explicit compression argument overrides the key\'s own. '
  'Complementing a key flips only its compression; equality and hash ignore compression; malformed encodings raise ValueError.',
  ['inputs'], 'all keys, both forms, all override arguments, arbitrary malformed encodings by length and prefix',
  'tests use a handful of keys', ['keys.py'],
  [('PublicKey codecs', 'keys.py:PublicKey.to_bytes/from_bytes/to_point/from_point/complement')])

p('E05', 'Both parties derive the same shared secret',
  'For any two key pairs and any message, each party\'s shared secret computed from its private key and the other\'s public key is the same public key, and likewise for the plain ECDH secret; the key the message adds is its SHA-256 unless another hasher, or none, is requested, and the secret has the compression of the other party\'s key.',
  ['inputs'], 'all secrets and messages (group contract; hash arbitrary)',
  'tests use one pair', ['keys.py'], [('shared secrets', 'keys.py:shared_secret/ecdh_shared_secret/_message_hash')])

p('E06', 'Signature format conversions lose nothing and reject malformed input',
  'DER to compact to DER, and recoverable to message format and back, reproduce the signature for every r, s and recovery id, and parsed signatures expose exactly the given r, s, DER bytes and sighash byte. '
  'Input of the wrong length, encoding, header byte or out-of-range numbers raises the invalid-signature error and no other exception (text message signatures included), and is never silently turned into a different signature.',
  ['inputs'], 'all r and s, recovery ids and header bytes, arbitrary 64/65-byte buffers, base64 text including non-ASCII',
  'tests convert sample signatures; out-of-range r/s and odd header bytes are not tried',
  ['signature.py'], [('conversions', 'signature.py:der_signature_to_compact/compact_signature_to_der/to_recoverable_signature/to_message_signature/Signature')])

p('E07', 'Message signatures verify only for the signer, message and address claimed',
  'A signature made with a key over a message verifies under its public key for that message and for the address of either serialization of that key, and the recovered key equals the signer. '
  'The signed text is the magic prefix and length-prefixed UTF-8 message under double SHA-256; verification against another address returns False, a malformed signature makes address verification return False, and omitting the hasher raises.',
  ['inputs'], 'all secrets, messages and addresses (ECDSA replaced by its contract, hashes arbitrary)',
  'tests use sample messages', ['keys.py', 'signature.py'],
  [('message signing', 'keys.py:sign_message/verify_message/verify_message_and_address/from_signed_message')])

p('E08', 'ECIES decrypts what was encrypted and rejects anything altered',
  'Decrypting, with the matching private key, a message encrypted to a public key (of either compression) returns the original bytes, in raw or base64 form and for any magic. '
  'Any message that is too short, has the wrong magic, a bad ephemeral key, a wrong MAC over every preceding byte, or bad padding, or is not valid base64 text, raises the decryption error and no other exception.',
  ['inputs'], 'all keys and messages up to the stated length, every altered byte position (hash, HMAC and AES arbitrary functions; group contract)',
  'tests alter a few bytes', ['keys.py', 'aes.py'],
  [('ECIES', 'keys.py:encrypt_message/decrypt_message')])

p('E09', 'AES padding is exact: strip inverts append and rejects bad padding',
  'Encrypting then decrypting with the same key and IV returns the original data for every length, with either cipher backend, and the padded length is the next multiple of 16. '
  'Decrypted blocks that do not end in n bytes of value n with n from 1 to 16 raise the bad-padding error, and ciphertext that is empty or not a multiple of the block size is rejected.',
  ['inputs'], 'all data up to the stated lengths, arbitrary final blocks (block cipher replaced by an arbitrary invertible function)',
  'tests use random data; each padding length and each bad byte position is a separate case',
  ['aes.py'], [('PKCS7', 'aes.py:_append_PKCS7_padding/_strip_PKCS7_padding/aes_encrypt_with_iv/aes_decrypt_with_iv')])

p('E10', 'Key text is dispatched to exactly one format',
  'Text of 64 characters is read as hex, a valid minikey (22 or 30 base58 characters starting with S whose SHA-256 with a question mark appended begins with a zero byte) as an uncompressed key with secret SHA-256 of the text, and everything else as WIF. '
  'An invalid minikey passed explicitly raises ValueError.',
  ['inputs'], 'arbitrary text of the relevant lengths with symbolic characters (hash arbitrary)',
  'tests use a few literals', ['keys.py', 'base58.py'],
  [('from_text', 'keys.py:from_text/from_minikey'), ('is_minikey', 'base58.py:is_minikey')])

p('E11', 'Randomly generated keys are always valid and take their secret from the source',
  'Generating a random key or random BIP32 master key from any entropy source returns a valid key made of the first in-range 32 bytes (64 bytes for BIP32: key then chain code) drawn, silently redrawing when a draw is out of range.',
  ['inputs', 'fault_sequences'], 'every sequence of entropy draws including zero and values at or above the order',
  'an out-of-range draw has probability 2^-128 and never happens in a test',
  ['keys.py', 'bip32.py'], [('from_random', 'keys.py:from_random, bip32.py:from_random')])

# ---------------------------------------------------------------- BIP32
p('B01', 'BIP32 child derivation follows the specification and commutes with neutering',
  'A derived child has secret (parent + left half of HMAC-SHA512) mod the order over the specified serialization (private for hardened, public otherwise), chain code the right half, its own index, depth plus one and the parent\'s fingerprint, and keeps the coin. '
  'For non-hardened indices, deriving then neutering equals neutering then deriving. Indices outside 0..2^32-1 (2^31-1 for public parents) and invalid children raise ValueError.',
  ['inputs'], 'all secrets, chain codes, depths, fingerprints and indices (HMAC and HASH160 arbitrary functions; group contract)',
  'tests use published vectors; invalid children and index boundaries never occur by chance',
  ['bip32.py'], [('child derivation', 'bip32.py:child/BIP32Derivation'), ('metadata', 'bip32.py:identifier/fingerprint')])

p('B02', 'Extended keys round-trip and malformed ones are rejected',
  'The text of any extended private or public key parses back to an equal key with the same kind, chain code, index, depth and parent fingerprint, for every coin\'s version bytes, and the layout is the 78-byte BIP32 format. '
  'Payloads of the wrong length, unknown version bytes, a private payload not prefixed by zero or out of range, or an invalid public key raise ValueError; a key too deep for its depth byte is refused when it is to be written.',
  ['inputs', 'configurations'], 'all field values, all coins, all payload lengths near 78, all prefix and version bytes',
  'tests use published vectors', ['bip32.py', 'coin.py', 'base58.py'],
  [('extended key codec', 'bip32.py:extended_key/_from_extended_key/bip32_key_from_string')])

p('B03', 'BIP32 path strings and index lists convert back and forth exactly',
  'Building the path string of any list of 32-bit indices and decomposing it gives the same list, with the apostrophe marking exactly the hardened indices, and validity checking agrees with decomposing. '
  'Any text that is not m followed by slash-separated decimal indices below 2^31 with an optional apostrophe raises ValueError and is never given another meaning; non-strings raise TypeError and out-of-range or non-integer indices are rejected.',
  ['inputs'], 'all index values in lists up to the stated length; arbitrary short strings over a symbolic alphabet including control characters',
  'tests list good and bad literals', ['bip32.py'],
  [('path codec', 'bip32.py:bip32_decompose_chain_string/bip32_build_chain_string/bip32_validate_derivation')])

p('B04', 'Safe child derivation skips exactly the invalid children',
  'Safe derivation returns the child at the requested index if that child is valid and otherwise the first valid child at a higher index within the same hardened or non-hardened range, for private and public parents alike. '
  'When no index remains in the range it raises ValueError instead of looping or crossing into the other range. A requested index outside the range of the parent raises ValueError.',
  ['inputs', 'fault_sequences'], 'all starting indices and every pattern of invalid children (HMAC arbitrary)',
  'an invalid child has probability 2^-127', ['bip32.py'],
  [('child_safe', 'bip32.py:child_safe')])

# ---------------------------------------------------------------- mnemonics
p('M01', 'BIP39 mnemonics encode entropy with a checksum that is actually verified',
  'A mnemonic generated from 128 to 256 bits of entropy has the right number of words, is valid, and its words spell the entropy followed by the leading bits of its SHA-256; a list of words of a permitted count is valid exactly when its checksum bits match. '
  'Other word counts are invalid, words outside the list raise with those words, and wrong-size wordlists or entropy sizes raise ValueError.',
  ['inputs'], 'all entropies of all five sizes, all word index sequences of all five lengths (SHA-256 arbitrary)',
  'tests use published vectors; a checksum compared on too few bits passes them',
  ['mnemonic.py'], [('BIP39', 'mnemonic.py:BIP39Mnemonic._from_entropy/generate/is_valid')])

p('M02', 'Old Electrum seeds convert to words and back without loss',
  'Converting any 128- or 256-bit hex seed to old-style words and back returns the same seed, and words that would encode a value above 32 bits per group, are unknown, or number other than 12 or 24 raise ValueError. '
  'A text is a valid old seed exactly when it is such a word list or is hex of 16 or 32 bytes.',
  ['inputs'], 'all seeds and all word index sequences',
  'tests round-trip random seeds; overflow groups are a 0.0008 fraction', ['mnemonic.py'],
  [('old seeds', 'mnemonic.py:old_to_hex_seed/hex_seed_to_old/is_valid_old')])

p('M03', 'New Electrum mnemonics are generated valid, long enough and unambiguous',
  'A newly generated mnemonic has the seed-version prefix requested, spells the drawn entropy (possibly stepped by one per retry) in the wordlist\'s base with the number of words the requested bits need, and is never also a valid old-style seed when such are to be skipped. '
  'Too few bits or too short a wordlist raise ValueError.',
  ['inputs', 'fault_sequences'], 'all entropy draws and every pattern of prefix matches over the stated number of retries (HMAC arbitrary)',
  'retries and the old-seed collision are rare events', ['mnemonic.py'],
  [('new seeds', 'mnemonic.py:generate_new/_from_entropy/_random_integer/is_valid_new')])

# ---------------------------------------------------------------- headers, work and difficulty
p('M04', 'Mnemonic normalization and BIP39 seeds do not depend on spacing or case',
  'Normalizing a mnemonic lower-cases it (for BIP39 after NFKD decomposition), turns every run of white space (including the ideographic space of Japanese mnemonics) into one space and leaves none at the ends, and is idempotent. '
  'A BIP39 seed is the 64-byte PBKDF2-HMAC-SHA512 with 2048 iterations of the normalized mnemonic, salted with "mnemonic" followed by the NFKD form of the passphrase with its case and spaces kept. '
  'Validity of BIP39 mnemonics and old Electrum seed words, and the seed the latter convert to, are the same for every spacing and case of the same words.',
  ['inputs'], 'all short texts of ASCII characters, ideographic spaces and 22 characters with decompositions; all sequences of 12 words in several spacings and cases (PBKDF2 and SHA-256 arbitrary)',
  'tests use published vectors with single spaces', ['mnemonic.py'],
  [('normalization', 'mnemonic.py:BIP39Mnemonic.normalize/ElectrumMnemonic.normalize_new/normalize_old'), ('seed', 'mnemonic.py:BIP39Mnemonic.to_seed')])

p('C01', 'Header accessors and deserialization agree with the 80-byte layout',
  'A deserialized header has the version, previous hash, merkle root, timestamp, bits and nonce found at their fixed offsets, the hash is the double SHA-256 of the raw bytes, and the raw-field accessors return the same values as the deserialized header. '
  'Its hash value is the little-endian integer of the hash, its displayed hash is byte-reversed hex, and buffers of any other length raise.',
  ['inputs'], 'all 80-byte headers and lengths near 80 (hash arbitrary)',
  'tests use a few real headers', ['coin.py', 'packing.py', 'hashes.py'],
  [('header codec', 'coin.py:deserialized_header/header_*')])

p('C02', 'Compact difficulty bits and targets convert exactly',
  'For every accepted compact value, converting to a target and back returns the same compact value, and the target is mantissa times 256^(exponent-3). '
  'Converting any target below 2^256 to compact form gives the largest representable target not above it, never sets the sign bit, and negative or larger targets and non-canonical, negative or overflowing compact values raise ValueError.',
  ['inputs'], 'all 2^32 compact values (and beyond) and all 256-bit targets',
  'tests sample values; rounding and sign-bit cases exist at every byte length', ['work.py'],
  [('compact codec', 'work.py:bits_to_target/target_to_bits')])

p('C03', 'Header work and chain work are exact integers',
  'The work of a compact target t is floor(2^256 / (t+1)), difficulty is relative to the mainnet maximum target, and the chain work over any height range is the sum of the works of exactly the headers in that half-open range. '
  'Chain work to a height equals the total work minus the work above that height.',
  ['inputs', 'histories'], 'all compact values and arbitrary header works on chains of the stated length',
  'tests check random chains with four difficulty values', ['work.py', 'chain.py', 'coin.py'],
  [('work', 'work.py:bits_to_work'), ('range work', 'chain.py:chainwork_range/chainwork_to_height')])

p('C04', 'Fortnightly retargeting and emergency adjustment follow the rules',
  'Under the original rule the required bits equal the previous bits except at multiples of 2016, where the target is scaled by the actual timespan of the last 2016-header period, clamped to a factor of four, and capped at the coin\'s maximum. '
  'Under the emergency rule, off retarget heights, the target grows by a quarter (capped) exactly when median time past advanced at least 12 hours over six blocks. The genesis height requires the genesis bits.',
  ['inputs', 'histories'], 'all timestamps and bits of the headers consulted, heights on both sides of every boundary',
  'tests replay real chain data, where clamping and capping hardly occur', ['work.py', 'chain.py'],
  [('rules', 'work.py:_required_bits_fortnightly/_required_bits_EDA')])

p('C05', 'The per-block difficulty algorithm matches its specification',
  'Under the per-block rule the required target is floor(2^256 / W) - 1, where W is the work between the median-time header of the three before height-144 and that of the three before the height, times 600 over their time difference clamped to half a day to two days, capped at the maximum target. '
  'The median-of-three breaks ties as the reference swap order does.',
  ['inputs', 'histories'], 'all timestamps of the six candidate headers and arbitrary cumulative works',
  'tests replay recorded chains; ties, reversed times and clamps are rare', ['work.py', 'chain.py'],
  [('DAA', 'work.py:_required_bits_DAA')])

p('C06', 'Each network applies the right difficulty rule at every height',
  'Mainnet uses the original rule below height 478558, the emergency rule up to 504031 and the per-block rule afterwards, independent of the new timestamp. '
  'Test networks allow minimum difficulty when the new timestamp is more than 20 minutes after its parent (only up to the activation height on the scaling network), otherwise require the last non-minimum bits of the period before activation '
  '(1188697, or 2200 for scaling) and the per-block rule after, and always retarget at multiples of 2016 before activation.',
  ['inputs', 'configurations', 'histories'], 'all heights, timestamps and recent header bits for all coins',
  'tests replay recorded headers around activation', ['work.py', 'coin.py'],
  [('dispatch', 'work.py:required_bits_mainnet/_required_bits_testnet/required_bits_scaling_testnet')])

p('C07', 'Median time past is the median of the last eleven timestamps',
  'Median time past at a height is the middle element of the sorted timestamps of that header and its up to ten predecessors on the same chain (the upper middle when fewer than eleven make an even count), whatever their order and ties.',
  ['inputs', 'histories'], 'all timestamp tuples for every count of available headers up to 11',
  'tests use monotone timestamps', ['chain.py'], [('median_time_past', 'chain.py:median_time_past')])

p('C08', 'Connecting a header accepts exactly linked headers with the right bits and work',
  'A header is added exactly when its previous hash is a known header, its bits equal the required bits for its height and timestamp on that chain, and its hash does not exceed its target; otherwise the missing-header, incorrect-bits or insufficient-work error is raised respectively and nothing is stored. '
  'Reconnecting a header that is not new returns its existing entry without storing it again.',
  ['inputs', 'histories'], 'arbitrary sequences of headers with arbitrary linkage, bits and hashes up to the stated number',
  'tests connect two real headers', ['chain.py'], [('connect', 'chain.py:Headers.connect/_read_header')])

p('C09', 'Fork tracking always reflects the header tree',
  'After any sequence of connected headers, each stored header lies on exactly one chain, every chain\'s heights, tip, first height and cumulative work match the path of headers back to the checkpoint, header lookups by height on a chain follow that path through its parents, '
  'and the longest chain is the first with the greatest work. The common chain and height of two chains are those of their last common header.',
  ['histories'], 'every tree shape of up to the stated number of headers with arbitrary works',
  'tests build two chains', ['chain.py'],
  [('Chain', 'chain.py:Chain.*'), ('Headers', 'chain.py:_read_header/longest_chain/header_at_height')])

p('C10', 'Lookup by hash finds exactly the stored header, cached or not',
  'Looking up the hash of any header at or after the checkpoint returns that header with its height and its chain, whatever the cache size and eviction history and even if another hash shares a prefix or the bytes occur unaligned; looking up any other hash raises the missing-header error.',
  ['inputs', 'histories'], 'arbitrary header hashes including prefix collisions and unaligned matches; all cache sizes from 1',
  'hash prefix collisions cannot be produced by tests', ['chain.py'],
  [('lookup', 'chain.py:lookup/_header_index_slow/_add_chain_tip')])

p('C11', 'Reopening a header file restores the same chains',
  'After any sequence of appended headers, closing and reopening the file with the same checkpoint yields the same headers, chains, tips, heights and works; headers stored before the checkpoint and holes are preserved. '
  'A file with another checkpoint, too short to hold it, empty, or of unknown version is replaced by a fresh one containing just the checkpoint; a file with a stored header that is absent or links to no header before it raises the missing-header error.',
  ['histories'], 'every tree shape up to the stated number of headers, arbitrary header bytes, file growth boundaries, and arbitrary short or mismatching files',
  'tests reload one- and two-chain files', ['chain.py', 'util.py'],
  [('storage', 'chain.py:_HeaderStorage'), ('reload', 'chain.py:Headers._read_headers')])

p('C12', 'A crash at any point leaves a header file that reopens consistently',
  'If the process dies at any point while creating a header file or adding a header, between file writes or part way through one (an update of the 4-byte header count is a single store), reopening the file with the same checkpoint succeeds and shows either all headers before the interrupted operation or those plus the new one. '
  'Headers added before a flush are on disk once it returns, whatever then happens to the machine.',
  ['crash_points'], 'every write boundary and every byte within a write during creation, append and file growth',
  'tests never crash', ['chain.py', 'util.py'],
  [('write ordering', 'chain.py:_set_raw_header/_set_count/_create_file'), ('recovery', 'chain.py:open_or_create/_open_file')])

p('C13', 'Header storage indexing is exact and never returns absent headers',
  'Reading an index returns exactly the 80 bytes last written there (80 zero bytes mark an absent header), negative indices count from the end, slices return the corresponding lists, and an index never written (alone or within a slice) raises the missing-header error. '
  'The count is one more than the largest index written; writes of anything but 80 bytes of binary data, non-integer indices, and pre-checkpoint writes beyond the checkpoint are rejected without changing the stored headers.',
  ['inputs', 'histories'], 'arbitrary write sequences at symbolic indices up to the stated bound, arbitrary contents',
  'tests use fixed indices', ['chain.py'], [('indexing', 'chain.py:_HeaderStorage.__getitem__/__setitem__/append, Headers.set_one')])

# ---------------------------------------------------------------- misc
p('H01', 'Hash display and integer/byte conversions are exact inverses',
  'Displaying a hash as hex reverses its bytes and parsing it back restores it, the numeric value of a hash is little-endian, integers convert to big- and little-endian bytes of minimal or requested size and back without loss, and a size too small or a negative integer raises. '
  'The double SHA-256, HASH160 and HMAC helpers compose the primitive hashes in the standard order.',
  ['inputs'], 'all byte strings up to 40 bytes and all integers up to 320 bits (primitive hashes arbitrary functions)',
  'tests use samples', ['hashes.py', 'misc.py'],
  [('helpers', 'hashes.py:*, misc.py:int_to_be_bytes/int_to_le_bytes')])

p('Q01', 'Equality and hashing of value objects are coherent',
  'For addresses, output objects, scripts, signatures, public and private keys, two objects compare equal exactly when they are of the same kind and denote the same hash, keys (and threshold) or key, whatever their coin or compression; scripts and signatures equal exactly the byte-like objects with the same bytes. '
  'Equal objects always have equal hashes, and comparison with unrelated types is False rather than an error.',
  ['inputs'], 'all contents of the stated sizes, including pairs differing in a single byte or only in coin or compression',
  'tests compare sample pairs', ['address.py', 'script.py', 'signature.py', 'keys.py'],
  [('__eq__/__hash__', 'address.py, script.py, signature.py, keys.py')])

p('Q02', 'Sighash flags decompose and render unambiguously',
  'For every sighash byte, the base type is its low five bits, anyone-can-pay is its top bit, and the text form names exactly the flags set, so that two different sighash bytes never render alike.',
  ['inputs'], 'all 256 sighash bytes (pairs of them for injectivity)',
  'tests list a few', ['signature.py'], [('SigHash', 'signature.py:SigHash')])

p('X01', 'The two AES backends are interchangeable and compute AES-CBC',
  'For every key, IV and message, the pure-Python and the native AES backend produce the same ciphertext and accept each other\'s output.',
  ['inputs', 'configurations'], 'all keys, IVs and messages', 'tests sample random messages', ['aes.py'],
  [('backend selection', 'aes.py:aes_encrypt_with_iv')])

p('X02', 'Unicode normalization of mnemonics is idempotent and compatible with BIP39',
  'Normalizing any Unicode mnemonic or passphrase twice equals normalizing it once, and canonically equivalent texts give the same seed.',
  ['inputs'], 'all Unicode strings', 'tests use a few strings', ['mnemonic.py'],
  [('normalize', 'mnemonic.py:_normalize_text/BIP39Mnemonic.normalize/to_seed')])
