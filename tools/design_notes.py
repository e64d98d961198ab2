"""Per-property notes for DESIGN.md (python3 tools/design.py regenerates the table part)."""
NOTES = {
 'K01': "oracle: arithmetic definition of two's complement digits. Arbitrary-precision symbolic integer in, symbolic buffer in; too-short streams of every length.",
 'K02': 'oracle: the four value ranges and their digit layout, written out in the harness. The integer is unbounded, so out-of-range refusal is decided too.',
 'K03': 'data of symbolic length up to 2^32 bytes (a rope with a symbolic length, never unrolled); lists of up to a few symbolic items and one long list; every cut of the stream.',
 'T01': 'reference serializer in the harness, written from the wire format; scripts have symbolic length up to 2^32.',
 'T02': 'every byte buffer up to the bound is parsed; accepted buffers are re-serialized and compared up to non-minimal varints; every proper prefix of a valid serialization must raise.',
 'T03': 'size() against the length of to_bytes() with symbolic script lengths and counts crossing each varint boundary.',
 'T04': 'reference BIP143 preimage in the harness; SHA-256 is an uninterpreted function, so equality of hashes is decided on preimages. All 256 sighash bytes, symbolic index, value, script code.',
 'T05': 'reference predicate; every lock time, height, timestamp, sequence.',
 'J01': 'reference dictionary; flags are symbolic, scripts are of every standard kind or arbitrary.',
 'S01': 'reference minimal push by length; data is a rope of symbolic length 0..2^32-1.',
 'S02': 'sign-magnitude digits by definition; 72-bit (thorough 256-bit) integers, items of up to 9 (33) bytes.',
 'S03': 'reference script grammar; every script of up to 4 (6) bytes, every push opcode with any length field and data of up to 2^32+4 bytes.',
 'S04': 'reference encoding of each item kind; buffers mutated after use.',
 'S05': 'round trip against the script bytes, and rendering against a reference; words over ASCII plus 21 unusual code points.',
 'S06': 'reference classifier on reference operations. Key validity is decided by the curve contract.',
 'S07': 'reference stripper over reference operations; all scripts of up to 4 (6) bytes and 5-operation sequences of the relevant kinds.',
 'A01': 'positional arithmetic; symbolic bytes of each length up to the bound, symbolic text over the alphabet and over the garbling alphabet.',
 'A02': 'SHA-256 uninterpreted; acceptance must be equivalent to the equation on the four bytes.',
 'A03': 'every hash, coin, kind; every checksummed payload and every base58 text of the listed lengths; cashaddr text for the right and the wrong coin.',
 'A04': 'reference encoder and decoder (bit-level) in the harness; the checksum is linear over GF(2) and the engine decides it as such.',
 'A05': 'the error polynomial is symbolic, the code word is symbolic: for each pair of positions the solver shows no nonzero error pattern gives checksum zero.',
 'A06': 'byte-exact reference scripts.',
 'E01': 'range test of a symbolic 256-bit integer against the curve contract.',
 'E02': 'every secret, coin, flag; every payload of 0..35+ bytes; WIF text.',
 'E03': 'group law contract: public keys are exponents modulo n; sums and products compared as polynomials modulo n.',
 'E04': 'coordinates are arbitrary functions of the exponent; parsing inverts them.',
 'E05': 'exponent polynomials of both sides coincide.',
 'E06': 'DER and compact forms with symbolic r, s of every length class; arbitrary bytes up to the bound.',
 'E07': 'ECDSA contract: signing yields an arbitrary low-s signature; verification accepts at least those; recovery is consistent. Forgery resistance itself is an assumption of the contract.',
 'E08': 'AES-CBC is an arbitrary keyed permutation, HMAC an uninterpreted function; any single altered region must be refused.',
 'E09': 'padding arithmetic on messages of symbolic content, all lengths in the bound.',
 'E10': 'dispatch on symbolic text; SHA-256 uninterpreted with the test on its first byte.',
 'E11': 'the entropy source is a symbolic sequence of draws.',
 'B01': 'HMAC-SHA512 uninterpreted over the specified serialization; parent, index, depth (0..254), chain code symbolic.',
 'B02': 'every field symbolic; arbitrary 78-byte payloads; other sizes.',
 'B03': 'indices symbolic; text symbolic up to the bound, and valid text with one character altered or inserted.',
 'B04': 'which children are valid is symbolic (arbitrary function of the index).',
 'M01': 'SHA-256 uninterpreted; entropy and word indices symbolic; wordlist order symbolic through distinct words.',
 'M02': 'indices arithmetic on symbolic 32-bit groups; the real Electrum word list.',
 'M03': 'entropy draw symbolic, the HMAC prefix test an uninterpreted predicate; up to two retries.',
 'C01': 'fixed offsets of a symbolic 80-byte buffer.',
 'C02': 'every 32-bit compact value; targets of up to 256 bits per size class.',
 'C03': 'floor division by definition; ranges on a chain with symbolic bits.',
 'C04': 'reference retarget on symbolic timestamps and a table of bits classes.',
 'C05': 'reference DAA in exact rationals; timestamps symbolic (all orders and ties), 144-header windows with two difficulty groups.',
 'C06': 'dispatch heights and timestamps symbolic for each network.',
 'C07': 'sorting definition (count of smaller elements) on up to 11 symbolic timestamps, on a chain and across a fork.',
 'C08': 'an arbitrary header connected to a small tree; storage compared before and after.',
 'C09': 'every tree shape of the bounded number of headers (parents symbolic), per-header difficulty from two classes; compared with a reference tree.',
 'C10': 'hash prefixes arbitrary (collisions of short hashes and unaligned occurrences included), cache size small so that eviction happens.',
 'C11': 'reopen after every tree of the bound; damaged and foreign files.',
 'C12': 'crash after each file-system change and part way through each write (symbolic crash point); reopen and compare with the two permitted states.',
 'C13': 'symbolic index and slice bounds against a reference array.',
 'H01': 'digit definitions; helpers composed against uninterpreted primitives.',
 'Q01': 'pairs of objects with symbolic contents of every combination of kinds.',
 'Q02': 'all 256 bytes, and all pairs for injectivity.',
}
