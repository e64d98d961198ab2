From cf07ff81870cd2e1a829fe1c2f2465d1865a93ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 01/13] fix: truncated varbytes with a length above 2^63 raise
 struct.error like other short data

---
 bitcoinx/packing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/packing.py b/bitcoinx/packing.py
index cb624ec..dab0801 100644
--- a/bitcoinx/packing.py
+++ b/bitcoinx/packing.py
@@ -193,7 +193,10 @@ def read_varint(read):
 
 def read_varbytes(read):
     n = read_varint(read)
-    result = read(n)
+    try:
+        result = read(n)
+    except OverflowError:    # n doesn't fit in a C ssize_t
+        result = b''
     if len(result) != n:
         raise struct_error(f'varbytes requires a buffer of {n:,d} bytes')
     return result
-- 
2.43.0


From 097e9d8cbc7fdebc9815fc7ec5a82f399bfe4fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 02/13] fix: JSON form of P2SH outputs raised AttributeError
 for lack of a KIND; give them one and their address

---
 bitcoinx/address.py | 2 ++
 bitcoinx/script.py  | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitcoinx/address.py b/bitcoinx/address.py
index 15f7d31..ad64703 100644
--- a/bitcoinx/address.py
+++ b/bitcoinx/address.py
@@ -127,6 +127,8 @@ class P2PKH_Address(Address):
 
 class P2SH_Address(Address):
 
+    KIND = 'scripthash'
+
     def __init__(self, hash160, coin):
         super().__init__(coin)
         self._hash160 = _validate_hash160(hash160)
diff --git a/bitcoinx/script.py b/bitcoinx/script.py
index e6cd276..d26cfd9 100644
--- a/bitcoinx/script.py
+++ b/bitcoinx/script.py
@@ -446,11 +446,11 @@ class Script:
             'hex': self.to_hex(),
         }
         if not is_script_sig and flags & JSONFlags.CLASSIFY_OUTPUT_SCRIPT:
-            from .address import P2PKH_Address, P2PK_Output
+            from .address import P2PKH_Address, P2SH_Address, P2PK_Output
 
             output = classify_output_script(self, coin)
             result['type'] = output.KIND
-            if isinstance(output, P2PKH_Address):
+            if isinstance(output, (P2PKH_Address, P2SH_Address)):
                 result['address'] = output.to_string()
             elif isinstance(output, P2PK_Output):
                 result['pubkey'] = output.public_key.to_hex()
-- 
2.43.0


From 20c7b1ac6b79d9bc89dcf267a8bff97fa3008111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 03/13] fix: ASM words int() cannot convert raise ScriptError
 like other malformed words

---
 bitcoinx/script.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bitcoinx/script.py b/bitcoinx/script.py
index d26cfd9..1707d88 100644
--- a/bitcoinx/script.py
+++ b/bitcoinx/script.py
@@ -475,12 +475,12 @@ class Script:
             except KeyError:
                 raise ScriptError(f'unrecognized op code {word}') from None
             return pack_byte(opcode)
-        # Handle what looks like a decimal, provided it's in-range
-        if word.isdigit() or word[0] == '-' and word[1:].isdigit():
-            value = int(word)
-            if abs(value) <= 2147483647:
-                return push_int(value)
         try:
+            # Handle what looks like a decimal, provided it's in-range
+            if word.isdigit() or word[0] == '-' and word[1:].isdigit():
+                value = int(word)
+                if abs(value) <= 2147483647:
+                    return push_int(value)
             return push_item(bytes.fromhex(word))
         except ValueError:
             raise ScriptError(f'invalid pushdata {word}') from None
-- 
2.43.0


From 7fe8cf9eb940b510055a51348b7d60d6d139e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 04/13] fix: cashaddr accepted the Kelvin sign in place of K in
 an upper-case address

---
 bitcoinx/cashaddr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitcoinx/cashaddr.py b/bitcoinx/cashaddr.py
index 0578353..ac6a215 100644
--- a/bitcoinx/cashaddr.py
+++ b/bitcoinx/cashaddr.py
@@ -110,6 +110,10 @@ def _decode_payload(addr):
 
     without the checksum.
     """
+    # The lower case of some other characters is ASCII, e.g. of the Kelvin sign U+212A
+    if not addr.isascii():
+        raise ValueError('non-ASCII characters in address: {}'.format(addr))
+
     lower = addr.lower()
     if lower != addr and addr.upper() != addr:
         raise ValueError('mixed case in address: {}'.format(addr))
-- 
2.43.0


From 34a0ed9efb736c17d88fc95cf6827578ad5ae37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 05/13] fix: cashaddr.decode of an empty payload with a valid
 checksum raised IndexError rather than ValueError

---
 bitcoinx/cashaddr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoinx/cashaddr.py b/bitcoinx/cashaddr.py
index ac6a215..9cd98c5 100644
--- a/bitcoinx/cashaddr.py
+++ b/bitcoinx/cashaddr.py
@@ -165,6 +165,9 @@ def decode(address):
 
     prefix, payload = _decode_payload(address)
 
+    if not payload:
+        raise ValueError('empty payload in address {}'.format(address))
+
     # Ensure there isn't extra padding
     extrabits = len(payload) * 5 % 8
     if extrabits >= 5:
-- 
2.43.0


From 5565bfd541922017d5a498a7547f77cbc819928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 06/13] fix: DER and compact signatures with out-of-range
 numbers were converted to a different signature

---
 bitcoinx/signature.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index c1ee55b..312a85e 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -90,6 +90,9 @@ def _der_signature_to_cdata(der_sig):
 def der_signature_to_compact(der_sig):
     '''Returns 64 bytes representing r and s as concatenated 32-byte big-endian numbers.'''
     cdata_sig = _der_signature_to_cdata(der_sig)
+    # secp256k1 replaces out-of-range numbers with zero; do not return another signature
+    if _cdata_signature_to_der(cdata_sig) != der_sig:
+        raise InvalidSignatureError('invalid DER-encoded signature')
     compact_sig = ffi.new('unsigned char [64]')
     lib.secp256k1_ecdsa_signature_serialize_compact(CONTEXT, compact_sig, cdata_sig)
     return bytes(ffi.buffer(compact_sig))
@@ -99,7 +102,8 @@ def compact_signature_to_der(compact_sig):
     if not (isinstance(compact_sig, bytes) and len(compact_sig) == 64):
         raise InvalidSignatureError('compact signature must be 64 bytes')
     cdata_sig = ffi.new('secp256k1_ecdsa_signature *')
-    lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig)
+    if not lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig):
+        raise InvalidSignatureError('compact signature is out of range')
     return _cdata_signature_to_der(cdata_sig)
 
 
-- 
2.43.0


From cb329ce6d1a3a320d38cba8817d0c7a46f5a7ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 07/13] fix: non-ASCII message signature text raises
 InvalidSignatureError like other bad base64

---
 bitcoinx/signature.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index 312a85e..b2d6b1d 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -31,7 +31,6 @@ __all__ = (
 )
 
 from base64 import b64decode
-from binascii import Error as binascii_Error
 
 from electrumsv_secp256k1 import ffi, lib
 
@@ -155,7 +154,7 @@ def to_recoverable_signature(message_sig):
     if isinstance(message_sig, str):
         try:
             message_sig = b64decode(message_sig, validate=True)
-        except binascii_Error:
+        except ValueError:   # includes binascii.Error; non-ASCII text raises ValueError
             raise InvalidSignatureError('invalid base64 encoding of message signature') from None
     if not isinstance(message_sig, bytes) or len(message_sig) != 65:
         raise InvalidSignatureError('message signature must be 65 bytes')
-- 
2.43.0


From 2d911211620d0880d54a4fc0522d30f1ab25e671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 08/13] fix: non-ASCII encrypted message text raises
 DecryptionError like other bad base64

---
 bitcoinx/keys.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bitcoinx/keys.py b/bitcoinx/keys.py
index 72e3025..57cd446 100644
--- a/bitcoinx/keys.py
+++ b/bitcoinx/keys.py
@@ -29,7 +29,6 @@ __all__ = ('PrivateKey', 'PublicKey', 'CURVE_ORDER', 'DecryptionError', )
 
 
 from base64 import b64decode, b64encode
-from binascii import Error as binascii_Error
 from os import urandom
 
 from electrumsv_secp256k1 import ffi, lib
@@ -297,7 +296,7 @@ class PrivateKey:
         if isinstance(message, str):
             try:
                 message = b64decode(message, validate=True)
-            except binascii_Error:
+            except ValueError:   # includes binascii.Error; non-ASCII text raises ValueError
                 raise DecryptionError('invalid base64 encoding of encrypted message') from None
         mlen = len(magic)
         if len(message) < 81 + mlen:
-- 
2.43.0


From 9466e4bee7c5e04a1399092b6d744627d6b13d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 09/13] fix: BIP32 path parts accepted a trailing newline

---
 bitcoinx/bip32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/bip32.py b/bitcoinx/bip32.py
index fbfbe58..f386330 100644
--- a/bitcoinx/bip32.py
+++ b/bitcoinx/bip32.py
@@ -44,7 +44,7 @@ from .packing import pack_be_uint32, unpack_be_uint32, pack_byte
 from .util import cachedproperty
 
 HARDENED = 1 << 31
-PART_REGEX = re.compile("([0-9]+)'?$")
+PART_REGEX = re.compile(r"([0-9]+)'?\Z")
 
 
 @attr.s(slots=True, frozen=True, repr=False)
-- 
2.43.0


From d88036af3c1ef25296eeefd639ff63a99216d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 10/13] fix: store a header before counting it

A process dying in between left a count including a header that was never
written, and the file could not be opened again.
---
 bitcoinx/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 2ce8768..3563235 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -238,9 +238,10 @@ class _HeaderStorage(object):
         if start >= len(mmap):
             mmap.close()
             mmap = self.mmap = map_file(self.filename, self._offset(index + 5_000))
+        self.mmap[start: start + 80] = raw_header
+        # Count the header only once it is stored, so that the file is good at all times
         if index >= len(self):
             self._set_count(index + 1)
-        self.mmap[start: start + 80] = raw_header
 
     def __getitem__(self, key):
         def header(index):
-- 
2.43.0


From 04620d5830d069793adc77ff9773eea6796f08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 11/13] fix: re-create an empty headers file

Mapping an empty file raises ValueError, so a file left empty, for example by
a process dying while creating it, could never be opened again.
---
 bitcoinx/chain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 3563235..420e810 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -202,7 +202,11 @@ class _HeaderStorage(object):
     def _open_file(self, checkpoint):
         logger.debug(f'opening headers file {self.filename}')
         s = self.struct_reserved
-        self.mmap = map_file(self.filename)
+        try:
+            self.mmap = map_file(self.filename)
+        except ValueError:
+            # An empty file cannot be mapped
+            raise _BadHeadersFile(f'empty headers file {self.filename}') from None
         try:
             if len(self.mmap) >= s.size:
                 self.reserved_size, version, self.header_count = s.unpack(self.mmap[:s.size])
-- 
2.43.0


From e2954516a5fbdd17c7eba1e4c8ae7231e5420668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:54 +0000
Subject: [PATCH 12/13] fix: count negative header storage indices from the end

A negative index beyond the first header read or overwrote bytes at a position
counted from the end of the file, which need not be a header at all.
---
 bitcoinx/chain.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 420e810..91da647 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -188,6 +188,14 @@ class _HeaderStorage(object):
         self.reserved_size = self.struct_reserved.size
         self.header_count = 0
 
+    def _index(self, key):
+        '''Convert a key, which if negative counts from the end, to a storage index.'''
+        if key < 0:
+            key += len(self)
+            if key < 0:
+                raise MissingHeader(f'no header at index {key}')
+        return key
+
     def _offset(self, key):
         return self.reserved_size + key * 80
 
@@ -256,16 +264,14 @@ class _HeaderStorage(object):
             return result
 
         if isinstance(key, int):
-            if key < 0:
-                key += len(self)
-            return header(key)
+            return header(self._index(key))
         elif isinstance(key, slice):
             return [header(index) for index in range(*key.indices(len(self)))]
         raise TypeError(f'key {key} should be an integer')
 
     def __setitem__(self, key, raw_header):
         if isinstance(key, int):
-            self._set_raw_header(key, raw_header)
+            self._set_raw_header(self._index(key), raw_header)
         else:
             raise TypeError(f'key {key} should be an integer')
 
-- 
2.43.0


From 268342dd4523aaaaec46587a503a9bc134dea3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:04 +0000
Subject: [PATCH 13/13] fix: allow more than 65,536 chains

---
 bitcoinx/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 91da647..989161a 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -323,7 +323,7 @@ class Headers(object):
         self._chains = []
         self._short_hashes = bytearray()
         self._heights = array.array('I')
-        self._chain_indices = array.array('H')
+        self._chain_indices = array.array('I')
         self._cache = {}
 
         # Create the base chain out to the checkpoint
-- 
2.43.0

