From 7924c3f9cb3cd8f44e65481fcd12ecb35eeb0672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 01/57] fix: encode_int and encode_varint return bytes on
 Python 3 (builtin chr gave text)

---
 bitforge/encoding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 6c2f3fe..429b866 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -3,6 +3,7 @@ import binascii
 import hashlib
 
 from . import utils
+from .compat import chr
 from .errors import StringError
 
 
-- 
2.43.0


From 765c235ac49e320c2dd7ddb3d0ea681155258a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 02/57] fix: encode_int and encode_varint refuse numbers that
 do not fit

---
 bitforge/encoding.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 429b866..3f99eb6 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -4,7 +4,7 @@ import hashlib
 
 from . import utils
 from .compat import chr
-from .errors import StringError
+from .errors import StringError, NumberError
 
 
 class EncodingError(StringError):
@@ -19,6 +19,10 @@ class InvalidHex(EncodingError):
     "The string {string} is not valid hexadecimal"
 
 
+class InvalidInteger(NumberError):
+    "The number {number} is negative, or too big for the space it should be encoded in"
+
+
 class InvalidScriptNumber(EncodingError):
     "The script number {string} is too long"
 
@@ -40,6 +44,9 @@ def decode_base58h(string):
 
 
 def encode_int(integer, big_endian = True, length = None):
+    if integer < 0 or (length is not None and integer >> (8 * length)):
+        raise InvalidInteger(integer)
+
     if integer == 0:
         return chr(0) if length is None else chr(0) * length
 
@@ -50,8 +57,7 @@ def encode_int(integer, big_endian = True, length = None):
         integer >>= 8
 
     if length is not None:
-        zeros = bytearray(length) # TODO if number can't fit in length, raise
-        data = (data + zeros)[:length]
+        data += bytearray(length - len(data))
 
     if big_endian:
         data.reverse()
@@ -73,7 +79,6 @@ def decode_int(bytes, big_endian = True):
 
 
 def encode_varint(integer):
-    # TODO check integer is a postive number
     if integer < 253:
         return encode_int(integer)
 
-- 
2.43.0


From dd36d8d87c414728b259fc674009f3c3f45e584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 03/57] fix: decode_script_number accepts numbers of exactly
 the maximum size

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 3f99eb6..f17d6d0 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -146,7 +146,7 @@ def decode_script_number(bytes, f_require_minimal = False, size = 4):
     to input a number bigger than 4 bytes. A third argument, `size`, is provided
     to extend the hard limit of 4 bytes, as some usages require more than 4 bytes.
     """
-    if len(bytes) >= size:
+    if len(bytes) > size:
         raise InvalidScriptNumber(bytes)
 
     if f_require_minimal and len(bytes) > 0:
-- 
2.43.0


From c3c36bccf971eb5d6f2d6e56815f71c2b4251d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 04/57] fix: hash160 called digest() on a bytes object

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index f17d6d0..4162f19 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -135,7 +135,7 @@ def ripemd160(bytes):
 
 
 def hash160(bytes):
-    return ripemd160(sha256(bytes)).digest()
+    return ripemd160(sha256(bytes))
 
 
 def decode_script_number(bytes, f_require_minimal = False, size = 4):
-- 
2.43.0


From db7d877a6f153679d2aecd290464ec6fe135641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 05/57] fix: decode_hex reports non-ASCII text as InvalidHex

---
 bitforge/encoding.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 4162f19..70c8ac7 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -117,8 +117,9 @@ def encode_hex(bytes):
 def decode_hex(string):
     try:
         return binascii.unhexlify(string)
-    except (TypeError, binascii.Error):
-        # unhexlify() throws 2 different exceptions (length, and alphabet)
+    except (TypeError, ValueError):
+        # unhexlify() throws different exceptions (length, alphabet, non-ASCII
+        # text). Note binascii.Error is a ValueError
         raise InvalidHex(string)
 
 
-- 
2.43.0


From e6e8cf8c0153653801eae4eb60130855df592c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 06/57] fix: library errors can be printed on Python 3 (no
 BaseException.message)

---
 bitforge/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/errors.py b/bitforge/errors.py
index 8bcd3f8..a8acc4c 100644
--- a/bitforge/errors.py
+++ b/bitforge/errors.py
@@ -4,8 +4,8 @@ class BitforgeError(Exception):
     def __init__(self, *args, **kwargs):
         self.cause = kwargs.pop('cause', None)
         self.prepare(*args, **kwargs)
-        message = self.__doc__.format(**self.__dict__)
-        super(BitforgeError, self).__init__(message)
+        self.message = self.__doc__.format(**self.__dict__)
+        super(BitforgeError, self).__init__(self.message)
 
     def prepare(self):
         pass
-- 
2.43.0


From e0125052e17d19dab0008f90404eef005e52b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 07/57] fix: networks (and so keys and addresses) are hashable
 and immutable

---
 bitforge/networks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitforge/networks.py b/bitforge/networks.py
index 80c5fa4..ee1fa01 100644
--- a/bitforge/networks.py
+++ b/bitforge/networks.py
@@ -35,12 +35,12 @@ testnet = Network(
     magic      = 0x0b110907,
 
     port  = 18333,
-    seeds = [
+    seeds = (
         'testnet-seed.bitcoin.petertodd.org',
         'testnet-seed.bluematt.me',
         'testnet-seed.alexykot.me',
         'testnet-seed.bitcoin.schildbach.de'
-    ]
+    )
 )
 
 default = livenet = Network(
@@ -54,14 +54,14 @@ default = livenet = Network(
   magic      = 0xf9beb4d9,
 
   port  = 8333,
-  seeds = [
+  seeds = (
     'seed.bitcoin.sipa.be',
     'dnsseed.bluematt.me',
     'dnsseed.bitcoin.dashjr.org',
     'seed.bitcoinstats.com',
     'seed.bitnodes.io',
     'bitseed.xf2.org'
-  ]
+  )
 )
 
 _networks = [livenet, testnet]
-- 
2.43.0


From 402ab407c3f604d28bb2732e341c6c7ad3d4e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 08/57] fix: Buffer.read returns bytes, so parsed scripts hold
 immutable data

---
 bitforge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/tools.py b/bitforge/tools.py
index 1f91d7e..c99038e 100644
--- a/bitforge/tools.py
+++ b/bitforge/tools.py
@@ -20,7 +20,7 @@ class Buffer(bytearray):
         if len(self) < amount:
             raise Buffer.InsufficientData(len(self), amount)
 
-        ret = self[:amount]
+        ret = bytes(self[:amount])
         del self[:amount]
         return ret
 
-- 
2.43.0


From 1757f3b05dd29bb0c9f5a93b86399b93dd031f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 09/57] fix: PUSHDATA lengths are little-endian, padded on the
 right

---
 bitforge/script/instruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 1bf3faf..74aebb9 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -95,8 +95,9 @@ class Instruction(BaseInstruction):
 
             length_bytes = encode_int(
                 len(self.data),
-                big_endian = False
-            ).rjust(length_nbytes, '\0')
+                big_endian = False,
+                length = length_nbytes
+            )
 
             return opcode_byte + length_bytes + self.data
 
-- 
2.43.0


From 2b5ee128f663bffd244aafe42e4ff111fe9830ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 10/57] fix: Instruction.is_minimal_push failed on every push

---
 bitforge/script/instruction.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 74aebb9..cbf7764 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -60,21 +60,21 @@ class Instruction(BaseInstruction):
         Comes from bitcoind's script interpreter CheckMinimalPush function.
         Returns if the instruction is the smallest way to push that particular data.
         """
-        if not self.data:
+        if self.data is None:
             return True
 
         if len(self.data) == 0:
             # Could have used OP_0.
             return self.opcode == OP_0
-        elif len(self.data) == 1 and 1 <= decode_int(self.data[0]) <= 16:
+        elif len(self.data) == 1 and 1 <= decode_int(self.data) <= 16:
             # Could have used OP_1 .. OP_16
-            return self.opcode.number == OP_1.number + decode_int(self.data[0]) - 1
-        elif len(self.data) == 1 and decode_int(self.data[0]) == 0x81:
+            return self.opcode.number == OP_1.number + decode_int(self.data) - 1
+        elif len(self.data) == 1 and decode_int(self.data) == 0x81:
             # Could have used OP_1NEGATE
             return self.opcode == OP_1NEGATE
         elif len(self.data) <= 75:
             # Could have used a direct push (opcode indicating number of bytes pushed + those bytes).
-            return self.opcode.number == len(self.data.length)
+            return self.opcode.number == len(self.data)
         elif len(self.data) <= 255:
             # Could have used OP_PUSHDATA.
             return self.opcode == OP_PUSHDATA1
-- 
2.43.0


From f8c67c53513ade2f6f7d457c3dd8088ed38e7ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 11/57] fix: RedeemMultisig.is_valid failed on scripts that
 start with a push

---
 bitforge/script/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 6c1a74a..9778a36 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -278,8 +278,8 @@ class RedeemMultisig(Script):
 
         return (
             len(structure) >= 4 and
-            structure[0].is_number() and
-            structure[-2].is_number() and
+            script.instructions[0].opcode.is_number() and
+            script.instructions[-2].opcode.is_number() and
             structure[-1] == OP_CHECKMULTISIG and
             all(op == 'PUSH' for op in structure[1:-2])
         )
-- 
2.43.0


From a6036e07016bec862201a3ad8ef8d9d2891bba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 12/57] fix: the text form of an empty script can be read back

---
 bitforge/script/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 9778a36..b41583c 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -86,7 +86,7 @@ class Script(BaseScript):
     @staticmethod
     def from_string(string):
         instructions = []
-        tokens = (i for i in string.split(' '))
+        tokens = (i for i in string.split(' ') if string != '')
 
         def get_opcode(token):
             try:
-- 
2.43.0


From f090235b22820a9f4a24b74729dffb8dfb27b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 13/57] fix: non-ASCII digits in script text are refused with a
 library error

---
 bitforge/script/script.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index b41583c..7d74a97 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -88,11 +88,15 @@ class Script(BaseScript):
         instructions = []
         tokens = (i for i in string.split(' ') if string != '')
 
+        def is_decimal(token):
+            # str.isdigit() accepts more than int() does
+            return token != '' and all(c in '0123456789' for c in token)
+
         def get_opcode(token):
             try:
                 return Opcode.from_name(token)
             except Opcode.UnknownOpcodeName:
-                if token.isdigit():
+                if is_decimal(token):
                     return Opcode.const_push_for(int(token))
                 else:
                     raise Script.UnknownOpcodeName(token)
@@ -114,7 +118,7 @@ class Script(BaseScript):
                     size_string = next(tokens)
                     hex_bytes = next(tokens)
 
-                    if not size_string.isdigit():
+                    if not is_decimal(size_string):
                         raise Script.InvalidPushSize(size_string)
 
                     if not hex_bytes.startswith('0x'):
-- 
2.43.0


From 563362913bcb6f507317ed25e9337812820e7744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 14/57] fix: unassigned opcodes can be printed

---
 bitforge/script/opcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/opcode.py b/bitforge/script/opcode.py
index 4ab386c..6b965d9 100644
--- a/bitforge/script/opcode.py
+++ b/bitforge/script/opcode.py
@@ -192,7 +192,7 @@ class Opcode(object):
         if self.is_const_push():
             return "_PUSH_%d_BYTES" % self.number
         else:
-            return Opcode.opcode_number_to_name[self.number]
+            return Opcode.opcode_number_to_name.get(self.number, 'OP_UNKNOWN')
 
     def is_number(self):
         return self == OP_0 or (OP_1 <= self <= OP_16)
-- 
2.43.0


From f5d3a26596849acdae8fc6b1636059384d676b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 15/57] fix: transactions serialize to bytes on Python 3

---
 bitforge/transaction/input.py       | 3 ++-
 bitforge/transaction/output.py      | 2 +-
 bitforge/transaction/transaction.py | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 4857dba..c8597f3 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -1,6 +1,7 @@
 from __future__ import unicode_literals
 import collections
 
+from bitforge.compat import chr
 from bitforge.encoding import *
 from bitforge.errors import *
 from bitforge.tools import Buffer
@@ -72,7 +73,7 @@ class Input(BaseInput):
         # Sequence number, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.seq_number, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 5b13aad..311f037 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -50,7 +50,7 @@ class Output(BaseOutput):
         # Script body (? bytes):
         buffer.write(script)
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 75b6765..82d2559 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -72,7 +72,7 @@ class Transaction(BaseTransaction):
         # Transaction lock time, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.lock_time, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
-- 
2.43.0


From dd83d707a704a362a74b6e31a22f4a5155c21d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 16/57] fix: transaction ids are text in the conventional
 (reversed) byte order

---
 bitforge/transaction/input.py       | 2 +-
 bitforge/transaction/transaction.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index c8597f3..65ba633 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -108,7 +108,7 @@ class Input(BaseInput):
     @classmethod
     def from_buffer(cls, buffer):
         # Inverse operation of Input.to_bytes(), check that out.
-        tx_id     = encode_hex(buffer.read(32)[::-1]) # reversed
+        tx_id     = encode_hex(buffer.read(32)[::-1]).decode("utf-8") # reversed
         txo_index = decode_int(buffer.read(4), big_endian = False)
 
         script_len = buffer.read_varint()
diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 82d2559..e727486 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -81,7 +81,9 @@ class Transaction(BaseTransaction):
         return sha256(sha256(self.to_bytes()))
 
     def get_id(self):
-        return encode_hex(self.get_id_bytes())
+        # Transaction IDs are conventionally written in reverse byte order, which
+        # is also what Input expects as tx_id
+        return encode_hex(self.get_id_bytes()[::-1]).decode("utf-8")
 
     def replace_inputs(self, inputs):
         return Transaction(inputs, self.outputs, self.lock_time, self.version)
-- 
2.43.0


From acaf5a8b8d0e0369bcd333fe9db07a06115c92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 17/57] fix: Input.create failed for scripts of no input
 template

---
 bitforge/transaction/input.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 65ba633..eb33d6d 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -48,11 +48,8 @@ class Input(BaseInput):
         elif isinstance(script, PayToScriptIn):
             return ScriptInput(*args)
 
-        elif isinstance(script, OpReturnOut):
-            return DataOutput(*args)
-
         else:
-            return Output(amount, script)
+            return Input(*args)
 
     def to_bytes(self):
         buffer = Buffer()
-- 
2.43.0


From 0b560be5b3e03d10cf139e04d1524368794b070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 18/57] fix: an input whose tx_id is not 32 bytes can not be
 serialized

---
 bitforge/transaction/input.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index eb33d6d..203be84 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -25,6 +25,9 @@ class Input(BaseInput):
     class UnknownSignatureMethod(Error):
         "This abstract Input doesn't know how to sign itself. You should use an Input subclass, such as AddressInput"
 
+    class InvalidTransactionId(Error, StringError):
+        "Transaction ID {string} of an Input is not 32 bytes long"
+
     class InvalidSignatureCount(Error):
         "This Input requires {required} keys to sign, but {provided} were provided"
 
@@ -56,7 +59,12 @@ class Input(BaseInput):
         script = self.script.to_bytes()
 
         # Reverse transaction ID (double SHA256 hex of previous tx) (32 bytes):
-        buffer.write(reversed(decode_hex(self.tx_id)))
+        tx_id = decode_hex(self.tx_id)
+
+        if len(tx_id) != 32:
+            raise Input.InvalidTransactionId(self.tx_id)
+
+        buffer.write(reversed(tx_id))
 
         # Previous tx output index, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.txo_index, length = 4, big_endian = False))
-- 
2.43.0


From 7614b724443da7c7e7047600dd5feec5a4108c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 19/57] fix: a MultisigOutput pays to the hash of its redeem
 script

---
 bitforge/transaction/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 311f037..45d9aef 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -95,7 +95,7 @@ class MultisigOutput(ScriptOutput):
     @classmethod
     def create(cls, amount, pubkeys, min_signatures):
         redeem_script = RedeemMultisig.create(pubkeys, min_signatures)
-        return cls(amount, redeem_script)
+        return cls(amount, PayToScriptOut.create(redeem_script))
 
 
 class DataOutput(Output):
-- 
2.43.0


From ff0a64227c88dd62f7085b834d15dec78fedcbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 20/57] fix: a script-hash address can not be paid as a
 public-key-hash address

---
 bitforge/script/script.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 7d74a97..9a8bfeb 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -5,7 +5,7 @@ import collections
 from bitforge.encoding import *
 from bitforge.tools import Buffer
 from bitforge.errors import *
-from bitforge import PublicKey
+from bitforge import Address, PublicKey
 
 from .opcode import *
 from .instruction import Instruction
@@ -195,8 +195,14 @@ class PayToPubkeyIn(Script):
 
 class PayToPubkeyOut(Script):
 
+    class InvalidAddressType(Script.Error, ObjectError):
+        "Expected the Address of a PublicKey, got {object}"
+
     @classmethod
     def create(cls, address):
+        if address.type != Address.Type.PublicKey:
+            raise PayToPubkeyOut.InvalidAddressType(address)
+
         schematic = [ OP_DUP, OP_HASH160, address.phash, OP_EQUALVERIFY, OP_CHECKSIG ]
         return cls(to_instructions(schematic))
 
-- 
2.43.0


From c859a9ee31a05b353ec93a744a8662312587ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 21/57] fix: MultisigInput.can_sign works on testnet and
 refuses repeated keys

---
 bitforge/transaction/input.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 203be84..f7cab1d 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -190,10 +190,14 @@ class MultisigInput(ScriptInput):
         if len(privkeys) != self.script.get_min_signatures():
             return False
 
-        expected_pubkeys = self.script.get_public_keys()
+        # Compare serialized keys: the ones in the script carry no network
+        expected_pubkeys = self.get_serialized_public_keys()
+        provided_pubkeys = set(pk.to_public_key().to_bytes() for pk in privkeys)
 
-        for privkey in privkeys:
-            if privkey.to_public_key() not in expected_pubkeys:
-                return False
+        return (
+            len(provided_pubkeys) == len(privkeys) and
+            all(pubkey in expected_pubkeys for pubkey in provided_pubkeys)
+        )
 
-        return True
+    def get_serialized_public_keys(self):
+        return [ pubkey.to_bytes() for pubkey in self.script.get_public_keys() ]
-- 
2.43.0


From 05106722f9f794e1b4c68193005a0883985265fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 22/57] fix: multisig inputs refuse a wrong number of keys and
 order their signatures

---
 bitforge/transaction/input.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index f7cab1d..df3f170 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -186,6 +186,23 @@ class MultisigInput(ScriptInput):
 
         return cls(tx_id, txo_index, placeholder_script, seq_number)
 
+    def sign(self, privkeys, payload, sigtype = SIGHASH_ALL):
+        required = self.script.get_min_signatures()
+
+        if len(privkeys) != required:
+            raise MultisigInput.InvalidSignatureCount(required, len(privkeys))
+
+        # OP_CHECKMULTISIG expects the signatures in the order of the PublicKeys
+        pubkeys = self.get_serialized_public_keys()
+
+        def position(privkey):
+            pubkey = privkey.to_public_key().to_bytes()
+            return pubkeys.index(pubkey) if pubkey in pubkeys else len(pubkeys)
+
+        privkeys = sorted(privkeys, key = position)
+
+        return super(MultisigInput, self).sign(privkeys, payload, sigtype)
+
     def can_sign(self, privkeys):
         if len(privkeys) != self.script.get_min_signatures():
             return False
-- 
2.43.0


From ce6753a68ece041b83cd0a9733556d8746339938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 23/57] fix: PrivateKey.verify checks the digest that
 PrivateKey.sign signed

---
 bitforge/privkey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 4bcaa3d..8319c05 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -135,7 +135,7 @@ class PrivateKey(BasePrivateKey):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
         verifying_key = signing_key.get_verifying_key()
 
-        return verifying_key.verify(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        return verifying_key.verify_digest(signature, message, sigdecode = ecdsa.util.sigdecode_der)
 
     def __repr__(self):
         return "<PrivateKey: %s, network: %s>" % (self.to_hex(), self.network.name)
-- 
2.43.0


From ccc3aa94f49f41214e2c95c88c9b5a0b4ca9d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 24/57] fix: validate_signature accepts bytes on Python 3

---
 bitforge/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/signature.py b/bitforge/signature.py
index 1ccf21e..2e707ef 100644
--- a/bitforge/signature.py
+++ b/bitforge/signature.py
@@ -9,7 +9,7 @@ SIGHASH_ANYONECANPAY = 0x80
 
 def validate_signature(sig):
     # Minimum and maximum size constraints.
-    sig = map(ord, sig)
+    sig = bytearray(sig)
 
     if (len(sig) < 9): return False;
     if (len(sig) > 73): return False;
-- 
2.43.0


From 601fc19a421348cc25952eafae36a8f620b73893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 25/57] fix: signing an input that does not exist is refused

---
 bitforge/transaction/transaction.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index e727486..91540fa 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -33,6 +33,9 @@ class Transaction(BaseTransaction):
     class InvalidLockTime(Error, NumberError):
         "Transaction lock_time must be between 0 and 4294967295 (2^32 - 1), not {number}"
 
+    class InvalidInputIndex(Error, NumberError):
+        "Transaction has no Input with index {number}"
+
 
     def __new__(cls, inputs, outputs, lock_time = 0, version = 1):
         inputs = tuple(inputs)
@@ -89,6 +92,9 @@ class Transaction(BaseTransaction):
         return Transaction(inputs, self.outputs, self.lock_time, self.version)
 
     def sign(self, privkeys, txi_index, sigtype = SIGHASH_ALL):
+        if not (0 <= txi_index < len(self.inputs)):
+            raise Transaction.InvalidInputIndex(txi_index)
+
         # A Transaction Input is signed in 4 steps:
         #   1. Create a simplified Transaction without data from other Inputs
         #   2. Sign the simplified Transaction data, discard it, keep the signature
-- 
2.43.0


From 36b35d17caacf782f3f86e5d541e9c7eb7d8ef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 26/57] fix: OP_DROP removes one element, not two

---
 bitforge/script/interpreter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 140d10b..a4ebd66 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -393,7 +393,6 @@ class Interpreter(object):
                     return False
 
                 self.stack.pop()
-                self.stack = self.stack[:-1]
 
             elif instruction.opcode == OP_DUP:
                 # ( x -- x x )
-- 
2.43.0


From ce542b0d69d52774328bd3130be20d788d1644c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 27/57] fix: OP_ABS ignored its operand

---
 bitforge/script/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index a4ebd66..e9256eb 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -513,7 +513,7 @@ class Interpreter(object):
                     number = -number
 
                 elif instruction.opcode == OP_ABS:
-                    number = abs(-1)
+                    number = abs(number)
 
                 elif instruction.opcode == OP_NOT:
                     number = int(number == 0)
-- 
2.43.0


From 4fe35c783d4747f033969b0e8abe8ff538fb38b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 28/57] fix: OP_WITHIN requires minimal numbers under
 SCRIPT_VERIFY_MINIMALDATA

---
 bitforge/script/interpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index e9256eb..21b6023 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -591,7 +591,10 @@ class Interpreter(object):
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
 
-                number1, number2, number3 = map(decode_script_number, self.stack[-3:])
+                number1, number2, number3 = [
+                    decode_script_number(bytes, f_required_minimal)
+                    for bytes in self.stack[-3:]
+                ]
                 f_value = number2 <= number1 < number3
 
                 self.stack = self.stack[:-3] + [Interpreter.bool_bytes[f_value]]
-- 
2.43.0


From 247c2ea4bd1127f63e5d96dc979bf072a0f43444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 29/57] fix: the stack size limit applies after every
 instruction

---
 bitforge/script/interpreter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 21b6023..52c538a 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -132,9 +132,9 @@ class Interpreter(object):
                 if not self.step():
                     return False
 
-            if len(self.stack) + len(self.altstack) > 1000:
-                self.errstr = 'SCRIPT_ERR_STACK_SIZE'
-                return False
+                if len(self.stack) + len(self.altstack) > 1000:
+                    self.errstr = 'SCRIPT_ERR_STACK_SIZE'
+                    return False
 
         except Exception as e:
             self.errstr = 'SCRIPT_ERR_UNKNOWN_ERROR: ' + str(e)
-- 
2.43.0


From 7b6a07ccac81d5b144ddf873a7851f8282d1efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 30/57] fix: OP_CHECKLOCKTIMEVERIFY follows BIP65 and its flag

---
 bitforge/script/interpreter.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 52c538a..792a5ec 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -2,6 +2,7 @@ from __future__ import unicode_literals
 
 from bitforge.errors import BitforgeError
 from bitforge.transaction import Transaction, Input, Output
+from bitforge.transaction.input import FINAL_SEQ_NUMBER
 from bitforge.tools import Buffer
 from bitforge.script import Script
 
@@ -209,11 +210,14 @@ class Interpreter(object):
                 pass
 
             elif instruction.opcode == OP_CHECKLOCKTIMEVERIFY:
-                if self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY:
+                if not (self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY):
+                    # not enabled; treat as a NOP2
                     if self.flags & Interpreter.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS:
                         self.errstr = 'SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS'
                         return False
 
+                    return True
+
                 if len(self.stack) < 1:
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
@@ -758,7 +762,17 @@ class Interpreter(object):
         return True
 
     def check_lock_time(self, nlock_time):
-        pass
+        # Block heights and timestamps can't be compared with each other
+        threshold = Interpreter.LOCKTIME_THRESHOLD
+
+        if (nlock_time < threshold) != (self.tx.lock_time < threshold):
+            return False
+
+        if nlock_time > self.tx.lock_time:
+            return False
+
+        # The transaction's lock time is disabled by a final sequence number
+        return self.tx.inputs[self.nin].seq_number != FINAL_SEQ_NUMBER
 
     def check_signature_encoding(self, bytes):
         pass
-- 
2.43.0


From 134632572a4eb01cc798ccb33b30bea097feb311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 31/57] fix: pay-to-script-hash verification runs the redeem
 script

---
 bitforge/script/interpreter.py | 14 ++++++++++----
 bitforge/script/script.py      | 12 ++++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 792a5ec..0719205 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -81,7 +81,7 @@ class Interpreter(object):
             return False
 
         # Additional validation for spend-to-script-hash transactions:
-        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_sig.is_script_hash_out():
+        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_pubkey.is_script_hash_out():
             # script_sig must be literals-only or validation fails
             if not script_sig.is_push_only():
                 self.errstr = 'SCRIPT_ERR_SIG_PUSHONLY'
@@ -94,7 +94,13 @@ class Interpreter(object):
                 raise Exception('internal error - stack copy empty')
 
             redeem_bytes = stack_copy[-1]
-            redeem_script = Script.from_bytes(redeem_bytes)
+
+            try:
+                redeem_script = Script.from_bytes(redeem_bytes)
+            except BitforgeError:
+                self.errstr = 'SCRIPT_ERR_BAD_OPCODE'
+                return False
+
             stack_copy = stack_copy[:-1]
 
             self.initialize()
@@ -108,11 +114,11 @@ class Interpreter(object):
             if not self.evaluate():
                 return False
 
-            if len(stack_copy) == 0:
+            if len(self.stack) == 0:
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_NO_P2SH_STACK'
                 return False
 
-            if not Interpreter.cast_to_bool(stack_copy[-1]):
+            if not Interpreter.cast_to_bool(self.stack[-1]):
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_IN_P2SH_STACK'
                 return False
 
diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 9a8bfeb..b0f4ce5 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -157,6 +157,18 @@ class Script(BaseScript):
         """
         return all(i.opcode <= OP_16 for i in self.instructions)
 
+    def is_script_hash_out(self):
+        """
+        :returns: if this is exactly a pay-to-script-hash output script, as defined by BIP16
+        """
+        data = bytearray(self.to_bytes())
+        return (
+            len(data) == 23 and
+            data[0] == OP_HASH160.number and
+            data[1] == 20 and
+            data[22] == OP_EQUAL.number
+        )
+
     def __repr__(self):
         return str(self.instructions)
 
-- 
2.43.0


From 92952fc607fc2e821f2a32ac50ce98cbd6cb16c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 32/57] fix: extended keys can be written as strings

---
 bitforge/hdprivkey.py | 4 ++--
 bitforge/hdpubkey.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index fdacda3..6c1f78c 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -64,13 +64,13 @@ class HDPrivateKey(BaseHDPrivateKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_private_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
             + to_bytes(self.index, length = 4)
             + self.chain
-            + '\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
+            + b'\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
             + self.to_private_key().to_bytes()
         )
 
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index ac4e0e9..489fea6 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -50,7 +50,7 @@ class HDPublicKey(BaseHDPublicKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_public_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
-- 
2.43.0


From 54fe45261d0f3f0b86021f0d338a73ee125ae026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 33/57] fix: extended keys are derived as in BIP32

---
 bitforge/hdprivkey.py | 8 ++++----
 bitforge/hdpubkey.py  | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 6c1f78c..e206065 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -83,18 +83,18 @@ class HDPrivateKey(BaseHDPrivateKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
-            key = '\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
+        if index >= HARDENED_START:
+            key = b'\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
         else:
             key = self.to_public_key().to_bytes()
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().seed) % utils.generator_secp256k1.order()
+        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().secret) % utils.generator_secp256k1.order()
         privkey = PrivateKey(seed, self.network)
         chain   = signed64[32:]
         depth   = self.depth + 1
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 489fea6..944f17e 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -68,14 +68,14 @@ class HDPublicKey(BaseHDPublicKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
+        if index >= HARDENED_START:
             raise ValueError("Hardened derivation is not posible on HDPublicKey")
         else:
             key = self.to_public_key().to_bytes()
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-- 
2.43.0


From ae2ed56f49966cb0384f2ec2772f24047850bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 34/57] fix: extended key strings of the wrong length or layout
 are refused

---
 bitforge/hdprivkey.py | 6 ++++++
 bitforge/hdpubkey.py  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index e206065..351a544 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -49,6 +49,12 @@ class HDPrivateKey(BaseHDPrivateKey):
     def from_string(b58_str):
         data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
 
+        if len(data) != HDPrivateKey.DataLength:
+            raise ValueError("HDPrivateKey string must contain 78 bytes, not %d" % len(data))
+
+        if data[HDPrivateKey.ChainCodeEnd : HDPrivateKey.PrivateKeyStart] != b'\0':
+            raise ValueError("HDPrivateKey string must have a zero before the key")
+
         chain   = data[HDPrivateKey.ChainCodeStart : HDPrivateKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPrivateKey.DepthStart : HDPrivateKey.DepthEnd])
         index   = int_from_bytes(data[HDPrivateKey.ChildIndexStart : HDPrivateKey.ChildIndexEnd])
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 944f17e..aafc896 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -29,6 +29,9 @@ class HDPublicKey(BaseHDPublicKey):
     def from_string(b58_str):
         data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
 
+        if len(data) != HDPublicKey.DataSize:
+            raise ValueError("HDPublicKey string must contain 78 bytes, not %d" % len(data))
+
         chain   = data[HDPublicKey.ChainCodeStart : HDPublicKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPublicKey.DepthStart : HDPublicKey.DepthEnd])
         index   = int_from_bytes(data[HDPublicKey.ChildIndexStart : HDPublicKey.ChildIndexEnd])
-- 
2.43.0


From 393358470407e4c173d7280a1bcba026deb4c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 35/57] fix: utils.sign reduces r modulo the group order

---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 920f4ee..83c4611 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -102,7 +102,7 @@ def sign(generator, secret_exponent, val):
     n = G.order()
     k = deterministic_generate_k(n, secret_exponent, val)
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( val + ( secret_exponent * r ) % n ) ) % n
-- 
2.43.0


From d00dc88f6c6648486271ed26341c2e33a1f39a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 36/57] fix: utils.verify refuses signatures that lead to the
 point at infinity

---
 bitforge/utils/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 83c4611..b058355 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -141,6 +141,7 @@ def verify(generator, public_pair, val, signature):
     u1 = ( val * c ) % n
     u2 = ( r * c ) % n
     point = u1 * G + u2 * ellipticcurve.Point( G.curve(), public_pair[0], public_pair[1], G.order() )
+    if point == ellipticcurve.INFINITY: return False
     v = point.x() % n
     return v == r
 
-- 
2.43.0


From 4fea10cf178b6abe26b62d1a30e1d5e26b816f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 37/57] fix: the RFC6979 nonce reduces hash values equal to the
 group order

---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index b058355..933b8a7 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -59,7 +59,7 @@ def deterministic_generate_k(generator_order, secret_exponent, val, hash_f=hashl
     shift = 8 * hash_size - bit_length(n)
     if shift > 0:
         val >>= shift
-    if val > n:
+    if val >= n:
         val -= n
     h1 = intbytes.to_bytes(val, length=order_size)
     k = hmac.new(k, v + b'\x00' + priv + h1, hash_f).digest()
-- 
2.43.0


From d4566b78dae5c445fcdda4333fd047d5689e2fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 38/57] fix: public key recovery covers every candidate point

---
 bitforge/utils/ecdsa.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 933b8a7..e0b8a55 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -160,18 +160,23 @@ def possible_public_pairs_for_signature(generator, value, signature):
     # 1.1
     inv_r = numbertheory.inverse_mod(r,order)
     minus_e = -value % order
-    x = r
-    # 1.3
-    alpha = ( pow(x,3,p)  + curve.a() * x + curve.b() ) % p
-    beta = numbertheory.modular_sqrt(alpha, p)
-    for y in [beta, p - beta]:
-        # 1.4 the constructor checks that nR is at infinity
-        R = ellipticcurve.Point(curve, x, y, order)
-        # 1.6 compute Q = r^-1 (sR - eG)
-        Q = inv_r * ( s * R + minus_e * G )
-        public_pair = (Q.x(), Q.y())
-        # check that Q is the public key
-        if verify(generator, public_pair, value, signature):
-        # check that we get the original signing address
-            possible_points.add(public_pair)
+    # r is x modulo the order, which may be smaller than the field
+    for x in range(r, p, order):
+        # 1.3
+        alpha = ( pow(x,3,p)  + curve.a() * x + curve.b() ) % p
+        beta = numbertheory.modular_sqrt(alpha, p)
+        if ( beta * beta - alpha ) % p != 0:
+            continue # no point of the curve has this x
+        for y in [beta, p - beta]:
+            # 1.4 the constructor checks that nR is at infinity
+            R = ellipticcurve.Point(curve, x, y, order)
+            # 1.6 compute Q = r^-1 (sR - eG)
+            Q = inv_r * ( s * R + minus_e * G )
+            if Q == ellipticcurve.INFINITY:
+                continue
+            public_pair = (Q.x(), Q.y())
+            # check that Q is the public key
+            if verify(generator, public_pair, value, signature):
+            # check that we get the original signing address
+                possible_points.add(public_pair)
     return possible_points
-- 
2.43.0


From e86145527b8886bc498a651e9a641a802450c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 39/57] fix: modular_sqrt uses integer division on Python 3

---
 bitforge/utils/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/numbertheory.py b/bitforge/utils/numbertheory.py
index f2df00f..232a33d 100755
--- a/bitforge/utils/numbertheory.py
+++ b/bitforge/utils/numbertheory.py
@@ -56,7 +56,7 @@ def modular_sqrt(a, p):
     s = p - 1
     e = 0
     while s % 2 == 0:
-        s /= 2
+        s //= 2
         e += 1
 
     # Find some 'n' with a legendre symbol n|p = -1.
-- 
2.43.0


From 3f42239e292aaeae4a0fe4ff5f0e973fc57201b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 40/57] fix: point multiplication always returns reduced
 coordinates

---
 bitforge/utils/ellipticcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ellipticcurve.py b/bitforge/utils/ellipticcurve.py
index c225aa3..2e4244d 100644
--- a/bitforge/utils/ellipticcurve.py
+++ b/bitforge/utils/ellipticcurve.py
@@ -130,7 +130,7 @@ class Point( object ):
     # From X9.62 D.3.2:
 
     e3 = 3 * e
-    negative_self = Point( self.__curve, self.__x, -self.__y, self.__order )
+    negative_self = Point( self.__curve, self.__x, -self.__y % self.__curve.p(), self.__order )
     i = leftmost_bit( e3 ) // 2
     result = self
     # print "Multiplying %s by %d (e3 = %d):" % ( self, other, e3 )
-- 
2.43.0


From a582131a824df483605664360df8b905717b0582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 41/57] fix: serialized public keys of the wrong length are
 refused

---
 bitforge/utils/encoding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index f8508d1..b5307da 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -234,6 +234,8 @@ def sec_to_public_pair(sec):
     x = from_bytes_32(sec[1:33])
     sec0 = sec[:1]
     if sec0 == b'\4':
+        if len(sec) != 65:
+            raise EncodingError("bad sec length for uncompressed public key")
         y = from_bytes_32(sec[33:65])
         from .ecdsa import is_public_pair_valid
         from .secp256k1 import generator_secp256k1
@@ -243,6 +245,8 @@ def sec_to_public_pair(sec):
             raise EncodingError("invalid (x, y) pair")
         return public_pair
     if sec0 in (b'\2', b'\3'):
+        if len(sec) != 33:
+            raise EncodingError("bad sec length for compressed public key")
         from .ecdsa import public_pair_for_x
         from .secp256k1 import generator_secp256k1
         return public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
-- 
2.43.0


From 3af87dc5cf3ba05262468ff09e9912f38ced3d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 42/57] fix: public key coordinates outside of the field are
 refused

---
 bitforge/utils/ecdsa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index e0b8a55..2dcdb40 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -122,7 +122,9 @@ def public_pair_for_x(generator, x, is_even):
     return (x, beta)
 
 def is_public_pair_valid(generator, public_pair):
-    return generator.curve().contains_point(public_pair[0], public_pair[1])
+    curve = generator.curve()
+    x, y = public_pair
+    return 0 <= x < curve.p() and 0 <= y < curve.p() and curve.contains_point(x, y)
 
 def verify(generator, public_pair, val, signature):
     """
-- 
2.43.0


From 89c588f8d22894bf40404d7f3eef725afaf6f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 43/57] fix: a PublicKey does not share the list of coordinates
 it was built from

---
 bitforge/pubkey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/pubkey.py b/bitforge/pubkey.py
index 3b8f818..1c5c265 100644
--- a/bitforge/pubkey.py
+++ b/bitforge/pubkey.py
@@ -43,7 +43,7 @@ class PublicKey(BasePublicKey):
         if not utils.ecdsa.is_public_pair_valid(generator_secp256k1, pair):
             raise PublicKey.InvalidPair(pair)
 
-        return super(PublicKey, cls).__new__(cls, pair, network, compressed)
+        return super(PublicKey, cls).__new__(cls, tuple(pair), network, compressed)
 
     @staticmethod
     def from_private_key(privkey):
-- 
2.43.0


From 9296820d5fd508411c49deaac6d89e06cf01c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 44/57] fix: Unit rounds to the nearest satoshi instead of
 losing one

---
 bitforge/unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/unit.py b/bitforge/unit.py
index a45a58a..f512ee4 100644
--- a/bitforge/unit.py
+++ b/bitforge/unit.py
@@ -16,11 +16,11 @@ class Unit(object):
         if satoshis is not None:
             self._set_values(satoshis)
         elif bits is not None:
-            self._set_values(bits * Unit.bits)
+            self._set_values(round(bits * Unit.bits))
         elif mbtc is not None:
-            self._set_values(mbtc * Unit.mbtc)
+            self._set_values(round(mbtc * Unit.mbtc))
         elif btc is not None:
-            self._set_values(btc * Unit.btc)
+            self._set_values(round(btc * Unit.btc))
         else:
             raise ValueError('Invalid arguments')
 
-- 
2.43.0


From 8dace8d44d132ba990c06864cf6e54dee6f3180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 45/57] fix: URI.is_valid answers for infinite amounts

---
 bitforge/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 9617925..e98bcd0 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -18,7 +18,7 @@ class URI(object):
         try:
             URI(uri)
             return True
-        except (ValueError, BitforgeError):
+        except (ValueError, OverflowError, BitforgeError):
             return False
 
     @staticmethod
-- 
2.43.0


From 02f1fd65d8446b1c7c28b83c6bb178a174a5c632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 46/57] fix: only bitcoin: URIs are accepted

---
 bitforge/uri.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index e98bcd0..68321bb 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -24,6 +24,10 @@ class URI(object):
     @staticmethod
     def parse(uri):
         parsed = urlparse(uri)
+
+        if parsed.scheme != 'bitcoin':
+            raise ValueError('Invalid URI scheme')
+
         data = dict(parse_qsl(parsed.query))
         data['address'] = parsed.path or parsed.netloc
         return data
-- 
2.43.0


From 1965b2c4eb49ead10e218e65af5f0217a11978a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 47/57] fix: empty URI parameters are not lost

---
 bitforge/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 68321bb..e36b746 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -28,7 +28,7 @@ class URI(object):
         if parsed.scheme != 'bitcoin':
             raise ValueError('Invalid URI scheme')
 
-        data = dict(parse_qsl(parsed.query))
+        data = dict(parse_qsl(parsed.query, keep_blank_values = True))
         data['address'] = parsed.path or parsed.netloc
         return data
 
-- 
2.43.0


From 9938545df944519feb2b4aaa3b432218d2d37759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 48/57] fix: URI amounts are written in plain decimal notation

---
 bitforge/uri.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index e36b746..6355321 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -11,6 +11,14 @@ from bitforge.errors import BitforgeError
 from bitforge.compat import string_types
 
 
+def format_btc(satoshis):
+    # Plain decimal notation, as float would use an exponent for small amounts
+    sign = '-' if satoshis < 0 else ''
+    text = '%09d' % abs(satoshis)
+
+    return sign + text[:-8] + '.' + (text[-8:].rstrip('0') or '0')
+
+
 class URI(object):
 
     @staticmethod
@@ -58,7 +66,7 @@ class URI(object):
     def to_uri(self):
         query = self.extras.copy()
         if self.amount:
-            query['amount'] = self.amount.btc
+            query['amount'] = format_btc(self.amount.satoshis)
         for key in ['message', 'label', 'r']:
             value = getattr(self, key, False)
             if value: query[key] = value
-- 
2.43.0


From 1f39ee21bb4c8ca15cbc7e83c76d41a6aeeb4b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:29 +0000
Subject: [PATCH 49/57] fix: script text with a very long decimal raised
 ValueError

---
 bitforge/script/script.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index b0f4ce5..8d8ab4e 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -89,8 +89,9 @@ class Script(BaseScript):
         tokens = (i for i in string.split(' ') if string != '')
 
         def is_decimal(token):
-            # str.isdigit() accepts more than int() does
-            return token != '' and all(c in '0123456789' for c in token)
+            # str.isdigit() accepts more than int() does, and int() refuses very
+            # long numbers (no push size has more than 10 digits anyway)
+            return 0 < len(token) <= 10 and all(c in '0123456789' for c in token)
 
         def get_opcode(token):
             try:
-- 
2.43.0


From c9b06e75fddc7aa70d709fa8464db5eafd6a0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:10 +0000
Subject: [PATCH 50/57] fix: sign with s at most half the order also when s is
 just above it

---
 bitforge/privkey.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 8319c05..790c096 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -17,6 +17,15 @@ def random_secret():
     return rng.randint(1, KEY_MAX - 1)
 
 
+def sigencode_low_s(r, s, order):
+    # ecdsa.util.sigencode_der_canonize() compares with order / 2, a float in
+    # Python 3, and so lets through an s just above half the order
+    if s > order // 2:
+        s = order - s
+
+    return ecdsa.util.sigencode_der(r, s, order)
+
+
 def find_network(value, attr = 'name'):
     try:
         return networks.find(value, attr)
@@ -129,7 +138,7 @@ class PrivateKey(BasePrivateKey):
 
     def sign(self, message):
         signing_key = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
-        return signing_key.sign_digest(message, sigencode = ecdsa.util.sigencode_der_canonize)
+        return signing_key.sign_digest(message, sigencode = sigencode_low_s)
 
     def verify(self, signature, message):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
-- 
2.43.0


From dc3ccb85969c75b4aa9660b79217ebee79b26238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:09 +0000
Subject: [PATCH 51/57] fix: doubling a point of order 2 gives infinity instead
 of failing

---
 bitforge/utils/ellipticcurve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitforge/utils/ellipticcurve.py b/bitforge/utils/ellipticcurve.py
index 2e4244d..04aa144 100644
--- a/bitforge/utils/ellipticcurve.py
+++ b/bitforge/utils/ellipticcurve.py
@@ -161,6 +161,10 @@ class Point( object ):
     if self == INFINITY:
       return INFINITY
 
+    # A point of order 2: the tangent is vertical
+    if self.__y % self.__curve.p() == 0:
+      return INFINITY
+
     # X9.62 B.3:
 
     p = self.__curve.p()
-- 
2.43.0


From b69767af62c12e4481ea5006c3c487b5734d58dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:37 +0000
Subject: [PATCH 52/57] fix: base58 text with a lone surrogate raised
 UnicodeEncodeError

---
 bitforge/utils/encoding.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index b5307da..aafc3bd 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -138,7 +138,12 @@ def b2a_base58(s):
 
 def a2b_base58(s):
     """Convert base58 to binary using BASE58_ALPHABET."""
-    v, prefix = to_long(BASE58_BASE, lambda c: BASE58_LOOKUP[c], s.encode("utf8"))
+    try:
+        s = s.encode("utf8")
+    except UnicodeEncodeError:
+        raise EncodingError("bad character in string %r" % s)
+
+    v, prefix = to_long(BASE58_BASE, lambda c: BASE58_LOOKUP[c], s)
     return from_long(v, prefix, 256, lambda x: x)
 
 
-- 
2.43.0


From 4681be281c8d6235f6f6c05fdff22c29ef03543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:48 +0000
Subject: [PATCH 53/57] fix: intbytes.from_bytes honours its byteorder argument
 on Python 3

---
 bitforge/utils/intbytes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/intbytes.py b/bitforge/utils/intbytes.py
index 5fb15e3..47a620f 100644
--- a/bitforge/utils/intbytes.py
+++ b/bitforge/utils/intbytes.py
@@ -36,7 +36,7 @@ bytes_from_ints = (lambda l: b''.join(chr(x) for x in l)) if bytes == str else b
 if hasattr(int, "to_bytes"):
     to_bytes = lambda v, length, byteorder="big": v.to_bytes(length, byteorder=byteorder)
     from_bytes = lambda bytes, byteorder="big", signed=False: int.from_bytes(
-        bytes, byteorder="big", signed=signed)
+        bytes, byteorder=byteorder, signed=signed)
     int_to_bytes = lambda v: v.to_bytes((v.bit_length()+7)//8, byteorder="big")
     int_from_bytes = lambda v: int.from_bytes(v, byteorder="big")
 else:
-- 
2.43.0


From cda23f7b26af6b928dd6c96d28d454b2c6df6c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:48 +0000
Subject: [PATCH 54/57] fix: WIF helpers refuse payloads of the wrong length or
 with a bad compression byte

---
 bitforge/utils/encoding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index aafc3bd..c1cf28c 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -185,7 +185,11 @@ def wif_to_tuple_of_prefix_secret_exponent_compressed(wif):
     """
     decoded = a2b_hashed_base58(wif)
     actual_prefix, private_key = decoded[:1], decoded[1:]
+    if len(private_key) not in (32, 33):
+        raise EncodingError("bad length for WIF %s" % wif)
     compressed = len(private_key) > 32
+    if compressed and private_key[32:] != b'\x01':
+        raise EncodingError("bad compression byte for WIF %s" % wif)
     return actual_prefix, from_bytes_32(private_key[:32]), compressed
 
 
-- 
2.43.0


From 55117c61b20bc6f8188ddf2de9ed4a65ba75c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:12 +0000
Subject: [PATCH 55/57] fix: sec_to_public_pair refuses compressed keys that
 are not on the curve

---
 bitforge/utils/encoding.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index c1cf28c..0c0a20b 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -256,9 +256,13 @@ def sec_to_public_pair(sec):
     if sec0 in (b'\2', b'\3'):
         if len(sec) != 33:
             raise EncodingError("bad sec length for compressed public key")
-        from .ecdsa import public_pair_for_x
+        from .ecdsa import is_public_pair_valid, public_pair_for_x
         from .secp256k1 import generator_secp256k1
-        return public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
+        public_pair = public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
+        # verify this is on the curve
+        if not is_public_pair_valid(generator_secp256k1, public_pair):
+            raise EncodingError("invalid x coordinate")
+        return public_pair
     raise EncodingError("bad sec encoding for public key")
 
 
-- 
2.43.0


From 83d7e207ee9d465c0a6e195d8e5e9fc5eeed5e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:11 +0000
Subject: [PATCH 56/57] fix: Transaction, Input and Output refuse bytes after
 the end of what they read

from_bytes() and from_hex() read the beginning of the data and silently
ignored whatever followed it.
---
 bitforge/tools.py                   | 7 +++++++
 bitforge/transaction/input.py       | 6 +++++-
 bitforge/transaction/output.py      | 6 +++++-
 bitforge/transaction/transaction.py | 1 +
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/bitforge/tools.py b/bitforge/tools.py
index c99038e..2fe2333 100644
--- a/bitforge/tools.py
+++ b/bitforge/tools.py
@@ -16,6 +16,9 @@ class Buffer(bytearray):
             self.remaining = remaining
             self.requested = requested
 
+    class TrailingData(Error, NumberError):
+        "Expected the end of the buffer, but {number} bytes remain"
+
     def read(self, amount):
         if len(self) < amount:
             raise Buffer.InsufficientData(len(self), amount)
@@ -39,6 +42,10 @@ class Buffer(bytearray):
         elif order == 255:
             return decode_int(self.read(8), big_endian = False)
 
+    def expect_end(self):
+        if len(self) > 0:
+            raise Buffer.TrailingData(len(self))
+
     def write(self, data):
         self.extend(data)
 
diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index df3f170..8721a86 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -108,7 +108,11 @@ class Input(BaseInput):
 
     @classmethod
     def from_bytes(cls, bytes):
-        return cls.from_buffer(Buffer(bytes))
+        buffer = Buffer(bytes)
+        input = cls.from_buffer(buffer)
+        buffer.expect_end()
+
+        return input
 
     @classmethod
     def from_buffer(cls, buffer):
diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 45d9aef..63a7822 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -61,7 +61,11 @@ class Output(BaseOutput):
 
     @staticmethod
     def from_bytes(bytes):
-        return Output.from_buffer(Buffer(bytes))
+        buffer = Buffer(bytes)
+        output = Output.from_buffer(buffer)
+        buffer.expect_end()
+
+        return output
 
     @staticmethod
     def from_buffer(buffer):
diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 91540fa..5931901 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -153,6 +153,7 @@ class Transaction(BaseTransaction):
         outputs  = [ Output.from_buffer(buffer) for i in range(noutputs) ]
 
         lock_time = decode_int(buffer.read(4), big_endian = False)
+        buffer.expect_end()
 
         return Transaction(inputs, outputs, lock_time, version)
 
-- 
2.43.0


From cea1c59fb04d9ff298f789e66e7c25b126d39af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:21 +0000
Subject: [PATCH 57/57] fix: extended keys can be copied and pickled

Their constructors do not take the fingerprint, so copy.copy(),
copy.deepcopy() and pickle failed with a TypeError.
---
 bitforge/hdprivkey.py | 4 ++++
 bitforge/hdpubkey.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 351a544..f3de479 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -32,6 +32,10 @@ class HDPrivateKey(BaseHDPrivateKey):
 
         return super(HDPrivateKey, cls).__new__(cls, privkey, chain, depth, index, parent, network, fingerprint)
 
+    def __getnewargs__(self):
+        # Used by copy and pickle: the constructor calculates the fingerprint
+        return tuple(self)[:-1]
+
     @staticmethod
     def from_seed(seed = None):
         if seed is None:
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index aafc896..b73b209 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -24,6 +24,10 @@ class HDPublicKey(BaseHDPublicKey):
 
         return super(HDPublicKey, cls).__new__(cls, pubkey, chain, depth, index, parent, network, fingerprint)
 
+    def __getnewargs__(self):
+        # Used by copy and pickle: the constructor calculates the fingerprint
+        return tuple(self)[:-1]
+
     # TODO: massage this
     @staticmethod
     def from_string(b58_str):
-- 
2.43.0

