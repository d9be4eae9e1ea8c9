From f65a1afdde65a542fb2f63bed5b9a22f904f8bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 01/43] fix: VarInt with an explicit length uses the prefix for
 that length

---
 riemann/tx/shared.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index f478326..b887d13 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -172,17 +172,15 @@ class VarInt(ByteData):
             raise ValueError('VarInt cannot be greater than (2 ** 64) - 1. '
                              'Got: {}'
                              .format(number))
-        if number <= 0xfc:
-            pass  # No prefix
-        elif number <= 0xffff or length == 3:
-            self += bytes([0xfd])
-            length = 3
-        elif number <= 0xffffffff or length == 5:
-            self += bytes([0xfe])
-            length = 5
-        elif number <= 0xffffffffffffffff or length == 9:
+        if number > 0xffffffff or length == 9:
             self += bytes([0xff])
             length = 9
+        elif number > 0xffff or length == 5:
+            self += bytes([0xfe])
+            length = 5
+        elif number > 0xfc or length == 3:
+            self += bytes([0xfd])
+            length = 3
         self += utils.i2le(number)
 
         if length is not None:
@@ -194,7 +192,7 @@ class VarInt(ByteData):
         self._make_immutable()
 
     def copy(self) -> 'VarInt':
-        return VarInt(self.number)
+        return VarInt(self.number, length=len(self))
 
     @classmethod
     def from_bytes(VarInt, byte_string: bytes) -> 'VarInt':
-- 
2.43.0


From 3e8fff5ae42c5369635229f82d3f90f4c10f1619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 02/43] fix: refuse truncated and non-compact VarInts when
 parsing

---
 riemann/tx/decred.py | 15 +++++++--------
 riemann/tx/shared.py | 38 +++++++++++++++-----------------------
 riemann/tx/tx.py     | 13 ++++++-------
 3 files changed, 28 insertions(+), 38 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 5084d15..1be531c 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -125,17 +125,16 @@ class DecredTxOut(DecredByteData):
 
     @classmethod
     def from_bytes(DecredTxOut, byte_string: bytes) -> 'DecredTxOut':
+        if byte_string[10] >= 0xfc:
+            raise NotImplementedError(
+                'No support for abnormally long pk_scripts.')
         n = shared.VarInt.from_bytes(byte_string[10:])
         script_start = 10 + len(n)
         script_end = script_start + n.number
-        if n.number < 0xfc:
-            return DecredTxOut(
-                value=byte_string[:8],
-                version=byte_string[8:10],
-                output_script=byte_string[script_start:script_end])
-        else:
-            raise NotImplementedError(
-                'No support for abnormally long pk_scripts.')
+        return DecredTxOut(
+            value=byte_string[:8],
+            version=byte_string[8:10],
+            output_script=byte_string[script_start:script_end])
 
 
 class DecredInputWitness(DecredByteData):
diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index b887d13..124e1ee 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -1,4 +1,3 @@
-import riemann
 from riemann import utils
 
 from typing import Any, Optional, Union
@@ -200,31 +199,24 @@ class VarInt(ByteData):
         byte-like -> VarInt
         accepts arbitrary length input, gets a VarInt off the front
         '''
-        num = byte_string
-        if num[0] <= 0xfc:
-            num = num[0:1]
-            non_compact = False
-        elif num[0] == 0xfd:
-            num = num[1:3]
-            non_compact = (num[-1:] == b'\x00')
-        elif num[0] == 0xfe:
-            num = num[1:5]
-            non_compact = (num[-2:] == b'\x00\x00')
-        elif num[0] == 0xff:
-            num = num[1:9]
-            non_compact = (num[-4:] == b'\x00\x00\x00\x00')
-        if len(num) not in [1, 2, 4, 8]:
+        first = byte_string[0]
+        if first <= 0xfc:
+            return VarInt(first)
+
+        # payload length and smallest number that needs this prefix
+        payload_len, minimum = {
+            0xfd: (2, 0xfd),
+            0xfe: (4, 0x10000),
+            0xff: (8, 0x100000000)}[first]
+
+        payload = byte_string[1:1 + payload_len]
+        if len(payload) != payload_len:
             raise ValueError('Malformed VarInt. Got: {}'
                              .format(byte_string.hex()))
 
-        if (non_compact
-            and ('overwinter' in riemann.get_current_network_name()
-                 or 'sapling' in riemann.get_current_network_name())):
+        number = utils.le2i(payload)
+        if number < minimum:
             raise ValueError('VarInt must be compact. Got: {}'
                              .format(byte_string.hex()))
 
-        ret = VarInt(
-            utils.le2i(num),
-            length=len(num) + 1 if non_compact else 0)
-
-        return ret
+        return VarInt(number)
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index a58b8a6..719eb04 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -273,16 +273,15 @@ class TxOut(ByteData):
         '''
         Parse a TxOut from a bytestring. Also available as from_hex
         '''
+        if byte_string[8] >= 0xfc:
+            raise NotImplementedError(
+                'No support for abnormally long pk_scripts.')
         n = VarInt.from_bytes(byte_string[8:])
         script_start = 8 + len(n)
         script_end = script_start + n.number
-        if n.number < 0xfc:
-            return TxOut(
-                value=byte_string[:8],
-                output_script=byte_string[script_start:script_end])
-        else:
-            raise NotImplementedError(
-                'No support for abnormally long pk_scripts.')
+        return TxOut(
+            value=byte_string[:8],
+            output_script=byte_string[script_start:script_end])
 
 
 class WitnessStackItem(ByteData):
-- 
2.43.0


From e5562f3ba77d4890360bd06da354dd3896359baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 03/43] fix: refuse truncated outputs and witness items instead
 of shortening them

---
 riemann/tx/decred.py | 2 ++
 riemann/tx/tx.py     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 1be531c..66b4685 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -131,6 +131,8 @@ class DecredTxOut(DecredByteData):
         n = shared.VarInt.from_bytes(byte_string[10:])
         script_start = 10 + len(n)
         script_end = script_start + n.number
+        if script_end > len(byte_string):
+            raise ValueError('Output is shorter than its declared length.')
         return DecredTxOut(
             value=byte_string[:8],
             version=byte_string[8:10],
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 719eb04..8dbf8d6 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -279,6 +279,8 @@ class TxOut(ByteData):
         n = VarInt.from_bytes(byte_string[8:])
         script_start = 8 + len(n)
         script_end = script_start + n.number
+        if script_end > len(byte_string):
+            raise ValueError('Output is shorter than its declared length.')
         return TxOut(
             value=byte_string[:8],
             output_script=byte_string[script_start:script_end])
@@ -316,6 +318,8 @@ class WitnessStackItem(ByteData):
         n = VarInt.from_bytes(byte_string)
         item_start = len(n)
         item_end = item_start + n.number
+        if item_end > len(byte_string):
+            raise ValueError('Witness item is shorter than declared length.')
         return WitnessStackItem(byte_string[item_start:item_end])
 
 
-- 
2.43.0


From d8d9967c55a14b601ac973abbfabc842488812e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 04/43] fix: parsing a TxIn never loses bytes of its script_sig

---
 riemann/tx/tx.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 8dbf8d6..4807582 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -169,8 +169,6 @@ class TxIn(ByteData):
         byte_string -> (byte_string, byte_string)
         '''
         # Is there a better way to do this?
-        stack_script = script_sig
-        redeem_script = b''
         try:
             # If the last entry deserializes, it's a p2sh input
             # There is a vanishingly small edge case where the pubkey
@@ -179,10 +177,13 @@ class TxIn(ByteData):
             deserialized = serialization.deserialize(script_sig)
             items = deserialized.split()
             serialization.hex_deserialize(items[-1])
-            stack_script = serialization.serialize(' '.join(items[:-1]))
-            redeem_script = serialization.serialize(items[-1])
+            stack_script = bytes(serialization.serialize(' '.join(items[:-1])))
+            redeem_script = bytes(serialization.serialize(items[-1]))
         except (IndexError, ValueError, NotImplementedError):
-            pass
+            return script_sig, b''
+        # Non-minimal or empty pushes do not survive the text form
+        if stack_script + redeem_script != script_sig:
+            return script_sig, b''
         return stack_script, redeem_script
 
     @classmethod
-- 
2.43.0


From 75535ceb8b26d5c8887b3a528fe49b9c64763115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 05/43] fix: Overwinter and Sapling parsing advances past the
 joinsplit count

---
 riemann/tx/overwinter.py | 2 +-
 riemann/tx/sapling.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 3e39d94..9c01225 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -244,7 +244,7 @@ class OverwinterTx(z.ZcashByteData):
         else:
             tx_joinsplits = []
             tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-            current += len(tx_outs_num)
+            current += len(tx_joinsplits_num)
             for _ in range(tx_joinsplits_num.number):
                 tx_joinsplit = z.SproutJoinsplit.from_bytes(
                     byte_string[current:])
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index c606300..dfcf1bb 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -561,7 +561,7 @@ class SaplingTx(z.ZcashByteData):
 
         tx_joinsplits = []
         tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-        current += len(tx_outs_num)
+        current += len(tx_joinsplits_num)
         for _ in range(tx_joinsplits_num.number):
             tx_joinsplit = SaplingJoinsplit.from_bytes(
                 byte_string[current:])
-- 
2.43.0


From ba29fd03833b4dfeea5e5c496d135aa81ced45b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 06/43] fix: Overwinter parsing refuses a missing joinsplit
 count

---
 riemann/tx/overwinter.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 9c01225..194c3af 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -235,25 +235,24 @@ class OverwinterTx(z.ZcashByteData):
         expiry_height = byte_string[current:current + 4]
         current += 4
 
-        tx_joinsplits: Sequence[z.SproutJoinsplit]
-        if current == len(byte_string):
-            # No joinsplits
-            tx_joinsplits = tuple()
-            joinsplit_pubkey = None
-            joinsplit_sig = None
-        else:
-            tx_joinsplits = []
-            tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-            current += len(tx_joinsplits_num)
-            for _ in range(tx_joinsplits_num.number):
-                tx_joinsplit = z.SproutJoinsplit.from_bytes(
-                    byte_string[current:])
-                current += len(tx_joinsplit)
-                tx_joinsplits.append(tx_joinsplit)
-
+        tx_joinsplits = []
+        tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
+        current += len(tx_joinsplits_num)
+        for _ in range(tx_joinsplits_num.number):
+            tx_joinsplit = z.SproutJoinsplit.from_bytes(
+                byte_string[current:])
+            current += len(tx_joinsplit)
+            tx_joinsplits.append(tx_joinsplit)
+
+        joinsplit_pubkey: Optional[bytes]
+        joinsplit_sig: Optional[bytes]
+        if len(tx_joinsplits) > 0:
             joinsplit_pubkey = byte_string[current:current + 32]
             current += 32
             joinsplit_sig = byte_string[current:current + 64]
+        else:
+            joinsplit_pubkey = None
+            joinsplit_sig = None
 
         return OverwinterTx(
             tx_ins=tx_ins,
-- 
2.43.0


From d511b83b88459086d7c38bfd412112dc2182463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 07/43] fix: Overwinter and Sapling sighash_all/sighash_single
 honour anyone_can_pay

---
 riemann/tx/overwinter.py | 10 ++++++++--
 riemann/tx/sapling.py    |  8 ++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 194c3af..e3e6a5d 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -267,10 +267,16 @@ class OverwinterTx(z.ZcashByteData):
         return False
 
     def sighash_all(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_ALL, **kwargs)
+        return self.sighash(sighash_type=shared.SIGHASH_ALL,
+                            anyone_can_pay=anyone_can_pay,
+                            **kwargs)
 
     def sighash_single(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_SINGLE, **kwargs)
+        # NB: existing callers pass the sighash type as the first argument,
+        #     only an actual True asks for ANYONECANPAY
+        return self.sighash(sighash_type=shared.SIGHASH_SINGLE,
+                            anyone_can_pay=anyone_can_pay is True,
+                            **kwargs)
 
     def sighash(self,
                 sighash_type: int,
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index dfcf1bb..6af0da7 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -603,10 +603,14 @@ class SaplingTx(z.ZcashByteData):
         return False
 
     def sighash_all(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_ALL, **kwargs)
+        return self.sighash(sighash_type=shared.SIGHASH_ALL,
+                            anyone_can_pay=anyone_can_pay,
+                            **kwargs)
 
     def sighash_single(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_SINGLE, **kwargs)
+        return self.sighash(sighash_type=shared.SIGHASH_SINGLE,
+                            anyone_can_pay=anyone_can_pay,
+                            **kwargs)
 
     def sighash(self,
                 sighash_type: int,
-- 
2.43.0


From 6dd73054eeb95c3db65d577f86cdc49949a2c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 08/43] fix: ZIP143/ZIP243 digests with SIGHASH_NONE do not
 commit to sequences

---
 riemann/tx/overwinter.py | 3 ++-
 riemann/tx/sapling.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index e3e6a5d..9baeb21 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -334,7 +334,8 @@ class OverwinterTx(z.ZcashByteData):
             person=b'ZcashPrevoutHash')
 
     def _hash_sequence(self, sighash_type: int, anyone_can_pay: bool) -> bytes:
-        if anyone_can_pay or sighash_type == shared.SIGHASH_SINGLE:
+        if (anyone_can_pay or sighash_type in
+                [shared.SIGHASH_SINGLE, shared.SIGHASH_NONE]):
             return b'\x00' * 32
 
         data = z.ZcashByteData()
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 6af0da7..4d479f4 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -671,7 +671,8 @@ class SaplingTx(z.ZcashByteData):
             person=b'ZcashPrevoutHash')
 
     def _hash_sequence(self, sighash_type: int, anyone_can_pay: bool) -> bytes:
-        if anyone_can_pay or sighash_type == shared.SIGHASH_SINGLE:
+        if (anyone_can_pay or sighash_type in
+                [shared.SIGHASH_SINGLE, shared.SIGHASH_NONE]):
             return b'\x00' * 32
 
         data = z.ZcashByteData()
-- 
2.43.0


From 4469b57e9f3982193306a3a23bbba464295a8f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 09/43] fix: version 1 SproutTx can be parsed and built without
 joinsplits

---
 riemann/tx/sprout.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 117ac25..0c91d19 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -96,7 +96,9 @@ class SproutTx(z.ZcashByteData):
         self.version = version
         self.tx_ins = tuple(tx_in for tx_in in tx_ins)
         self.tx_outs = tuple(tx_out for tx_out in tx_outs)
-        self.tx_joinsplits = tuple(js for js in tx_joinsplits)
+        self.tx_joinsplits = \
+            tuple(js for js in tx_joinsplits) if tx_joinsplits is not None \
+            else tuple()
         self.lock_time = lock_time
 
         if version == utils.i2le_padded(2, 4):
@@ -180,11 +182,10 @@ class SproutTx(z.ZcashByteData):
         lock_time = byte_string[current:current + 4]
         current += 4
 
-        tx_joinsplits = None
+        tx_joinsplits = []
         joinsplit_pubkey = None
         joinsplit_sig = None
         if utils.le2i(version) == 2:  # If we expect joinsplits
-            tx_joinsplits = []
             tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
             current += len(tx_joinsplits_num)
 
-- 
2.43.0


From 875fc5e0efdc9cc356cb68a454ead4254b4d03de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 10/43] fix: SproutTx without joinsplits has no joinsplit
 pubkey and signature

---
 riemann/tx/sprout.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 0c91d19..0642cba 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -69,9 +69,10 @@ class SproutTx(z.ZcashByteData):
                         'Invalid Joinsplit. '
                         'Expected instance of SproutJoinsplit. Got {}'
                         .format(type(tx_joinsplit).__name__))
-            self.validate_bytes(joinsplit_pubkey, 32)
-            if joinsplit_sig is not None and joinsplit_sig != b'':
-                self.validate_bytes(joinsplit_sig, 64)
+            if len(tx_joinsplits) != 0:
+                self.validate_bytes(joinsplit_pubkey, 32)
+                if joinsplit_sig is not None and joinsplit_sig != b'':
+                    self.validate_bytes(joinsplit_sig, 64)
 
         if utils.le2i(version) not in [1, 2]:
             raise ValueError('Version must be 1 or 2. '
@@ -90,8 +91,9 @@ class SproutTx(z.ZcashByteData):
             self += shared.VarInt(len(tx_joinsplits))
             for tx_joinsplit in tx_joinsplits:
                 self += tx_joinsplit
-            self += cast(bytes, joinsplit_pubkey)
-            self += cast(bytes, joinsplit_sig)
+            if len(tx_joinsplits) != 0:
+                self += cast(bytes, joinsplit_pubkey)
+                self += cast(bytes, joinsplit_sig)
 
         self.version = version
         self.tx_ins = tuple(tx_in for tx_in in tx_ins)
@@ -101,7 +103,7 @@ class SproutTx(z.ZcashByteData):
             else tuple()
         self.lock_time = lock_time
 
-        if version == utils.i2le_padded(2, 4):
+        if len(self.tx_joinsplits) != 0:
             self.joinsplit_pubkey = joinsplit_pubkey
             self.joinsplit_sig = joinsplit_sig
             # Zcash spec 5.4.1.4 Hsig hash function
@@ -193,9 +195,10 @@ class SproutTx(z.ZcashByteData):
                 joinsplit = z.SproutJoinsplit.from_bytes(byte_string[current:])
                 current += len(joinsplit)
                 tx_joinsplits.append(joinsplit)
-            joinsplit_pubkey = byte_string[current:current + 32]
-            current += 32
-            joinsplit_sig = byte_string[current:current + 64]
+            if len(tx_joinsplits) != 0:
+                joinsplit_pubkey = byte_string[current:current + 32]
+                current += 32
+                joinsplit_sig = byte_string[current:current + 64]
 
         return SproutTx(
             version=version,
-- 
2.43.0


From 0f76d134479464b90035e77f93f05402cda2b06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 11/43] fix: SproutTx SIGHASH_SINGLE and ANYONECANPAY work
 without joinsplits

---
 riemann/tx/sprout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 0642cba..ce4c9c9 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -301,7 +301,7 @@ class SproutTx(z.ZcashByteData):
         https://github.com/petertodd/python-bitcoinlib/blob/051ec4e28c1f6404fd46713c2810d4ebbed38de4/bitcoin/core/script.py#L913-L965
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError('Sighash single not permitted with joinsplits.')
 
         if index >= len(self.tx_outs):
@@ -345,7 +345,7 @@ class SproutTx(z.ZcashByteData):
         https://en.bitcoin.it/wiki/OP_CHECKSIG#Procedure_for_Hashtype_SIGHASH_ANYONECANPAY
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError(
                 'Sighash anyonecanpay not permitted with joinsplits.')
 
-- 
2.43.0


From 58502426a66839f198ee23b5b26d85bfdb9fce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 12/43] fix: SproutTx sighash commits to a zeroed
 joinsplit_sig, as zcashd does

---
 riemann/tx/sprout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index ce4c9c9..d3e295b 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -257,7 +257,7 @@ class SproutTx(z.ZcashByteData):
         '''
 
         if len(self.tx_ins) == 0:
-            return self.copy(joinsplit_sig=b'')
+            return self.copy(joinsplit_sig=b'\x00' * 64)
         # 0 out scripts in tx_ins
         copy_tx_ins = [tx_in.copy(stack_script=b'', redeem_script=b'')
                        for tx_in in self.tx_ins]
@@ -268,7 +268,9 @@ class SproutTx(z.ZcashByteData):
         copy_tx_ins[index] = \
             copy_tx_ins[index].copy(redeem_script=script[len(to_strip):])
 
-        return self.copy(tx_ins=copy_tx_ins, joinsplit_sig=b'')
+        return self.copy(
+            tx_ins=copy_tx_ins,
+            joinsplit_sig=b'\x00' * 64)
 
     def sighash_all(self,
                     index: int,
-- 
2.43.0


From 02429fff372d96cc4b5d6d743a8fe7cf9322d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 13/43] fix: SIGHASH_SINGLE keeps exactly index + 1 outputs

---
 riemann/tx/decred.py | 2 +-
 riemann/tx/sprout.py | 2 +-
 riemann/tx/tx.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 66b4685..3066e49 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -371,7 +371,7 @@ class DecredTx(DecredByteData):
                             value=b'\xff' * 8,
                             version=b'\x00\x00',
                             output_script=b'')
-                            for _ in copy_tx.tx_ins]
+                            for _ in copy_tx_outs]
             copy_tx_outs[index] = copy_tx.tx_outs[index]
         except IndexError:
             raise NotImplementedError(
diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index d3e295b..f2a5ebf 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -316,7 +316,7 @@ class SproutTx(z.ZcashByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = copy_tx.tx_outs[:index + 1]
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 4807582..a54dba5 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -928,7 +928,7 @@ class Tx(ByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = list(copy_tx.tx_outs[:index + 1])
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
-- 
2.43.0


From d200755d7f06e6acdd46da5b7e988c9773a27981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 14/43] fix: Decred ANYONECANPAY sighash commits to the signed
 input only

---
 riemann/tx/decred.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 3066e49..af4efd2 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -418,11 +418,10 @@ class DecredTx(DecredByteData):
                                 index: int,
                                 copy_tx: 'DecredTx',
                                 sighash_type: int) -> bytes:
-        copy_tx_witnesses = [
-            w.copy(stack_script=b'', redeem_script=b'')
-            for w in copy_tx.tx_witnesses]
-        copy_tx_witnesses[index] = copy_tx.tx_witnesses[index]
-        copy_tx = copy_tx.copy(tx_witnesses=copy_tx_witnesses)
+        # The input and witness vectors are resized to a length of one.
+        copy_tx = copy_tx.copy(
+            tx_ins=[copy_tx.tx_ins[index]],
+            tx_witnesses=[copy_tx.tx_witnesses[index]])
 
         return self._sighash_final_hashing(
             index=index,
-- 
2.43.0


From 259224f7ee0d980a5300aa0361215636911f145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 15/43] fix: Tx.is_witness is False for parsed transactions
 without the witness flag

---
 riemann/tx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index a54dba5..89ceb51 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -629,7 +629,7 @@ class Tx(ByteData):
 
     def is_witness(self) -> bool:
         '''Return True if the transaction witness flag is set'''
-        return self.flag is not None or self.tx_witnesses is not None
+        return self.flag is not None
 
     def calculate_fee(self, input_values: Sequence[int]) -> int:
         '''
-- 
2.43.0


From 8663687beae7c13e99e2c45e4198fc376f4b44b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 16/43] fix: legacy Tx has the documented wtx_id_le attribute

---
 riemann/tx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 89ceb51..1a593d4 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -544,7 +544,7 @@ class Tx(ByteData):
             self.tx_id_le = utils.hash256(self.to_bytes())
             self.tx_id = utils.change_endianness(self.tx_id_le)
             self.wtx_id = None
-            self.wtx_le = None
+            self.wtx_id_le = None
 
         self._make_immutable()
 
-- 
2.43.0


From d183e84cebdea6c37d8df9bb5263a651ee47bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 17/43] fix: make_tx on Decred takes the documented array of
 witnesses

---
 riemann/tx/tx_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 77b34b6..96469d1 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -577,7 +577,7 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry=utils.i2le_padded(expiry, 4),
-            tx_witnesses=[tx_witnesses])
+            tx_witnesses=tx_witnesses if tx_witnesses is not None else [])
     if 'sprout' in n and tx_joinsplits is not None:
         return sprout.SproutTx(
             version=version,
-- 
2.43.0


From 0bf4e7e605a445ede43edd0c5f3f061ecacab6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 18/43] fix: make_tx on Zcash Sprout encodes the version and
 always makes a SproutTx

---
 riemann/tx/tx_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 96469d1..5432f5f 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -578,9 +578,9 @@ def make_tx(  # noqa: F811
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry=utils.i2le_padded(expiry, 4),
             tx_witnesses=tx_witnesses if tx_witnesses is not None else [])
-    if 'sprout' in n and tx_joinsplits is not None:
+    if 'sprout' in n:
         return sprout.SproutTx(
-            version=version,
+            version=utils.i2le_padded(version, 4),
             tx_ins=tx_ins,
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
-- 
2.43.0


From b79d5599987264e172be1c4048d1cb9ff09ee42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 19/43] fix: make_tx on Zcash Sapling treats absent shielded
 parts as empty

---
 riemann/tx/tx_builder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 5432f5f..e93d923 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -603,9 +603,11 @@ def make_tx(  # noqa: F811
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry_height=utils.i2le_padded(expiry, 4),
             value_balance=utils.i2le_padded(value_balance, 8),
-            tx_shielded_spends=tx_shielded_spends,
-            tx_shielded_outputs=tx_shielded_outputs,
-            tx_joinsplits=tx_joinsplits,
+            tx_shielded_spends=(tx_shielded_spends
+                                if tx_shielded_spends is not None else []),
+            tx_shielded_outputs=(tx_shielded_outputs
+                                 if tx_shielded_outputs is not None else []),
+            tx_joinsplits=tx_joinsplits if tx_joinsplits is not None else [],
             joinsplit_pubkey=joinsplit_pubkey,
             joinsplit_sig=joinsplit_sig,
             binding_sig=binding_sig)
-- 
2.43.0


From c93f4b847207fb1e2176584773ad6b67ac9d513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 20/43] fix: make_tx on Zcash Sapling accepts a negative
 value_balance

---
 riemann/tx/tx_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index e93d923..104e18f 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -602,7 +602,8 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry_height=utils.i2le_padded(expiry, 4),
-            value_balance=utils.i2le_padded(value_balance, 8),
+            # NB: negative when value moves into the shielded pool
+            value_balance=value_balance.to_bytes(8, 'little', signed=True),
             tx_shielded_spends=(tx_shielded_spends
                                 if tx_shielded_spends is not None else []),
             tx_shielded_outputs=(tx_shielded_outputs
-- 
2.43.0


From 7cb955bbf01375e70ea83df1a022b6dc48c0a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 21/43] fix: Decred outputs made by the builders default to
 script version 0

---
 riemann/tx/tx_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 104e18f..146fc13 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -3,7 +3,7 @@ from riemann import utils
 from riemann.script import serialization
 from riemann.tx import tx, decred, overwinter, sapling, sprout, zcash_shared
 
-from typing import cast, List, Optional, overload
+from typing import List, Optional, overload
 
 
 def make_sh_script_pubkey(script_bytes: bytes, witness: bool = False) -> bytes:
@@ -168,7 +168,7 @@ def _make_output(  # noqa: F811
     if 'decred' in riemann.get_current_network_name():
         return decred.DecredTxOut(
             value=value,
-            version=cast(int, version),
+            version=version if version is not None else b'\x00\x00',
             output_script=output_script)
     return tx.TxOut(value=value, output_script=output_script)
 
-- 
2.43.0


From 201b8050688aa64bdbaf0bf6ad389129753a7260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 22/43] fix: from_output_script refuses scripts that only start
 like P2PKH or P2SH

---
 riemann/encoding/addresses.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 94783fb..7998b25 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -331,11 +331,15 @@ def from_output_script(output_script: bytes, cashaddr: bool = True) -> str:
     except TypeError:
         pass
 
-    if len(output_script) == 25 and output_script.find(b'\x76\xa9\x14') == 0:
+    if (len(output_script) == 25
+            and output_script.find(b'\x76\xa9\x14') == 0
+            and output_script[-2:] == b'\x88\xac'):
         return _make_pkh_address(
             output_script[3:23], witness=False, cashaddr=cashaddr)
 
-    elif len(output_script) == 23 and output_script.find(b'\xa9\x14') == 0:
+    elif (len(output_script) == 23
+            and output_script.find(b'\xa9\x14') == 0
+            and output_script[-1:] == b'\x87'):
         return _hash_to_sh_address(
             output_script[2:22], witness=False, cashaddr=cashaddr)
 
-- 
2.43.0


From 9213ab183281aa2fabd9faa5751e5387f0faa20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 23/43] fix: witness addresses are never encoded as P2SH/P2PKH
 cashaddrs

---
 riemann/encoding/addresses.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 7998b25..c338925 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -20,7 +20,8 @@ def _hash_to_sh_address(
         The encoded address
     '''
     addr_bytes = bytearray()
-    if riemann.network.CASHADDR_P2SH is not None and cashaddr:
+    if (riemann.network.CASHADDR_P2SH is not None
+            and cashaddr and not witness):
         addr_bytes.extend(riemann.network.CASHADDR_P2SH)
         addr_bytes.extend(script_hash)
         return riemann.network.CASHADDR_ENCODER.encode(addr_bytes)
@@ -142,7 +143,8 @@ def _make_pkh_address(
         The encoded address
     '''
     addr_bytes = bytearray()
-    if riemann.network.CASHADDR_P2PKH is not None and cashaddr:
+    if (riemann.network.CASHADDR_P2PKH is not None
+            and cashaddr and not witness):
         addr_bytes.extend(riemann.network.CASHADDR_P2PKH)
         addr_bytes.extend(pubkey_hash)
         return riemann.network.CASHADDR_ENCODER.encode(addr_bytes)
-- 
2.43.0


From 3373005081a8c7f2e8118c82b6b56b6d2f981ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 24/43] fix: parse_hash handles uppercase bech32 and base58
 witness addresses

---
 riemann/encoding/addresses.py | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index c338925..c1b3867 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -357,32 +357,10 @@ def parse_hash(address: str) -> bytes:
     Returns:
         The 20 or 32 byte hash represented by the address
     '''
-    raw = parse(address)
+    output_script = to_output_script(address)
 
-    # Cash addresses
-    try:
-        if address.find(riemann.network.CASHADDR_PREFIX) == 0:
-            if raw.find(riemann.network.CASHADDR_P2SH) == 0:
-                return raw[len(riemann.network.CASHADDR_P2SH):]
-            if raw.find(riemann.network.CASHADDR_P2PKH) == 0:
-                return raw[len(riemann.network.CASHADDR_P2PKH):]
-    except TypeError:
-        pass
-
-    # Segwit addresses
-    try:
-        if address.find(riemann.network.BECH32_HRP) == 0:
-            if raw.find(riemann.network.P2WSH_PREFIX) == 0:
-                return raw[len(riemann.network.P2WSH_PREFIX):]
-            if raw.find(riemann.network.P2WPKH_PREFIX) == 0:
-                return raw[len(riemann.network.P2WPKH_PREFIX):]
-    except TypeError:
-        pass
-
-    # Legacy Addresses
-    if raw.find(riemann.network.P2SH_PREFIX) == 0:
-        return raw[len(riemann.network.P2SH_PREFIX):]
-    if raw.find(riemann.network.P2PKH_PREFIX) == 0:
-        return raw[len(riemann.network.P2PKH_PREFIX):]
-
-    raise ValueError('Could not parse hash, unknown error')
+    if output_script[:3] == b'\x76\xa9\x14':  # P2PKH
+        return output_script[3:23]
+    if output_script[:2] == b'\xa9\x14':  # P2SH
+        return output_script[2:22]
+    return output_script[2:]  # P2WPKH or P2WSH
-- 
2.43.0


From b9a78b85843490574fd0e1aefefd4fd8acccf96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 25/43] fix: to_output_script only accepts a prefix in the
 encoding it belongs to

---
 riemann/encoding/addresses.py | 91 +++++++++++++++++------------------
 1 file changed, 44 insertions(+), 47 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index c1b3867..0e2ca29 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -1,6 +1,7 @@
 import riemann
 from riemann import utils
 from riemann.script import serialization as script_ser
+from typing import Tuple
 
 
 def _hash_to_sh_address(
@@ -216,27 +217,31 @@ def make_legacy_p2pkh_address(pubkey: bytes) -> str:
     return make_pkh_address(pubkey=pubkey, witness=False, cashaddr=False)
 
 
-def parse(address: str) -> bytes:
+def _decode(address: str) -> Tuple[str, bytes]:
     '''
-    Decode an address to the underlying raw bytes
+    Decode an address, noting which kind of encoding it uses
 
     Args:
         address: The address to parse
     Returns:
-        The raw bytestring encoded by the address
+        'legacy', 'segwit' or 'cashaddr', and the raw bytestring encoded by
+        the address
     '''
     try:
-        return bytearray(riemann.network.LEGACY_ENCODER.decode(address))
+        return 'legacy', bytearray(
+            riemann.network.LEGACY_ENCODER.decode(address))
     except ValueError:
         pass
 
     try:
-        return bytearray(riemann.network.SEGWIT_ENCODER.decode(address))
+        return 'segwit', bytearray(
+            riemann.network.SEGWIT_ENCODER.decode(address))
     except Exception:
         pass
 
     try:
-        return bytearray(riemann.network.CASHADDR_ENCODER.decode(address))
+        return 'cashaddr', bytearray(
+            riemann.network.CASHADDR_ENCODER.decode(address))
     except Exception:
         pass
 
@@ -244,6 +249,18 @@ def parse(address: str) -> bytes:
         'Unsupported address format. Got: {}'.format(address))
 
 
+def parse(address: str) -> bytes:
+    '''
+    Decode an address to the underlying raw bytes
+
+    Args:
+        address: The address to parse
+    Returns:
+        The raw bytestring encoded by the address
+    '''
+    return _decode(address)[1]
+
+
 def to_output_script(address: str) -> bytes:
     '''
     Convert an address into its associated output script.
@@ -254,58 +271,38 @@ def to_output_script(address: str) -> bytes:
         The output script that corresponds to the address, suitable for
         inclusion in a TxOut
     '''
-    parsed = parse(address)
-    parsed_hash = b''
-
-    try:
+    kind, parsed = _decode(address)
+    p2pkh_prefix = riemann.network.P2PKH_PREFIX
+    p2sh_prefix = riemann.network.P2SH_PREFIX
+
+    # Some networks use the legacy encoding for their witness addresses
+    if (kind == 'segwit'
+            or riemann.network.SEGWIT_ENCODER
+            is riemann.network.LEGACY_ENCODER):
         if (parsed.find(riemann.network.P2WPKH_PREFIX) == 0
                 and len(parsed) == 22):
             return parsed
-    except TypeError:
-        pass
 
-    try:
         if (parsed.find(riemann.network.P2WSH_PREFIX) == 0
                 and len(parsed) == 34):
             return parsed
-    except TypeError:
-        pass
-
-    try:
-        if (parsed.find(riemann.network.CASHADDR_P2SH) == 0
-                and len(parsed) == len(riemann.network.CASHADDR_P2SH) + 20):
-            prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
-            parsed_hash = parsed[len(riemann.network.P2SH_PREFIX):]
-            suffix = b'\x87'  # OP_EQUAL
-    except TypeError:
-        pass
-
-    try:
-        if (parsed.find(riemann.network.CASHADDR_P2PKH) == 0
-                and len(parsed) == len(riemann.network.CASHADDR_P2PKH) + 20):
-            prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
-            parsed_hash = parsed[len(riemann.network.P2PKH_PREFIX):]
-            suffix = b'\x88\xac'  # OP_EQUALVERIFY OP_CHECKSIG
-    except TypeError:
-        pass
 
-    if (parsed.find(riemann.network.P2PKH_PREFIX) == 0
-            and len(parsed) == len(riemann.network.P2PKH_PREFIX) + 20):
-        prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
-        parsed_hash = parsed[len(riemann.network.P2PKH_PREFIX):]
-        suffix = b'\x88\xac'  # OP_EQUALVERIFY OP_CHECKSIG
+    if kind == 'cashaddr':
+        p2pkh_prefix = riemann.network.CASHADDR_P2PKH
+        p2sh_prefix = riemann.network.CASHADDR_P2SH
 
-    if (parsed.find(riemann.network.P2SH_PREFIX) == 0
-            and len(parsed) == len(riemann.network.P2SH_PREFIX) + 20):
-        prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
-        parsed_hash = parsed[len(riemann.network.P2SH_PREFIX):]
-        suffix = b'\x87'  # OP_EQUAL
+    if kind != 'segwit':
+        if (parsed.find(p2pkh_prefix) == 0
+                and len(parsed) == len(p2pkh_prefix) + 20):
+            # OP_DUP OP_HASH160 PUSH14 <hash> OP_EQUALVERIFY OP_CHECKSIG
+            return b'\x76\xa9\x14' + parsed[len(p2pkh_prefix):] + b'\x88\xac'
 
-    if parsed_hash == b'':
-        raise ValueError('Cannot parse output script from address.')
+        if (parsed.find(p2sh_prefix) == 0
+                and len(parsed) == len(p2sh_prefix) + 20):
+            # OP_HASH160 PUSH14 <hash> OP_EQUAL
+            return b'\xa9\x14' + parsed[len(p2sh_prefix):] + b'\x87'
 
-    output_script = prefix + parsed_hash + suffix
-    return output_script
+    raise ValueError('Cannot parse output script from address.')
 
 
 def from_output_script(output_script: bytes, cashaddr: bool = True) -> str:
-- 
2.43.0


From 77edd20ff294587132c733771280c96862d97ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 26/43] fix: cashaddr decoding checks the whole prefix, every
 character and the padding

---
 riemann/encoding/cashaddr.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/cashaddr.py b/riemann/encoding/cashaddr.py
index 59b75f9..e42833e 100644
--- a/riemann/encoding/cashaddr.py
+++ b/riemann/encoding/cashaddr.py
@@ -55,12 +55,21 @@ def decode(data: str) -> bytes:
 
     # the data is everything after the colon
     prefix, data = data.split(':')
+    if prefix != riemann.network.CASHADDR_PREFIX:
+        raise ValueError('Malformed cashaddr. Unexpected prefix: {}'
+                         .format(prefix))
     decoded = b32decode(data)
+    if -1 in decoded:
+        raise ValueError('Malformed cashaddr. Bad character')
     if not verify_checksum(prefix, decoded):
         raise ValueError('Bad cash address checksum')
-    converted = convertbits(decoded, 5, 8)
 
-    return bytes(converted[:-6])  # remove the checksum from the end
+    # remove the checksum from the end
+    converted = convertbits(decoded[:-8], 5, 8, pad=False)
+    if converted is None:
+        raise ValueError('Malformed cashaddr. Bad padding')
+
+    return bytes(converted)
 
 
 def polymod(values):
-- 
2.43.0


From 7a5c45be7e09b27b46874129126fc3e5bb15bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 27/43] fix: bech32.decode raises ValueError on a malformed
 address

---
 riemann/encoding/bech32.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riemann/encoding/bech32.py b/riemann/encoding/bech32.py
index f3aada4..1de3893 100644
--- a/riemann/encoding/bech32.py
+++ b/riemann/encoding/bech32.py
@@ -46,6 +46,8 @@ def decode(bech: str) -> bytes:
 
     (version_prefix, hash_int_array) = \
         segwit_decode(riemann.network.BECH32_HRP, bech)
+    if version_prefix is None:
+        raise ValueError('Malformed bech32 address. Got: {}'.format(bech))
     ret = bytearray()
     ret.extend([version_prefix])
     ret.extend([len(hash_int_array)])
-- 
2.43.0


From 54ba7a308aeae6c0220864a2ef8c21725c3d6381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 28/43] fix: deserialize refuses truncated PUSHDATA1 and
 PUSHDATA2 pushes

---
 riemann/script/serialization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/riemann/script/serialization.py b/riemann/script/serialization.py
index 666aaf4..44b2599 100644
--- a/riemann/script/serialization.py
+++ b/riemann/script/serialization.py
@@ -108,6 +108,10 @@ def deserialize(serialized_script: bytes) -> str:
                 serialized_script[i + 2: i + 2 + blob_len].hex())
 
             i += 2 + blob_len
+            if i > len(serialized_script):
+                raise IndexError(
+                    'Push {} caused out of bounds exception.'
+                    .format(blob_len))
 
         elif current_byte == 77:
             # next hex blob length
@@ -117,6 +121,10 @@ def deserialize(serialized_script: bytes) -> str:
                 serialized_script[i + 3: i + 3 + blob_len].hex())
 
             i += 3 + blob_len
+            if i > len(serialized_script):
+                raise IndexError(
+                    'Push {} caused out of bounds exception.'
+                    .format(blob_len))
 
         elif current_byte == 78:
             raise NotImplementedError('OP_PUSHDATA4 is a bad idea.')
-- 
2.43.0


From 8f25789114baf2f87396acfc0cda3c65ba4c3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 29/43] fix: deserialize shows empty PUSHDATA pushes as OP_0

---
 riemann/script/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/script/serialization.py b/riemann/script/serialization.py
index 44b2599..ae6fee4 100644
--- a/riemann/script/serialization.py
+++ b/riemann/script/serialization.py
@@ -105,7 +105,7 @@ def deserialize(serialized_script: bytes) -> str:
             blob_len = serialized_script[i + 1]
 
             deserialized.append(
-                serialized_script[i + 2: i + 2 + blob_len].hex())
+                serialized_script[i + 2: i + 2 + blob_len].hex() or 'OP_0')
 
             i += 2 + blob_len
             if i > len(serialized_script):
@@ -118,7 +118,7 @@ def deserialize(serialized_script: bytes) -> str:
             blob_len = utils.le2i(serialized_script[i + 1: i + 3])
 
             deserialized.append(
-                serialized_script[i + 3: i + 3 + blob_len].hex())
+                serialized_script[i + 3: i + 3 + blob_len].hex() or 'OP_0')
 
             i += 3 + blob_len
             if i > len(serialized_script):
-- 
2.43.0


From 67bc505cb685f6407523a45652318b9a963f4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 30/43] fix: immutable tx parts hold no mutable data and refuse
 attribute deletion

---
 riemann/tx/shared.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index 124e1ee..dcf98de 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -79,6 +79,11 @@ class ByteData():
             raise TypeError("%r cannot be written to." % self)
         object.__setattr__(self, key, value)
 
+    def __delattr__(self, key: str):
+        if self.__immutable:
+            raise TypeError("%r cannot be deleted from." % self)
+        object.__delattr__(self, key)
+
     def __format__(self, code):
         '''
         ByteData -> str
@@ -112,7 +117,12 @@ class ByteData():
         '''
         Prevents any future changes to the object
         '''
-        self._bytes = bytes(self._bytes)
+        # do not keep references to mutable arguments
+        for key, value in list(self.__dict__.items()):
+            if isinstance(value, bytearray):
+                object.__setattr__(self, key, bytes(value))
+            elif isinstance(value, list):
+                object.__setattr__(self, key, tuple(value))
         self.__immutable = True
 
     def find(self, substring: Byteslike) -> int:
-- 
2.43.0


From b35c2519b3ccb1c86fbe403c9f172ccc5e647deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 31/43] fix: BLAKE.addsalt pads short byte salts

---
 riemann/blake256.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/blake256.py b/riemann/blake256.py
index 044e9c5..f1c0d72 100644
--- a/riemann/blake256.py
+++ b/riemann/blake256.py
@@ -347,7 +347,7 @@ class BLAKE(object):
         # if too short, prefix with null bytes.  if too long,
         # truncate high order bytes
         if len(salt) < saltsize:
-            salt = (chr(0)*(saltsize-len(salt)) + salt)
+            salt = (b'\x00'*(saltsize-len(salt)) + salt)
         else:
             salt = salt[-saltsize:]
         # prep the salt array
-- 
2.43.0


From 45b7d7ac725f4a610f4598841af45acacee9f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 32/43] fix: BLAKE.update counts the bytes of non-ASCII text,
 not its characters

---
 riemann/blake256.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/blake256.py b/riemann/blake256.py
index f1c0d72..5c08235 100644
--- a/riemann/blake256.py
+++ b/riemann/blake256.py
@@ -370,9 +370,6 @@ class BLAKE(object):
         BLKBYTES = self.BLKBYTES   # de-referenced for improved readability
         BLKBITS  = self.BLKBITS
 
-        datalen = len(data)
-        if not datalen:  return
-
         if type(data) == type(u''):
 
             # use either of the next two lines for a proper
@@ -390,6 +387,9 @@ class BLAKE(object):
             # that does nothing would at least allow
             # compatibility between Python2 and Python3.
 
+        datalen = len(data)
+        if not datalen:  return
+
         left = len(self.cache)
         fill = BLKBYTES - left
 
-- 
2.43.0


From adcd2c56de4ae5d910d382233fb39a159b3d8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 33/43] fix: is_push_only looks at script tokens, not
 characters

---
 riemann/networks/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index a88034d..49ea6c0 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -53,7 +53,7 @@ def is_push_only(script_sig: bytes) -> bool:
         (bool): True if Push Only, otherwise False
     '''
     script = ser.deserialize(script_sig)
-    non_data_opcodes = [t for t in script if t[0:3] == 'OP_']
+    non_data_opcodes = [t for t in script.split() if t[0:3] == 'OP_']
     for token in non_data_opcodes:
         integer_opcode = opcodes.CODE_TO_INT[token]
         if (integer_opcode in [79, 80]
-- 
2.43.0


From bb94973a2a79dff7687033c8fa37914b1c87996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 34/43] fix: standard OP_RETURN outputs are recognized and only
 they count as such

---
 riemann/networks/standard.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 49ea6c0..40e59b9 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -76,12 +76,13 @@ def check_is_standard(t: tx.Tx) -> bool:
             return False
 
         # 'dust'
-        if (rutils.le2i(o.value) < 550
+        if (not is_op_return(o)
+                and rutils.le2i(o.value) < 550
                 and o.output_script[:2] != b'\x00\x14'):
             return False
 
     # 'multi-op-return'
-    if len([is_op_return(o) for o in t.tx_outs]) > 1:
+    if len([o for o in t.tx_outs if is_op_return(o)]) > 1:
         return False
 
     return True
@@ -95,13 +96,11 @@ def is_op_return(o: tx.TxOut) -> bool:
     Returns:
         (bool): True if standard opreturn, otherwise false
     '''
-    script: str = ser.deserialize(o.output_script)
-    split_script = script.split()
-
     # TX_NULL_DATA, up to 83 bytes (80 for safety)
     if (rutils.le2i(o.value) == 0
-            and split_script[0] == 'OP_RETURN'
-            and len(script) < 80):
+            and o.output_script[:1] == b'\x6a'
+            and is_push_only(o.output_script[1:])
+            and len(o.output_script) <= 80):
         return True
     return False
 
@@ -124,6 +123,10 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     except ValueError:
         pass
 
+    # TX_NULL_DATA
+    if is_op_return(o):
+        return True
+
     script: str = ser.deserialize(o.output_script)
     split_script = script.split()
 
-- 
2.43.0


From e3fd545b8c66d5dfab0f2b959ce59c0c672add50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 35/43] fix: standardness of P2PK and multisig outputs looks at
 the right tokens

---
 riemann/networks/standard.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 40e59b9..37b525a 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -105,6 +105,17 @@ def is_op_return(o: tx.TxOut) -> bool:
     return False
 
 
+def _is_pubkey(token: str) -> bool:
+    '''
+    Checks whether a human-readable script token is a pushed public key
+    Args:
+        token (str): the token
+    Returns:
+        (bool): True for data with the length of a public key
+    '''
+    return not token.startswith('OP_') and len(token) in [66, 130]
+
+
 def is_standard_output_type(o: tx.TxOut) -> bool:
     '''
     Checks standardness of an output based on its value and output script
@@ -131,13 +142,15 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     split_script = script.split()
 
     # TX_PUBKEY
-    if (split_script[-1] == 'OP_CHECKSIG'
-            and len(split_script) == 2
-            and len(bytes.fromhex(split_script[1])) in [33, 65]):
+    if (len(split_script) == 2
+            and split_script[-1] == 'OP_CHECKSIG'
+            and _is_pubkey(split_script[0])):
         return True
 
     # TX_MULTISIG, up to x-of-3
-    if (split_script[-1] == 'OP_CHECKMULTISIG'
+    if (len(split_script) >= 4
+            and split_script[-1] == 'OP_CHECKMULTISIG'
+            and split_script[0] in ['OP_1', 'OP_2', 'OP_3']
             and split_script[-2] in ['OP_1', 'OP_2', 'OP_3']):
 
         num_pubkeys = int(split_script[-2][-1])
@@ -147,7 +160,7 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
                 or len(split_script) != num_pubkeys + 3):  # some junk script
             return False
         for pubkey in split_script[1:-2]:
-            if len(bytes.fromhex(pubkey)) not in [33, 65]:
+            if not _is_pubkey(pubkey):
                 return False
         return True
 
-- 
2.43.0


From d5a2747c41b0b34b493b3a52ecdee1e4ec28944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 36/43] fix: outputs that cannot be deserialized are
 non-standard

---
 riemann/networks/standard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 37b525a..af3a125 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -138,7 +138,10 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     if is_op_return(o):
         return True
 
-    script: str = ser.deserialize(o.output_script)
+    try:
+        script: str = ser.deserialize(o.output_script)
+    except (IndexError, NotImplementedError, ValueError):
+        return False
     split_script = script.split()
 
     # TX_PUBKEY
-- 
2.43.0


From aad053db10fca212bc3777dff1efa067d91e3880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 37/43] fix: check_final is True when every input has a final
 sequence

---
 riemann/networks/standard.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index af3a125..e16d443 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -193,6 +193,10 @@ def check_final(
         best_height     (int): best known Bitcoin height
         best_timestamp  (int): best known Bitcoin timestamp
     '''
+    # lock_time is only enforced if some input is not final
+    if all(tx_in.sequence == b'\xff\xff\xff\xff' for tx_in in t.tx_ins):
+        return True
+
     lock = rutils.le2i(t.lock_time)
     if lock >= 500_000_000:  # timelocked
         return lock <= best_timestamp
-- 
2.43.0


From 90a44f4884defab30516cc4a9e274a8ece6b39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 38/43] fix: malformed OP_RETURN outputs are non-standard

---
 riemann/networks/standard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index e16d443..3c87049 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -134,16 +134,16 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     except ValueError:
         pass
 
-    # TX_NULL_DATA
-    if is_op_return(o):
-        return True
-
     try:
         script: str = ser.deserialize(o.output_script)
     except (IndexError, NotImplementedError, ValueError):
         return False
     split_script = script.split()
 
+    # TX_NULL_DATA
+    if is_op_return(o):
+        return True
+
     # TX_PUBKEY
     if (len(split_script) == 2
             and split_script[-1] == 'OP_CHECKSIG'
-- 
2.43.0


From 2c5998c67a2845212902b1267dc2787af49540a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 39/43] fix: Decred SIGHASH_SINGLE keeps the version of blanked
 outputs, as dcrd does

---
 riemann/tx/decred.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index af4efd2..8d881da 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -369,9 +369,9 @@ class DecredTx(DecredByteData):
             copy_tx_outs = copy_tx.tx_outs[:index + 1]
             copy_tx_outs = [DecredTxOut(
                             value=b'\xff' * 8,
-                            version=b'\x00\x00',
+                            version=tx_out.version,
                             output_script=b'')
-                            for _ in copy_tx_outs]
+                            for tx_out in copy_tx_outs]
             copy_tx_outs[index] = copy_tx.tx_outs[index]
         except IndexError:
             raise NotImplementedError(
-- 
2.43.0


From 2292a240f33f5de91a40fe8e04fe7670e49d8054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 40/43] fix: only versions 1 and 2 are standard, not every
 version that ends in such a byte

---
 riemann/networks/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 3c87049..31f24b4 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -17,7 +17,7 @@ def check_is_standard_tx(t: tx.Tx) -> bool:
         (bool): True for standard, false for non-standard
     '''
     # 'version'
-    if t.version[0] not in [1, 2]:
+    if rutils.le2i(t.version) not in [1, 2]:
         return False
 
     # 'tx-size'
-- 
2.43.0


From 94a5e622e5047e3b754a959bbe2b2b9a77df9cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 41/43] fix: judge push-only scripts with the opcodes of the
 network

---
 riemann/networks/standard.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 31f24b4..118e421 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -1,3 +1,4 @@
+import riemann
 from riemann import tx
 from riemann import utils as rutils
 from riemann.encoding import addresses as addr
@@ -55,7 +56,10 @@ def is_push_only(script_sig: bytes) -> bool:
     script = ser.deserialize(script_sig)
     non_data_opcodes = [t for t in script.split() if t[0:3] == 'OP_']
     for token in non_data_opcodes:
-        integer_opcode = opcodes.CODE_TO_INT[token]
+        if token in riemann.network.CODE_TO_INT_OVERWRITE:
+            integer_opcode = riemann.network.CODE_TO_INT_OVERWRITE[token]
+        else:
+            integer_opcode = opcodes.CODE_TO_INT[token]
         if (integer_opcode in [79, 80]
                 or integer_opcode >= 97):
             return False
-- 
2.43.0


From 300457cf8c96a5c9b07e86175d8d13866045cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:00 +0000
Subject: [PATCH 42/43] fix: use opcodes the library knows in the htlc stack
 script templates

---
 riemann/script/examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/script/examples.py b/riemann/script/examples.py
index 975811e..0e4bd2d 100644
--- a/riemann/script/examples.py
+++ b/riemann/script/examples.py
@@ -33,10 +33,10 @@ htlc_redeem_script = \
 
 # Needs (signature, pubkey, secret)
 # IN THAT ORDER!
-htlc_stack_script_execute = '{sig} {pk} {secret} OP_TRUE'
+htlc_stack_script_execute = '{sig} {pk} {secret} OP_1'
 
 # Needs (signature, pubkey, serialized_redeem_script)
 # IN THAT ORDER!
-htlc_stack_script_refund = '{sig} {pk} OP_FALSE'
+htlc_stack_script_refund = '{sig} {pk} OP_0'
 
 # Don't forget to attach the script hash to the end of the p2sh script sigs
-- 
2.43.0


From dff1d40eb1729ced8d2aca973dab26fd4e4afebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:51 +0000
Subject: [PATCH 43/43] fix: refuse a spent value that is not 8 bytes in every
 signature hash

---
 riemann/tx/overwinter.py | 3 +++
 riemann/tx/sapling.py    | 3 +++
 riemann/tx/tx.py         | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 9baeb21..8ff7501 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -293,6 +293,9 @@ class OverwinterTx(z.ZcashByteData):
         if joinsplit and anyone_can_pay:
             raise ValueError('ANYONECANPAY can\'t be used with joinsplits')
 
+        if not joinsplit:
+            self.validate_bytes(prevout_value, 8)
+
         data = z.ZcashByteData()
 
         data += self.header
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 4d479f4..3d25888 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -627,6 +627,9 @@ class SaplingTx(z.ZcashByteData):
         if joinsplit and anyone_can_pay:
             raise ValueError('ANYONECANPAY can\'t be used with joinsplits')
 
+        if not joinsplit:
+            self.validate_bytes(prevout_value, 8)
+
         data = z.ZcashByteData()
 
         data += self.header
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 1a593d4..7b0ca98 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -962,6 +962,8 @@ class Tx(ByteData):
         For an excellent pasta dinner, see here:
         https://ricette.giallozafferano.it/Spaghetti-alla-Norma.html
         '''
+        self.validate_bytes(prevout_value, 8)
+
         data = ByteData()
 
         # 1. nVersion of the transaction (4-byte little endian)
-- 
2.43.0

