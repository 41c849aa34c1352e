From f71208c2d09a07fe4c61b553100390243561a91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 01/58] fix: reading bitstring.signed no longer inverts the
 bitstring in place

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index ec8b7f9..7d12d49 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -77,7 +77,7 @@ class bitstring(object):
         w1 = self._width - 1
         s = (self._value >> w1) & 1
         if s:
-            v = -(self.invert().value & ((1 << w1) - 1)) - 1
+            v = -(self.inverted.value & ((1 << w1) - 1)) - 1
         else:
             v = self._value & ((1 << w1) - 1)
         return v
-- 
2.43.0


From 3439e4545e04c766c32ef615b5480e8ff365e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 02/58] fix: the ~ operator returns a new bitstring instead of
 inverting its operand

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 7d12d49..d790986 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -510,7 +510,7 @@ class bitstring(object):
         return self
 
     def __invert__(self):
-        return self.invert()
+        return self.inverted
 
     def __hex__(self):
         return "%d'h%0*x" % (self._width, (self._width + 3) // 4, self._value)
-- 
2.43.0


From 6654518d0c2c6366d3dc9a41414115bbc1970963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 03/58] fix: bitstring truth value follows the value under
 Python 3 too, not the width

---
 cmdis/bitstring.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index d790986..167fbf2 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -185,9 +185,11 @@ class bitstring(object):
     def __ge__(self, other):
         return not self.__lt__(other)
 
-    def __nonzero__(self):
+    def __bool__(self):
         return self._value != 0
 
+    __nonzero__ = __bool__
+
     def __len__(self):
         return self._width
 
-- 
2.43.0


From 73fb4f98b0654d8c28ac31cc68c5e35c7a071cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 04/58] fix: undefined encodings raise
 UndefinedInstructionError instead of growing the decoder tree and failing
 with AttributeError

---
 cmdis/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index e8c9a0b..4329047 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -171,7 +171,7 @@ class DecoderTree(object):
         for k, subdecoders in children.items():
             children[k] = self._build_tree(subdecoders)
 
-        return DecoderTreeNode(mask=commonMask, children=children)
+        return DecoderTreeNode(mask=commonMask, children=dict(children))
 
     def dump(self, t=None, depth=0):
         if t is None:
-- 
2.43.0


From 3b710ed168f0c66488bea71d935b5d6c6a97bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 05/58] fix: push.w (T2) decodes instead of raising NameError

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2c6a65f..2189201 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -795,7 +795,7 @@ def push_t1(i, M, reglist):
 
 @instr("push.w", Push, "11101 00 100 1 0 1101", "0 M 0 reglist(13)")
 def push_t2(i, M, reglist):
-    i.registers = bit0 % M % bit0 % reglsit
+    i.registers = bit0 % M % bit0 % reglist
     i.unaligned_allowed = False
     if i.registers.bit_count() == 0:
         raise UnpredictableError()
-- 
2.43.0


From 9f40c69d10c2b6943dd9a79535b41b924e8688d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 06/58] fix: mvn.w executes instead of raising NameError

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2189201..e1272eb 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -426,7 +426,7 @@ def mvn(i, Rm, Rd):
 
 class ShiftedMoveNegate(DataProcessing):
     def _eval(self, cpu):
-        shifted, carry = Shift_C(cpu.r[i.m], i.shift_t, i.shift_n, cpu.apsr.c)
+        shifted, carry = Shift_C(cpu.r[self.m], self.shift_t, self.shift_n, cpu.apsr.c)
         result = ~shifted
         cpu.r[self.d] = result
         self._set_flags(cpu, result, carry, None)
-- 
2.43.0


From 0392e2612ecf453405ea1e47757c93534a5a8279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 07/58] fix: cmp/cmn (register) use the encoded Rm as second
 operand, not Rn

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index e1272eb..c805948 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -477,14 +477,14 @@ def cmp1(i, Rn, imm8):
 @instr("cmn", Compare, "010000 1011 Rm(3) Rn(3)", negate=False)
 def cmp3(i, Rm, Rn):
     i.n = Rn.unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
 @instr("cmp", Compare, "010001 01 N Rm(4) Rn(3)")
 def cmp4(i, N, Rm, Rn):
     i.n = (N % Rn).unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
-- 
2.43.0


From e31b3e3df03427e4ec4454ea5bbe7136fad16efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 08/58] fix: blx lr branches to the old LR, not to its own
 return address

---
 cmdis/instructions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index c805948..e170d2f 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -559,17 +559,18 @@ class Branch(Instruction):
         # TODO deal with pc + 4
         if self.cond.expr(cpu.apsr):
             next_instr = cpu.pc_for_instr + self.pc_delta
-            if self.with_link:
-                cpu.lr = next_instr | 1
-
             if hasattr(self, 'm'):
                 # Branch to register
                 target = bitstring(cpu.r[self.m])
                 target[0] = 0 # clear T bit
-                cpu.pc = target
             else:
                 # Branch to immediate offset
-                cpu.pc = next_instr + self.imm32
+                target = next_instr + self.imm32
+
+            # The target is read before LR is written, as it may come from LR.
+            if self.with_link:
+                cpu.lr = next_instr | 1
+            cpu.pc = target
         else:
             cpu.pc += self.size
 
-- 
2.43.0


From 07428c2ff52fe6add5d682f55b2310cc34661339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 09/58] fix: ASR() by zero returns its operand instead of
 raising NameError

---
 cmdis/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/helpers.py b/cmdis/helpers.py
index 30c1278..1809071 100644
--- a/cmdis/helpers.py
+++ b/cmdis/helpers.py
@@ -76,7 +76,7 @@ def ASR_C(x, shift):
 def ASR(x, shift):
     assert shift >= 0
     if shift == 0:
-        result = c
+        result = x
     else:
         result, _ = ASR_C(x, shift)
     return result
-- 
2.43.0


From 14ba03ab766dc53a0854b65ef1bdbe81b97c3a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 10/58] fix: byteListToU32leList works under Python 3

---
 cmdis/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 941a8eb..ea5e34b 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -49,7 +49,7 @@ def le32_to_bytes(value, offset=0):
 def byteListToU32leList(data):
     """Convert a list of bytes to a list of 32-bit integers (little endian)"""
     res = []
-    for i in range(len(data) / 4):
+    for i in range(len(data) // 4):
         res.append(data[i * 4 + 0] |
                    data[i * 4 + 1] << 8 |
                    data[i * 4 + 2] << 16 |
-- 
2.43.0


From c1cb4f914e011eba3c2d304fe3746dce0665ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 11/58] fix: float conversion utilities import struct

---
 cmdis/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index ea5e34b..efd2898 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -14,6 +14,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import struct
+
 ## @brief Compute the hamming weight, or number of 1s, of the argument.
 def hamming_weight(v):
     weight = 0
-- 
2.43.0


From cebf8d20b74a64dc1bf9516ff0ffae878784817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 12/58] fix: bfx/bfi accept a bitfield whose LSB is bit 0

---
 cmdis/utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index efd2898..0fbc0d4 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -141,13 +141,15 @@ def invert32(value):
 
 ## @brief Extract a value from a bitfield.
 def bfx(value, msb, lsb=None):
-    lsb = lsb or msb
+    if lsb is None:
+        lsb = msb
     mask = bitmask((msb, lsb))
     return (value & mask) >> lsb
 
 ## @brief Change a bitfield value.
 def bfi(value, field, msb, lsb=None):
-    lsb = lsb or msb
+    if lsb is None:
+        lsb = msb
     mask = bitmask((msb, lsb))
     value &= ~mask
     value |= (field << lsb) & mask
-- 
2.43.0


From e8523dff5f16d367129984203ab4d8a1aab59003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 13/58] fix: floating point registers can be read through
 CpuModel.s

---
 cmdis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index d83504b..1cea8bb 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -31,9 +31,9 @@ class RegistersInterface(object):
 
     def __getitem__(self, key):
         index = self._first + key
-        if self._first + index > self._last:
+        if index > self._last:
             raise KeyError("out of range register index %d" % key)
-        return self._cpu.read_register(self._first + index)
+        return self._cpu.read_register(index)
 
     def __setitem__(self, key, value):
         index = self._first + key
-- 
2.43.0


From 2fced5c35185f4774370ae7d9995b0ddf97492d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 14/58] fix: SP mirrors the stack pointer selected by the
 CONTROL register's value

---
 cmdis/mock_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 6f48260..e06a268 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -48,7 +48,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         self._regs[reg] = value
 
         # Mirror SP writes to PSP/MSP and vice versa.
-        spsel = (CORE_REGISTER['control'] & 2) >> 1
+        spsel = (self._regs[CORE_REGISTER['control']] & 2) >> 1
         if reg == CORE_REGISTER['sp']:
             if spsel:
                 self._regs[CORE_REGISTER['psp']] = value
-- 
2.43.0


From e3c5e65443102af92bc8c140c8c417ede60f0bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:01 +0000
Subject: [PATCH 15/58] fix: add/mov to the PC branch to the result instead of
 the result plus the instruction size

---
 cmdis/instructions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index e170d2f..dd44ef4 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -73,6 +73,10 @@ class AddSub(DataProcessing):
             result, carry, overflow = AddWithCarry(cpu.r[self.n],
                 self.imm32 if hasattr(self, 'imm32') else cpu.r[self.m],
                 cpu.apsr.c if self.use_carry else bit0)
+        if self.d == 15:
+            # Writing the PC is a branch.
+            cpu.pc = result & ~1
+            return
         cpu.r[self.d] = result
         self._set_flags(cpu, result, carry, overflow)
         super(AddSub, self)._eval(cpu)
@@ -366,6 +370,10 @@ class Move(DataProcessing):
             result = self.imm32
         if self.negate:
             result = ~result
+        if self.d == 15:
+            # Writing the PC is a branch.
+            cpu.pc = result & ~1
+            return
         cpu.r[self.d] = result
         self._set_flags(cpu, result, cpu.apsr.c, None)
         cpu.pc += self.size
-- 
2.43.0


From 55778247224d649c9ff228448d8e10080220ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:01 +0000
Subject: [PATCH 16/58] fix: ldr to the PC branches to the loaded address, and
 its literal form decodes

---
 cmdis/instructions.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index dd44ef4..ee083fe 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -639,6 +639,10 @@ class Load(Instruction):
             data = data.sign_extend(32)
         else:
             data = data.zero_extend(32)
+        if self.t == 15:
+            # Loading the PC is a branch.
+            cpu.pc = data
+            return
         cpu.r[self.t] = data
         cpu.pc += self.size
 
@@ -732,6 +736,10 @@ class LoadLiteral(Load):
             data = data.sign_extend(32)
         else:
             data = data.zero_extend(32)
+        if self.t == 15:
+            # Loading the PC is a branch.
+            cpu.pc = data
+            return
         cpu.r[self.t] = data
         cpu.pc += self.size
 
@@ -749,8 +757,8 @@ def ldr_literal(i, Rt, imm8):
 @instr("ldrsb.w", LoadLiteral, "11111 00 1 U 00 1 1111", "Rt(4) imm12(12)", memsize=8, signed=True)
 def ldr_literal(i, U, Rt, imm12):
     i.t = Rt.unsigned
-    if i.t == 15:
-        raise DecodeError()
+    if i.t == 15 and i.memsize != 32:
+        raise DecodeError() # memory hints
     i.imm32 = imm12.zero_extend(32)
     i.add = (U == '1')
     i.operands = [RegisterOperand(i.t), MemoryAccessOperand(
-- 
2.43.0


From c425adaadb06653ae6de7a3a4da4fc61ba497ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:01 +0000
Subject: [PATCH 17/58] fix: memory hint encodings are not decoded as byte and
 halfword loads into the PC

---
 cmdis/instructions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index ee083fe..18720d6 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -695,6 +695,8 @@ def ldr_str_reg_t2(i, Rn, Rt, imm2, Rm):
     i.m = Rm.unsigned
     if i.n == 15:
         raise DecodeError()
+    if i.t == 15 and isinstance(i, Load) and i.memsize != 32:
+        raise DecodeError() # memory hints
     i.index = True
     i.add = True
     i.wback = False
-- 
2.43.0


From 844f225d4afa0eea89399e8ed22eb9f6065f3e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:01 +0000
Subject: [PATCH 18/58] fix: adr labels show the address adr computes: word
 aligned base, negative offset for the subtracting form

---
 cmdis/formatter.py    | 12 +++++++++---
 cmdis/instructions.py |  5 +++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index b509696..5ec7484 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -80,15 +80,21 @@ class ImmediateOperand(Operand):
         return "#%d" % self._imm
 
 class LabelOperand(Operand):
-    def __init__(self, offset):
+    def __init__(self, offset, alignBase=False):
         self._offset = offset
+        self._alignBase = alignBase
 
     def format(self, formatter):
+        base = formatter.instruction.address + 4
+        if self._alignBase:
+            base &= ~3
+        target = base + self._offset
+
         # Add a comment with the absolute address of the label.
-        comment = "0x%x" % (formatter.instruction.address + 4 + self._offset)
+        comment = "0x%x" % target
         formatter.add_comment(comment)
 
-        return ".%+d" % (self._offset + 4)
+        return ".%+d" % (target - formatter.instruction.address)
 
 class ShiftRotateOperand(Operand):
     OP_NAMES = ["None",
diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 18720d6..708f97e 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -271,14 +271,15 @@ def adr_t1(i, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (imm8 % '00').zero_extend(32)
     i.add = True
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned, alignBase=True)]
 
 @instr("adr.w", AddressToRegister, "11110 im 10101 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=False)
 @instr("adr.w", AddressToRegister, "11110 im 10000 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=True)
 def adr_t2(i, im, imm3, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (im % imm3 % imm8).zero_extend(32)
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(
+        i.imm32.unsigned if i.add else -i.imm32.unsigned, alignBase=True)]
 
 # ------------------------------ Sign/unsigned extend instructions ------------------------------
 
-- 
2.43.0


From 95b0d960997bd78fb1701726e44ecbc82c6fdd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:01 +0000
Subject: [PATCH 19/58] fix: label addresses wrap at the end of the address
 space

---
 cmdis/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index 5ec7484..1e161e9 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -91,7 +91,7 @@ class LabelOperand(Operand):
         target = base + self._offset
 
         # Add a comment with the absolute address of the label.
-        comment = "0x%x" % target
+        comment = "0x%x" % (target & 0xffffffff)
         formatter.add_comment(comment)
 
         return ".%+d" % (target - formatter.instruction.address)
-- 
2.43.0


From 222d53a8b531ab43774fbfcf97f881fc6e12bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:01 +0000
Subject: [PATCH 20/58] fix: movs.w with a rotated immediate updates the C flag

---
 cmdis/instructions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 708f97e..4c205f7 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -361,6 +361,7 @@ class Move(DataProcessing):
     def __init__(self, mnemonic, word, is32bit):
         super(Move, self).__init__(mnemonic, word, is32bit)
         self.negate = False
+        self.carry = None
 
     def _eval(self, cpu):
         if hasattr(self, 'm'):
@@ -376,7 +377,7 @@ class Move(DataProcessing):
             cpu.pc = result & ~1
             return
         cpu.r[self.d] = result
-        self._set_flags(cpu, result, cpu.apsr.c, None)
+        self._set_flags(cpu, result, self.carry, None)
         cpu.pc += self.size
 
 @instr("mov", Move, "010001 10 D Rm(4) Rd(3)")
@@ -414,7 +415,7 @@ def mov2(i, im, S, imm3, Rd, imm8):
     i._mnemonic += "s.w" if S else ".w"
     i.d = Rd.unsigned
     i.setflags = (SetFlags.Never, SetFlags.Always)[S.unsigned]
-    i.imm32, i.carry = ThumbExpandImm_C(im % imm3 % imm8, bit0) # TODO deal with carry_in
+    i.imm32, i.carry = ThumbExpandImm_C(im % imm3 % imm8, None) # None leaves the C flag unchanged
     i.operands = [RegisterOperand(i.d), ImmediateOperand(i.imm32.unsigned)]
 
 # TODO test
-- 
2.43.0


From e7accebd62d7cb810cca9888872331049e20abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:01 +0000
Subject: [PATCH 21/58] fix: mrs can read the APSR instead of raising TypeError

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 4c205f7..6644d12 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -959,9 +959,9 @@ class MoveFromSpecial(Instruction):
                 r[24:27] = '000' # EPSR reads as zero
                 r[10:16] = '000000'
             if self.SYSm[2] == '0':
-                r[27:32] = cpu.apsr[27:32]
+                r[27:32] = cpu.xpsr[27:32]
                 if cpu.has_dsp_ext:
-                    r[16:20] = cpu.apsr[16:20]
+                    r[16:20] = cpu.xpsr[16:20]
         elif self.SYSm[3:8] == '00001': # SP access
             if cpu.is_privileged:
                 if self.SYSm[0:3] == '000':
-- 
2.43.0


From a23b8ad0b6d924c1d8a6971b9c8ebeb57af77d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:01 +0000
Subject: [PATCH 22/58] fix: IPSR is the low 9 bits of xPSR

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index 1cea8bb..12fae1e 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -212,7 +212,7 @@ class CpuModel(object):
 
     @property
     def ipsr(self):
-        return self.xpsr[0:6]
+        return self.xpsr[0:9]
 
     @property
     def r(self):
-- 
2.43.0


From a676a7d3bc213e6170c1c50bf4656b5f9d2adb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:01 +0000
Subject: [PATCH 23/58] fix: negative register indexes are out of range

---
 cmdis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index 12fae1e..cd5924c 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -31,13 +31,13 @@ class RegistersInterface(object):
 
     def __getitem__(self, key):
         index = self._first + key
-        if index > self._last:
+        if key < 0 or index > self._last:
             raise KeyError("out of range register index %d" % key)
         return self._cpu.read_register(index)
 
     def __setitem__(self, key, value):
         index = self._first + key
-        if index > self._last:
+        if key < 0 or index > self._last:
             raise KeyError("out of range register index %d" % key)
         self._cpu.write_register(index, value)
 
-- 
2.43.0


From 5b55f57627b7187cb3f5d9cb8c522607abd32861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 24/58] fix: registers hold 32 bits whatever integer is written
 to them

---
 cmdis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmdis/model.py b/cmdis/model.py
index cd5924c..6faa7cc 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -231,6 +231,7 @@ class CpuModel(object):
         reg = register_name_to_index(reg)
         if isinstance(value, bitstring):
             value = value.unsigned
+        value &= 0xffffffff
         if self._delegate is not None:
             self._delegate.write_register(reg, value)
 
-- 
2.43.0


From 72cef7bae8ba6d54d3329356fe32a48446507a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 25/58] fix: writing CONTROL.SPSEL switches SP to the selected
 stack pointer

---
 cmdis/mock_cpu.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index e06a268..856ed1e 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -47,6 +47,11 @@ class MockCpuModelDelegate(CpuModelDelegate):
             value = value & ~3
         self._regs[reg] = value
 
+        # Changing CONTROL.SPSEL changes which stack pointer SP is.
+        if reg == CORE_REGISTER['control']:
+            psp = value & 2
+            self._regs[CORE_REGISTER['sp']] = self._regs[CORE_REGISTER['psp' if psp else 'msp']]
+
         # Mirror SP writes to PSP/MSP and vice versa.
         spsel = (self._regs[CORE_REGISTER['control']] & 2) >> 1
         if reg == CORE_REGISTER['sp']:
-- 
2.43.0


From 49a07ea2bbd6aaf102ba572085bf9b918caea3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 26/58] fix: 8-bit delegate reads return an integer like the
 other sizes

---
 cmdis/mock_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 856ed1e..0f51cd5 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -73,7 +73,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         mem, offset = self._find_mem(addr)
         if mem:
             if size == 8:
-                return mem.data[offset:offset+1]
+                return mem.data[offset]
             elif size == 16:
                 return bytes_to_le16(mem.data[offset:offset+2])
             elif size == 32:
-- 
2.43.0


From c8eb8725dc34ff4d2765518c74d471d6d41d7dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 27/58] fix: 8-bit writes truncate the value like the other
 sizes

---
 cmdis/mock_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 0f51cd5..0db8e29 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -84,7 +84,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         mem, offset = self._find_mem(addr)
         if mem:
             if size == 8:
-                mem.data[offset:offset+1] = [value]
+                mem.data[offset] = value & 0xff
             elif size == 16:
                 mem.data[offset:offset+2] = le16_to_bytes(value)
             elif size == 32:
-- 
2.43.0


From 93d88ba69ad8a5f97d7ac94cca4c17da863036b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 28/58] fix: accesses across the end of a memory region neither
 fail nor make the region grow

---
 cmdis/mock_cpu.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 0db8e29..60970cc 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -75,9 +75,9 @@ class MockCpuModelDelegate(CpuModelDelegate):
             if size == 8:
                 return mem.data[offset]
             elif size == 16:
-                return bytes_to_le16(mem.data[offset:offset+2])
+                return bytes_to_le16(mem.data[offset:offset+2] + bytearray(1))
             elif size == 32:
-                return bytes_to_le32(mem.data[offset:offset+4])
+                return bytes_to_le32(mem.data[offset:offset+4] + bytearray(3))
         return 0
 
     def write_memory(self, addr, value, size=32):
@@ -86,14 +86,14 @@ class MockCpuModelDelegate(CpuModelDelegate):
             if size == 8:
                 mem.data[offset] = value & 0xff
             elif size == 16:
-                mem.data[offset:offset+2] = le16_to_bytes(value)
+                mem.data[offset:offset+2] = le16_to_bytes(value)[:len(mem.data)-offset]
             elif size == 32:
-                mem.data[offset:offset+4] = le32_to_bytes(value)
+                mem.data[offset:offset+4] = le32_to_bytes(value)[:len(mem.data)-offset]
 
     def write_memory_block(self, addr, data):
         mem, offset = self._find_mem(addr)
         if mem:
-            mem.data[offset:offset+len(data)] = data
+            mem.data[offset:offset+len(data)] = data[:len(mem.data)-offset]
 
     def read_memory_block(self, addr, length):
         mem, offset = self._find_mem(addr)
-- 
2.43.0


From 6f8173be6fe5d8cd90fbf7effe1e617b95bd8f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 29/58] fix: a trailing odd byte ends the disassembly instead
 of failing an assertion

---
 cmdis/disasm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/disasm.py b/cmdis/disasm.py
index 84cb17e..adf7658 100644
--- a/cmdis/disasm.py
+++ b/cmdis/disasm.py
@@ -28,7 +28,7 @@ class Disassembler(object):
         length = len(data)
         endAddress = address + length
         offset = 0
-        while address < endAddress:
+        while endAddress - address >= 2:
             # Decode the next instruction.
             try:
                 i = decoder.decode(data[offset:], address)
-- 
2.43.0


From f252cc6a6e87a4bc2b189addeb910e6ca1326a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 30/58] fix: the character that ends a fixed value in a spec is
 not lost

---
 cmdis/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 4329047..d8b987c 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -380,7 +380,9 @@ def parse_spec(spec):
                 result.append((ident, bitstring(bits)))
                 bits = ''
                 ident = ''
+                # Switch to default state and back up.
                 state = 0
+                i -= 1
 
         i += 1
 
-- 
2.43.0


From 99013c08d816d71a94489870d7f3b23a884a7f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 31/58] fix: Handler mode is always privileged

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index 6faa7cc..05a9e8a 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -196,7 +196,7 @@ class CpuModel(object):
 
     @property
     def is_privileged(self):
-        return self.control[self.nPRIV] == '0'
+        return self.mode == CpuMode.Handler or self.control[self.nPRIV] == '0'
 
     @property
     def xpsr(self):
-- 
2.43.0


From 995b4e47b8d95db1d51ac8693d21a083ccc94fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 32/58] fix: cps has no effect when unprivileged

---
 cmdis/instructions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 6644d12..df78944 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -919,8 +919,9 @@ def ldm_t2(i, W, Rn, P, M, reglist):
 
 class ChangeProcessorState(Instruction):
     def _eval(self, cpu):
-        # TODO if privileged
-        if self.enable:
+        if not cpu.is_privileged:
+            pass
+        elif self.enable:
             if self.affectPri:
                 cpu.write_register(CORE_REGISTER['primask'], 0)
             if self.affectFault:
-- 
2.43.0


From a1e450fff69de273137648252d5056590967c372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 33/58] fix: a bytearray is converted as little endian bytes,
 not as a sequence of bits

---
 cmdis/bitstring.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 167fbf2..7ee6e47 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -39,17 +39,17 @@ class bitstring(object):
             # String.
             self._width = len(val)
             self._value = int(val, base=2)
-        elif isinstance(val, collections.Sequence):
-            # Iterable.
-            # TODO support iterables of '0','1' as well as ints
-            self._width = len(val)
-            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         elif isinstance(val, bytearray):
-            # Little endian byte array.
+            # Little endian byte array. Checked first because it is also a Sequence.
             self._width = len(val) * 8
             self._value = 0
             for i,b in enumerate(val):
                 self._value |= b << (i * 8)
+        elif isinstance(val, collections.Sequence):
+            # Iterable.
+            # TODO support iterables of '0','1' as well as ints
+            self._width = len(val)
+            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         else:
             raise TypeError("value type is not supported")
 
-- 
2.43.0


From 32daf30dfa6ffffc329da5014507edd74058183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 34/58] fix: bitstring(1 << 32) is 64 bits wide instead of
 losing its value

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 7ee6e47..af0f55e 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -33,7 +33,7 @@ class bitstring(object):
             self._value = val._value
         elif isinstance(val, six.integer_types):
             # Integer.
-            self._width = 64 if (val > (1 << 32)) else 32
+            self._width = 64 if (val >= (1 << 32)) else 32
             self._value = val
         elif isinstance(val, six.string_types):
             # String.
-- 
2.43.0


From e8a1ec0d75e912246ce0d4ff279028f97eeac33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 35/58] fix: empty strings and sequences convert to the empty
 bitstring

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index af0f55e..e8d4dd4 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -38,7 +38,7 @@ class bitstring(object):
         elif isinstance(val, six.string_types):
             # String.
             self._width = len(val)
-            self._value = int(val, base=2)
+            self._value = int(val, base=2) if val else 0
         elif isinstance(val, bytearray):
             # Little endian byte array. Checked first because it is also a Sequence.
             self._width = len(val) * 8
@@ -49,7 +49,7 @@ class bitstring(object):
             # Iterable.
             # TODO support iterables of '0','1' as well as ints
             self._width = len(val)
-            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
+            self._value = functools.reduce(lambda x,y:(x << 1) | y, val, 0)
         else:
             raise TypeError("value type is not supported")
 
-- 
2.43.0


From 207f10dc45b9a4407358f0d94d99de743e099603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 36/58] fix: a bitstring is unequal to objects it can't be
 compared with

---
 cmdis/bitstring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index e8d4dd4..339f7a6 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -160,7 +160,8 @@ class bitstring(object):
                 if isinstance(other, bitstring) else NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        result = self.__eq__(other)
+        return result if result is NotImplemented else not result
 
     def __lt__(self, other):
         if isinstance(other, six.integer_types):
-- 
2.43.0


From 0475785aa81fdb5148ea51908afc6ffc99a33426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 37/58] fix: sign_extend and zero_extend to the same width
 return a copy, not an alias

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 339f7a6..244c8df 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -309,7 +309,7 @@ class bitstring(object):
         if width < self._width:
             raise ValueError("new width is smaller than current")
         elif width == self._width:
-            return self
+            return bitstring(self)
         w1 = self._width - 1
         s = (self._value >> w1) & 1
         d = width - self._width
@@ -320,7 +320,7 @@ class bitstring(object):
         if width < self._width:
             raise ValueError("new width is smaller than current")
         elif width == self._width:
-            return self
+            return bitstring(self)
         return bitstring(self, width)
 
     def invert(self):
-- 
2.43.0


From 67be7e7dd2499d5b5e800d9c0fcc2f65077e4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 38/58] fix: msr writes the special register instead of having
 no effect

---
 cmdis/instructions.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index df78944..c259474 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -25,6 +25,7 @@ from .formatter import (RegisterOperand, ImmediateOperand, LabelOperand,
                         ReglistOperand, CpsOperand, SpecialRegisterOperand)
 from .helpers import *
 from .registers import CORE_REGISTER
+from .model import CpuMode
 
 class SetFlags(Enum):
     Always = 1
@@ -986,6 +987,38 @@ class MoveFromSpecial(Instruction):
 
 class MoveToSpecial(Instruction):
     def _eval(self, cpu):
+        value = cpu.r[self.n]
+        if self.SYSm[3:8] == '00000': # xPSR access
+            if self.SYSm[2] == '0':
+                xpsr = cpu.xpsr
+                if self.mask[0] == '1' and cpu.has_dsp_ext:
+                    xpsr[16:20] = value[16:20]
+                if self.mask[1] == '1':
+                    xpsr[27:32] = value[27:32]
+                cpu.xpsr = xpsr
+        elif cpu.is_privileged:
+            if self.SYSm == 8:
+                cpu.msp = value & ~3
+            elif self.SYSm == 9:
+                cpu.psp = value & ~3
+            elif self.SYSm == 16:
+                cpu.write_register('primask', value[0])
+            elif self.SYSm == 17:
+                cpu.write_register('basepri', value[0:8])
+            elif self.SYSm == 18: # BASEPRI_MAX only raises the priority
+                basepri = cpu.read_register('basepri')[0:8]
+                if value[0:8] != 0 and (value[0:8] < basepri or basepri == 0):
+                    cpu.write_register('basepri', value[0:8])
+            elif self.SYSm == 19:
+                cpu.write_register('faultmask', value[0])
+            elif self.SYSm == 20:
+                control = cpu.control
+                control[0] = value[0]
+                if cpu.mode == CpuMode.Thread:
+                    control[1] = value[1]
+                if cpu.has_fp_ext:
+                    control[2] = value[2]
+                cpu.write_register('control', control)
         cpu.pc += self.size
 
 @instr("mrs", MoveFromSpecial, "11110 0 1111 1 0 1111", "10 0 0 Rd(4) SYSm(8)")
-- 
2.43.0


From 1e6791b7183729b19fbefb865b820b4315ecf055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 39/58] fix: the console starts without a binary file under
 Python 3

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 6007024..9be084c 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -358,7 +358,7 @@ class SimTool(object):
                 finally:
                     self.args.binary_file.close()
             else:
-                self.binary_data = ''
+                self.binary_data = b''
 
             # Set logging level
             self.configure_logging()
-- 
2.43.0


From ba2772a1bd7226f2ec12c060a1b11ed1b6c76c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 40/58] fix: the reset command no longer fails with TypeError

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 9be084c..aa99572 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -411,7 +411,7 @@ class SimTool(object):
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-    def handle_reset(self, args, other):
+    def handle_reset(self, args):
         self.reset_sim()
 
     @cmdoptions([make_option('-c', "--center", action="store_true")])
-- 
2.43.0


From 13224375410754b2d89bc51161b43b2309e45fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 41/58] fix: hex dumps of halfwords and words show byte
 addresses

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index aa99572..37aaca6 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -140,7 +140,7 @@ def hex_width(value, width):
 def dumpHexData(data, startAddress=0, width=8):
     i = 0
     while i < len(data):
-        print "%08x: " % (startAddress + i),
+        print "%08x: " % (startAddress + i * (width // 8)),
 
         while i < len(data):
             d = data[i]
-- 
2.43.0


From e4f8f8a745423e4b0562c0815aa8ff5b9954f5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 42/58] fix: write16 and write32 accept values wider than a
 byte

---
 cmdis/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 37aaca6..208fcb4 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -484,10 +484,10 @@ class SimTool(object):
             print "Error: no data for write"
             return 1
         else:
-            data = bytearray(self.convert_value(d) for d in args[1:])
+            data = [self.convert_value(d) & ((1 << width) - 1) for d in args[1:]]
 
         if width == 8:
-            pass
+            data = bytearray(data)
         elif width == 16:
             data = bytearray(cmdis.utilities.u16leListToByteList(data))
         elif width == 32:
-- 
2.43.0


From 44b052f64a8e6178ebc9bc5606205d383f7c187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 43/58] fix: an empty line repeats a whole multiple command
 line

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 208fcb4..fc49268 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -195,7 +195,7 @@ class SimConsole(object):
                         self.process_command_line(line)
                         self.last_command = line
                     elif self.last_command:
-                        self.process_command(self.last_command)
+                        self.process_command_line(self.last_command)
                 except KeyboardInterrupt:
                     print
         except EOFError:
-- 
2.43.0


From acdf9e32a11b7ba9003b8495b869835033cf6487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 44/58] fix: empty commands in a command line are ignored

---
 cmdis/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index fc49268..f1fafc4 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -210,7 +210,10 @@ class SimConsole(object):
 
     def process_command(self, cmd):
         try:
-            if (cmd.strip())[0] == '$':
+            cmd = cmd.strip()
+            if not cmd:
+                return
+            if cmd[0] == '$':
                 cmd = cmd[1:].strip()
                 self.tool.handle_python(cmd)
                 return
-- 
2.43.0


From 5031f8f4a8f3a6030ccf1e1c62106117af7d48ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 45/58] fix: step does not decode the halfword after a 16-bit
 instruction

---
 cmdis/__main__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index f1fafc4..7bae72b 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -506,15 +506,14 @@ class SimTool(object):
 
         try:
             code = self.cpu.read_memory_block(pc, 4)
-            ilist = [i for i in dis.disasm(code, pc)]
 
-            if not len(ilist):
+            # Only decode the first instruction.
+            i = next(dis.disasm(code, pc), None)
+
+            if i is None:
                 print "No instructions found!"
                 return
 
-            # Only use the first instruction.
-            i = ilist[0]
-
             print "{addr:#010x}:  {instr}".format(addr=i.address, instr=fmt.format(i))
 
             i.execute(self.cpu)
-- 
2.43.0


From c04409564fb32387d38199311862117b6166b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 46/58] fix: disasm of undefined instructions no longer fails
 with IndexError

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 7bae72b..d0233ab 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -625,7 +625,7 @@ class SimTool(object):
 #                 text += "{addr:#010x}:{pc_marker} {bytes:<10}{mnemonic:<8}{args}\n".format(addr=i.address, pc_marker=pc_marker, bytes=hexBytes, mnemonic=i.mnemonic, args=i.op_str)
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
-        if text[-1] == '\n':
+        if text.endswith('\n'):
             text = text[:-1]
         print text
 
-- 
2.43.0


From 6f70b42350f36261ae62858d3be1afd78ba56968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:24 +0000
Subject: [PATCH 47/58] fix: wreg rejects unknown registers

---
 cmdis/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index d0233ab..c55b7e2 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -411,6 +411,8 @@ class SimTool(object):
             raise ToolError("No value specified")
 
         reg = args[0].lower()
+        if reg not in cmdis.registers.CORE_REGISTER:
+            raise ToolError("invalid register '%s'" % (reg))
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-- 
2.43.0


From 86eec964d36aed2854e9308b702a3023c9110100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:24 +0000
Subject: [PATCH 48/58] fix: reset clears the Thumb bit from the PC

---
 cmdis/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index c55b7e2..12b331a 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -340,7 +340,8 @@ class SimTool(object):
         pc = self.cpu.read32(4)
         mem, offset = self.cpu.delegate._find_mem(pc.unsigned)
         if mem:
-            self.cpu.pc = pc
+            # Bit 0 of the vector is the Thumb bit.
+            self.cpu.pc = pc & ~1
 
         sp = self.cpu.read32(0)
         mem, offset = self.cpu.delegate._find_mem(sp.unsigned - 4)
-- 
2.43.0


From bd7d7f1c01fe2e66a33966bd50ffe4727d1594c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:51 +0000
Subject: [PATCH 49/58] fix: console commands report unmapped addresses instead
 of failing with TypeError

---
 cmdis/__main__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 12b331a..3176dbf 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -437,7 +437,7 @@ class SimTool(object):
         addr &= ~1
 
         # Print disasm of data.
-        data = self.cpu.read_memory_block(addr, count)
+        data = self.read_block(addr, count)
         self.print_disasm(data, addr)
 
     def handle_read8(self, args):
@@ -458,6 +458,12 @@ class SimTool(object):
     def handle_write32(self, args):
         return self.do_write(args, 32)
 
+    def read_block(self, addr, count):
+        data = self.cpu.read_memory_block(addr, count)
+        if data is None:
+            raise ToolError("no memory at 0x%08x" % addr)
+        return data
+
     def do_read(self, args, width):
         if len(args) == 0:
             print "Error: no address specified"
@@ -469,13 +475,13 @@ class SimTool(object):
             count = self.convert_value(args[1])
 
         if width == 8:
-            data = self.cpu.read_memory_block(addr, count)
+            data = self.read_block(addr, count)
             byteData = data
         elif width == 16:
-            byteData = self.cpu.read_memory_block(addr, count)
+            byteData = self.read_block(addr, count)
             data = cmdis.utilities.byteListToU16leList(byteData)
         elif width == 32:
-            byteData = self.cpu.read_memory_block(addr, count)
+            byteData = self.read_block(addr, count)
             data = cmdis.utilities.byteListToU32leList(byteData)
 
         # Print hex dump of output.
@@ -508,7 +514,7 @@ class SimTool(object):
         fmt = cmdis.formatter.Formatter(self.cpu)
 
         try:
-            code = self.cpu.read_memory_block(pc, 4)
+            code = self.read_block(pc, 4)
 
             # Only decode the first instruction.
             i = next(dis.disasm(code, pc), None)
@@ -579,7 +585,7 @@ class SimTool(object):
             value = int(arg, base=0)
 
         if deref:
-            value = cmdis.utilities.bytes_to_le32(self.cpu.read_memory_block(value + offset, 4))
+            value = cmdis.utilities.bytes_to_le32(self.read_block(value + offset, 4))
             print "[%s,%d] = 0x%08x" % (arg, offset, value)
 
         return value
-- 
2.43.0


From 03f992e674f2c4d635fcea4affbc6657a2e26c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:51 +0000
Subject: [PATCH 50/58] fix: step and disasm report unpredictable instructions
 like undefined ones

---
 cmdis/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 3176dbf..04e5060 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -529,6 +529,8 @@ class SimTool(object):
 
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
+        except cmdis.decoder.UnpredictableError:
+            print "Unpredictable instruction"
 
     def handle_memory_map(self, args):
         self.print_memory_map()
@@ -634,6 +636,8 @@ class SimTool(object):
 #                 text += "{addr:#010x}:{pc_marker} {bytes:<10}{mnemonic:<8}{args}\n".format(addr=i.address, pc_marker=pc_marker, bytes=hexBytes, mnemonic=i.mnemonic, args=i.op_str)
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
+        except cmdis.decoder.UnpredictableError:
+            print "Unpredictable instruction"
         if text.endswith('\n'):
             text = text[:-1]
         print text
-- 
2.43.0


From a216b02f85cbd4363df092ae5cae3b937560dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:51 +0000
Subject: [PATCH 51/58] fix: msr with mask 0b11 shows its _nzcvqg suffix (the
 mask compared equal to -1)

---
 cmdis/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index 1e161e9..cca9eb5 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -154,7 +154,7 @@ class CpsOperand(Operand):
         return result
 
 class SpecialRegisterOperand(Operand):
-    def __init__(self, spec, mask=-1):
+    def __init__(self, spec, mask=None):
         self._spec = spec
         self._mask = mask
 
@@ -177,7 +177,7 @@ class SpecialRegisterOperand(Operand):
                 result = "EPSR"
             elif lower == '111':
                 result = "IEPSR"
-            if lower < 4 and self._mask != -1:
+            if lower < 4 and self._mask is not None:
                 if self._mask == '10':
                     result += '_nzcvq'
                 elif self._mask == '01':
-- 
2.43.0


From ed204d4a855732be3648ff4c801ffefacd5d8ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:42 +0000
Subject: [PATCH 52/58] fix: assigning a bitstring to a slice of itself no
 longer clears it first

---
 cmdis/bitstring.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 244c8df..159e50f 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -268,8 +268,7 @@ class bitstring(object):
             elif not isinstance(value, bitstring):
                 raise TypeError("value must be a bitstring, integer, or string")
             mask = (((1 << (stop - start)) - 1) << start)
-            self._value &= ~mask
-            self._value |= (value.unsigned << start) & mask
+            self._value = (self._value & ~mask) | ((value.unsigned << start) & mask)
             return
 
         if not isinstance(key, six.integer_types):
-- 
2.43.0


From 2b234fb2fe428aca50bd0d8fd684ded46078ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:42 +0000
Subject: [PATCH 53/58] fix: concatenating a bitstring onto itself in place (x
 %= x)

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 159e50f..1d2a520 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -476,9 +476,9 @@ class bitstring(object):
 
     def __imod__(self, other):
         if isinstance(other, bitstring):
+            self._value = (self._value << other._width) | other._value
             self._width += other._width
             self._mask = (1 << self._width) - 1
-            self._value = (self._value << other._width) | other._value
             return self
         elif isinstance(other, six.string_types):
             return self.__imod__(bitstring(other))
-- 
2.43.0


From aa33fb90bdb22182f8d1a7a99f4dea5fe4ff5dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:54 +0000
Subject: [PATCH 54/58] fix: encoding specifications with junk after a bit
 count are rejected

---
 cmdis/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index d8b987c..229ec95 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -358,7 +358,9 @@ def parse_spec(spec):
                 bitcount = ''
                 state = 0
             elif c not in string.digits:
+                # Switch to close bitcount state and back up.
                 state = 4
+                i -= 1
             else:
                 bitcount += c
         # Close bitcount state.
-- 
2.43.0


From 35ceaffe9d622084ca409e74bc7d204399272bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 55/58] fix: bit string arithmetic with an unsupported operand
 is an error

---
 cmdis/bitstring.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 1d2a520..a35f345 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -328,28 +328,23 @@ class bitstring(object):
 
     def __add__(self, other):
         b = bitstring(self)
-        b.__iadd__(other)
-        return b
+        return b.__iadd__(other)
 
     def __sub__(self, other):
         b = bitstring(self)
-        b.__isub__(other)
-        return b
+        return b.__isub__(other)
 
     def __mul__(self, other):
         b = bitstring(self)
-        b.__imul__(other)
-        return b
+        return b.__imul__(other)
 
     def __floordiv__(self, other):
         b = bitstring(self)
-        b.__ifloordiv__(other)
-        return b
+        return b.__ifloordiv__(other)
 
     def __mod__(self, other):
         b = bitstring(self)
-        b.__imod__(other)
-        return b
+        return b.__imod__(other)
 
     def __lshift__(self, other):
         if isinstance(other, six.integer_types):
-- 
2.43.0


From 857b62a92ff5692f4a5fcaa4addf85f403c2a72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 56/58] fix: ordering a bit string against an unsupported
 operand is an error

---
 cmdis/bitstring.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index a35f345..409499d 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -181,10 +181,12 @@ class bitstring(object):
         return self.__eq__(other) or self.__lt__(other)
 
     def __gt__(self, other):
-        return not self.__le__(other)
+        result = self.__le__(other)
+        return result if result is NotImplemented else not result
 
     def __ge__(self, other):
-        return not self.__lt__(other)
+        result = self.__lt__(other)
+        return result if result is NotImplemented else not result
 
     def __bool__(self):
         return self._value != 0
-- 
2.43.0


From fdaed0764303b72e2560b4240ae72c760d0fd91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 57/58] fix: a refused bit string width leaves the bit string
 as it was

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 409499d..4d35039 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -102,8 +102,8 @@ class bitstring(object):
 
     @width.setter
     def width(self, val):
+        self._mask = (1 << val) - 1
         self._width = val
-        self._mask = (1 << self._width) - 1
         self._value &= self._mask
 
     @property
-- 
2.43.0


From 528c89e79ff30100b0be8ec008a775bdc43cfc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 58/58] fix: dumping a decoder tree with children no longer
 fails on Python 3

---
 cmdis/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 229ec95..a2f0679 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -186,7 +186,7 @@ class DecoderTree(object):
                 for i,d in enumerate(nodes):
                     print("  " * (depth + 1), i, ":", d)
             else:
-                for i,k in enumerate(nodes.iterkeys()):
+                for i,k in enumerate(nodes):
                     print("  " * (depth + 1), i, ":", hex(k))
                     self.dump(nodes[k], depth+2)
 
-- 
2.43.0

