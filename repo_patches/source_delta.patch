From 1529344ac3ea7d2e7b07e27f548f0ff93ef329ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:44 +0000
Subject: [PATCH 01/45] fix: give bitstring a truth value on Python 3

---
 cmdis/bitstring.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index ec8b7f9..1f2294d 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -185,9 +185,12 @@ class bitstring(object):
     def __ge__(self, other):
         return not self.__lt__(other)
 
-    def __nonzero__(self):
+    def __bool__(self):
         return self._value != 0
 
+    # Python 2 name.
+    __nonzero__ = __bool__
+
     def __len__(self):
         return self._width
 
-- 
2.43.0


From 2a620d892da0038a473a6672fa8c6c468d8b0693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:23 +0000
Subject: [PATCH 02/45] fix: reading bitstring.signed or ~bitstring no longer
 inverts the object in place

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 1f2294d..b5207d5 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -77,7 +77,7 @@ class bitstring(object):
         w1 = self._width - 1
         s = (self._value >> w1) & 1
         if s:
-            v = -(self.invert().value & ((1 << w1) - 1)) - 1
+            v = -(self.inverted.value & ((1 << w1) - 1)) - 1
         else:
             v = self._value & ((1 << w1) - 1)
         return v
@@ -513,7 +513,7 @@ class bitstring(object):
         return self
 
     def __invert__(self):
-        return self.invert()
+        return self.inverted
 
     def __hex__(self):
         return "%d'h%0*x" % (self._width, (self._width + 3) // 4, self._value)
-- 
2.43.0


From e52cc8c838ad015418e6daa1cab90ab6ece7b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:28 +0000
Subject: [PATCH 03/45] fix: register forms of cmp and cmn compare Rn with Rm

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2c6a65f..ae4128e 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -477,14 +477,14 @@ def cmp1(i, Rn, imm8):
 @instr("cmn", Compare, "010000 1011 Rm(3) Rn(3)", negate=False)
 def cmp3(i, Rm, Rn):
     i.n = Rn.unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
 @instr("cmp", Compare, "010001 01 N Rm(4) Rn(3)")
 def cmp4(i, N, Rm, Rn):
     i.n = (N % Rn).unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
-- 
2.43.0


From 5fa8e791ec7299094ab3b88fe205b9b06c70c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:33 +0000
Subject: [PATCH 04/45] fix: mvn.w reads its operands from the instruction
 instead of an undefined name

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index ae4128e..bb7a685 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -426,7 +426,7 @@ def mvn(i, Rm, Rd):
 
 class ShiftedMoveNegate(DataProcessing):
     def _eval(self, cpu):
-        shifted, carry = Shift_C(cpu.r[i.m], i.shift_t, i.shift_n, cpu.apsr.c)
+        shifted, carry = Shift_C(cpu.r[self.m], self.shift_t, self.shift_n, cpu.apsr.c)
         result = ~shifted
         cpu.r[self.d] = result
         self._set_flags(cpu, result, carry, None)
-- 
2.43.0


From b4d8b900f6f0100e776e40d6b42753c138dcb069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:37 +0000
Subject: [PATCH 05/45] fix: push.w (T2) decoded with an undefined name

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index bb7a685..c805948 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -795,7 +795,7 @@ def push_t1(i, M, reglist):
 
 @instr("push.w", Push, "11101 00 100 1 0 1101", "0 M 0 reglist(13)")
 def push_t2(i, M, reglist):
-    i.registers = bit0 % M % bit0 % reglsit
+    i.registers = bit0 % M % bit0 % reglist
     i.unaligned_allowed = False
     if i.registers.bit_count() == 0:
         raise UnpredictableError()
-- 
2.43.0


From 12b343affa7bd12aab277f6044f304bf404900b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:42 +0000
Subject: [PATCH 06/45] fix: unknown encodings raise UndefinedInstructionError
 instead of AttributeError

---
 cmdis/decoder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index e8c9a0b..b968740 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -168,10 +168,10 @@ class DecoderTree(object):
             return DecoderTreeNode(mask=0, children=list(children.values())[0])
 
         # Recursively process each group of children with the same match value at this level.
-        for k, subdecoders in children.items():
-            children[k] = self._build_tree(subdecoders)
+        # The node gets a plain dict, so that looking up an unknown value raises KeyError.
+        nodes = {k: self._build_tree(subdecoders) for k, subdecoders in children.items()}
 
-        return DecoderTreeNode(mask=commonMask, children=children)
+        return DecoderTreeNode(mask=commonMask, children=nodes)
 
     def dump(self, t=None, depth=0):
         if t is None:
-- 
2.43.0


From 59560452a49a8f11dd542390eafdf4d9b2688308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:48 +0000
Subject: [PATCH 07/45] fix: decoding a single trailing byte raises
 UndefinedInstructionError

---
 cmdis/decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index b968740..1298d08 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -112,7 +112,8 @@ class DecoderTree(object):
     def decode(self, data, dataAddress=0):
         # Figure out if this is a 16-bit or 32-bit instruction and select the
         # appropriate decoder tree.
-        assert len(data) >= 2
+        if len(data) < 2:
+            raise UndefinedInstructionError()
         hw1 = bytes_to_le16(data)
         is32bit = hw1 & self._32bitMask in self._32bitPrefixes
         if is32bit:
-- 
2.43.0


From 9e45d2cf8dc71d5ee48a01312ca0172f9788dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:35 +0000
Subject: [PATCH 08/45] fix: movs.w with a rotated immediate sets the carry
 flag

---
 cmdis/instructions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index c805948..41783f6 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -356,6 +356,7 @@ class Move(DataProcessing):
     def __init__(self, mnemonic, word, is32bit):
         super(Move, self).__init__(mnemonic, word, is32bit)
         self.negate = False
+        self.carry = None
 
     def _eval(self, cpu):
         if hasattr(self, 'm'):
@@ -367,7 +368,7 @@ class Move(DataProcessing):
         if self.negate:
             result = ~result
         cpu.r[self.d] = result
-        self._set_flags(cpu, result, cpu.apsr.c, None)
+        self._set_flags(cpu, result, self.carry, None)
         cpu.pc += self.size
 
 @instr("mov", Move, "010001 10 D Rm(4) Rd(3)")
@@ -405,7 +406,8 @@ def mov2(i, im, S, imm3, Rd, imm8):
     i._mnemonic += "s.w" if S else ".w"
     i.d = Rd.unsigned
     i.setflags = (SetFlags.Never, SetFlags.Always)[S.unsigned]
-    i.imm32, i.carry = ThumbExpandImm_C(im % imm3 % imm8, bit0) # TODO deal with carry_in
+    # A carry of None leaves the C flag alone.
+    i.imm32, i.carry = ThumbExpandImm_C(im % imm3 % imm8, None)
     i.operands = [RegisterOperand(i.d), ImmediateOperand(i.imm32.unsigned)]
 
 # TODO test
-- 
2.43.0


From d23845eb26143eafb74df2ebb3970856db72f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 09/45] fix: writing PC with mov, add or ldr.w branches to
 exactly the written address

---
 cmdis/decoder.py      | 12 ++++++++++++
 cmdis/instructions.py |  9 +++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 1298d08..b17a4e6 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -56,6 +56,18 @@ class Instruction(object):
     def _eval(self, cpu):
         cpu.pc += self.size
 
+    ## @brief Write the destination register and move on to the next instruction.
+    #
+    # Writing the PC is a branch.
+    def _write_result(self, cpu, reg, value):
+        if reg == 15:
+            target = bitstring(value)
+            target[0] = 0 # clear T bit
+            cpu.pc = target
+        else:
+            cpu.r[reg] = value
+            cpu.pc += self.size
+
     def execute(self, cpu):
         return self._eval(cpu)
 
diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 41783f6..1daabfc 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -73,9 +73,8 @@ class AddSub(DataProcessing):
             result, carry, overflow = AddWithCarry(cpu.r[self.n],
                 self.imm32 if hasattr(self, 'imm32') else cpu.r[self.m],
                 cpu.apsr.c if self.use_carry else bit0)
-        cpu.r[self.d] = result
         self._set_flags(cpu, result, carry, overflow)
-        super(AddSub, self)._eval(cpu)
+        self._write_result(cpu, self.d, result)
 
 class BitOp(DataProcessing):
     def _eval(self, cpu):
@@ -367,9 +366,8 @@ class Move(DataProcessing):
             result = self.imm32
         if self.negate:
             result = ~result
-        cpu.r[self.d] = result
         self._set_flags(cpu, result, self.carry, None)
-        cpu.pc += self.size
+        self._write_result(cpu, self.d, result)
 
 @instr("mov", Move, "010001 10 D Rm(4) Rd(3)")
 def mov0(i, D, Rm, Rd):
@@ -632,8 +630,7 @@ class Load(Instruction):
             data = data.sign_extend(32)
         else:
             data = data.zero_extend(32)
-        cpu.r[self.t] = data
-        cpu.pc += self.size
+        self._write_result(cpu, self.t, data)
 
 class Store(Instruction):
     def __init__(self, mnemonic, word, is32bit):
-- 
2.43.0


From 1e0035ab4ced2a1814f07aaaa658a0243b8bb0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:46 +0000
Subject: [PATCH 10/45] fix: mov from PC reads the address of the instruction
 plus 4

---
 cmdis/instructions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 1daabfc..a49459f 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -359,9 +359,11 @@ class Move(DataProcessing):
 
     def _eval(self, cpu):
         if hasattr(self, 'm'):
-            result = cpu.r[self.m]
-            if self.m == 15: # pc
+            if self.m == 15: # pc reads as the instruction's address + 4
+                result = cpu.pc_for_instr & ~1
                 self.setflags = SetFlags.Never
+            else:
+                result = cpu.r[self.m]
         else:
             result = self.imm32
         if self.negate:
-- 
2.43.0


From cde004c2080b11897591163ab93c8b1f394e825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:51 +0000
Subject: [PATCH 11/45] fix: blx lr branches to the old value of lr

---
 cmdis/instructions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index a49459f..9f543e1 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -561,17 +561,18 @@ class Branch(Instruction):
         # TODO deal with pc + 4
         if self.cond.expr(cpu.apsr):
             next_instr = cpu.pc_for_instr + self.pc_delta
-            if self.with_link:
-                cpu.lr = next_instr | 1
-
             if hasattr(self, 'm'):
                 # Branch to register
                 target = bitstring(cpu.r[self.m])
                 target[0] = 0 # clear T bit
-                cpu.pc = target
             else:
                 # Branch to immediate offset
-                cpu.pc = next_instr + self.imm32
+                target = next_instr + self.imm32
+
+            # The target may come from lr, so it is read before lr is written.
+            if self.with_link:
+                cpu.lr = next_instr | 1
+            cpu.pc = target
         else:
             cpu.pc += self.size
 
-- 
2.43.0


From a16de07157641338d3af895ee32511bf4d8f10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:10 +0000
Subject: [PATCH 12/45] fix: a memory fault in push, pop or load-multiple
 leaves the registers unchanged

---
 cmdis/instructions.py | 54 ++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 9f543e1..77886a5 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -764,28 +764,46 @@ def ldr_str_imm_t2(i, Rt, imm8):
 
 # ------------------------------ Push/pop instructions ------------------------------
 
+## @brief Read from consecutive words the values of all the registers in a register list.
+#
+# Nothing is written to the registers until every read succeeded, so that a faulting
+# instruction can be restarted.
+def _read_registers(cpu, registers, address):
+    values = []
+    for i in range(16):
+        if registers[i]:
+            values.append((i, cpu.read32(address)))
+            address = address + 4
+    return values
+
+## @brief Write loaded values to registers and move on to the next instruction.
+def _load_registers(cpu, values, size):
+    next_instr = cpu.pc + size
+    for i, value in values:
+        if i == 15:
+            next_instr = value
+        else:
+            cpu.r[i] = value
+    cpu.pc = next_instr
+
 class Push(Instruction):
     def _eval(self, cpu):
-        address = cpu.sp - (4 * self.registers.bit_count())
-        cpu.sp = address
+        base = cpu.sp - (4 * self.registers.bit_count())
+        address = base
         for i in range(15):
             if self.registers[i]:
                 cpu.write32(address, cpu.r[i])
-                address += 4
+                address = address + 4
+        # SP moves only after every write succeeded, so that a faulting push can be restarted.
+        cpu.sp = base
         cpu.pc += self.size
 
 class Pop(Instruction):
     def _eval(self, cpu):
         address = cpu.sp
-        cpu.sp += 4 * self.registers.bit_count()
-        for i in range(15):
-            if self.registers[i]:
-                cpu.r[i] = cpu.read32(address)
-                address += 4
-        if self.registers[15]:
-            cpu.pc = cpu.read32(address)
-        else:
-            cpu.pc += self.size
+        values = _read_registers(cpu, self.registers, address)
+        cpu.sp = address + 4 * self.registers.bit_count()
+        _load_registers(cpu, values, self.size)
 
 @instr("push", Push, "1011 0 10 M reglist(8)")
 def push_t1(i, M, reglist):
@@ -837,16 +855,10 @@ def pop_t3(i, Rt):
 class LoadMultiple(Instruction):
     def _eval(self, cpu):
         address = cpu.r[self.n]
-        for i in range(15):
-            if self.registers[i]:
-                cpu.r[i] = cpu.read32(address)
-                address += 4
-        if self.registers[15]:
-            cpu.pc = cpu.read32(address)
-        else:
-            cpu.pc += self.size
+        values = _read_registers(cpu, self.registers, address)
         if self.wback and self.registers[self.n] == '0':
-            cpu.r[self.n] += 4 * self.registers.bit_count()
+            cpu.r[self.n] = address + 4 * self.registers.bit_count()
+        _load_registers(cpu, values, self.size)
 
 class StoreMultiple(Instruction):
     def _eval(self, cpu):
-- 
2.43.0


From 3c934451e10f5f2fb969e1123f1a20e48a6fca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:30 +0000
Subject: [PATCH 13/45] fix: mrs reads the flags from xPSR, and IPSR is nine
 bits wide

---
 cmdis/instructions.py | 4 ++--
 cmdis/model.py        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 77886a5..36111db 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -952,9 +952,9 @@ class MoveFromSpecial(Instruction):
                 r[24:27] = '000' # EPSR reads as zero
                 r[10:16] = '000000'
             if self.SYSm[2] == '0':
-                r[27:32] = cpu.apsr[27:32]
+                r[27:32] = cpu.xpsr[27:32]
                 if cpu.has_dsp_ext:
-                    r[16:20] = cpu.apsr[16:20]
+                    r[16:20] = cpu.xpsr[16:20]
         elif self.SYSm[3:8] == '00001': # SP access
             if cpu.is_privileged:
                 if self.SYSm[0:3] == '000':
diff --git a/cmdis/model.py b/cmdis/model.py
index d83504b..bab1a17 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -212,7 +212,7 @@ class CpuModel(object):
 
     @property
     def ipsr(self):
-        return self.xpsr[0:6]
+        return self.xpsr[0:9]
 
     @property
     def r(self):
-- 
2.43.0


From c6edcbf667184505e5eef79bf75ae725ab2894a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 14/45] fix: cps has no effect when execution is unprivileged

---
 cmdis/instructions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 36111db..e820dbb 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -912,8 +912,9 @@ def ldm_t2(i, W, Rn, P, M, reglist):
 
 class ChangeProcessorState(Instruction):
     def _eval(self, cpu):
-        # TODO if privileged
-        if self.enable:
+        if not cpu.is_privileged:
+            pass # ignored by unprivileged software
+        elif self.enable:
             if self.affectPri:
                 cpu.write_register(CORE_REGISTER['primask'], 0)
             if self.affectFault:
-- 
2.43.0


From 47efb23b11866dcaad1dfdc49dc8491c337b5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:15 +0000
Subject: [PATCH 15/45] fix: SP is always the stack pointer bank selected by
 CONTROL

---
 cmdis/mock_cpu.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 6f48260..1b666d3 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -34,8 +34,15 @@ class MockCpuModelDelegate(CpuModelDelegate):
         buf = MemBuffer(start=start, end=start+length-1, data=bytearray(length))
         self._mem.append(buf)
 
+    ## @brief Return the register that holds the value of SP, as selected by CONTROL.
+    def _banked_register(self, reg):
+        if reg == CORE_REGISTER['sp']:
+            spsel = (self._regs[CORE_REGISTER['control']] & 2) >> 1
+            return CORE_REGISTER['psp'] if spsel else CORE_REGISTER['msp']
+        return reg
+
     def read_register(self, reg):
-        return self._regs[reg]
+        return self._regs[self._banked_register(reg)]
 
     def write_register(self, reg, value):
         # Special restrictions for CONTROL register writes.
@@ -45,18 +52,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
             value = value & 0xff
         elif reg in (CORE_REGISTER['sp'], CORE_REGISTER['msp'], CORE_REGISTER['psp']):
             value = value & ~3
-        self._regs[reg] = value
-
-        # Mirror SP writes to PSP/MSP and vice versa.
-        spsel = (CORE_REGISTER['control'] & 2) >> 1
-        if reg == CORE_REGISTER['sp']:
-            if spsel:
-                self._regs[CORE_REGISTER['psp']] = value
-            else:
-                self._regs[CORE_REGISTER['msp']] = value
-        elif (reg == CORE_REGISTER['msp'] and spsel == 0) or \
-                (reg == CORE_REGISTER['psp'] and spsel == 1):
-            self._regs[CORE_REGISTER['sp']] = value
+        self._regs[self._banked_register(reg)] = value
 
     def _find_mem(self, addr):
         for m in self._mem:
-- 
2.43.0


From 620ab35f61ba32e792f78c3ff83fb05dcffcf116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:20 +0000
Subject: [PATCH 16/45] fix: registers are 32 bits wide whatever is written to
 them

---
 cmdis/mock_cpu.py | 3 +++
 cmdis/model.py    | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 1b666d3..4025f9c 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -45,6 +45,9 @@ class MockCpuModelDelegate(CpuModelDelegate):
         return self._regs[self._banked_register(reg)]
 
     def write_register(self, reg, value):
+        # Registers are 32 bits wide.
+        value = value & 0xffffffff
+
         # Special restrictions for CONTROL register writes.
         if reg in (CORE_REGISTER['faultmask'], CORE_REGISTER['primask']):
             value = value & 1
diff --git a/cmdis/model.py b/cmdis/model.py
index bab1a17..f5c0b7a 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -225,7 +225,7 @@ class CpuModel(object):
     def read_register(self, reg):
         reg = register_name_to_index(reg)
         if self._delegate is not None:
-            return bitstring(self._delegate.read_register(reg))
+            return bitstring(self._delegate.read_register(reg), 32)
 
     def write_register(self, reg, value):
         reg = register_name_to_index(reg)
-- 
2.43.0


From bd09e9a21efdadad3fc41945d26f7e930d8979ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:25 +0000
Subject: [PATCH 17/45] fix: writing an unknown register is an error

---
 cmdis/mock_cpu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 4025f9c..e2ad0a1 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -45,6 +45,9 @@ class MockCpuModelDelegate(CpuModelDelegate):
         return self._regs[self._banked_register(reg)]
 
     def write_register(self, reg, value):
+        if reg not in self._regs:
+            raise KeyError("unknown register %s" % reg)
+
         # Registers are 32 bits wide.
         value = value & 0xffffffff
 
-- 
2.43.0


From e7980cae83ca2235fa0a5357036092a386c501b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:31 +0000
Subject: [PATCH 18/45] fix: cpu.s[n] reads register sn, and negative register
 indices are rejected

---
 cmdis/model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index f5c0b7a..7b351ac 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -30,16 +30,16 @@ class RegistersInterface(object):
         self._last = last
 
     def __getitem__(self, key):
-        index = self._first + key
-        if self._first + index > self._last:
-            raise KeyError("out of range register index %d" % key)
-        return self._cpu.read_register(self._first + index)
+        return self._cpu.read_register(self._register_index(key))
 
     def __setitem__(self, key, value):
+        self._cpu.write_register(self._register_index(key), value)
+
+    def _register_index(self, key):
         index = self._first + key
-        if index > self._last:
+        if not (self._first <= index <= self._last):
             raise KeyError("out of range register index %d" % key)
-        self._cpu.write_register(index, value)
+        return index
 
 class ApsrAlias(object):
     N_BIT = 31
-- 
2.43.0


From ad566afaaa219cc848fd4ef9a53ccbcc26b5165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:36 +0000
Subject: [PATCH 19/45] fix: byte reads return an integer and byte writes keep
 the low eight bits

---
 cmdis/mock_cpu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index e2ad0a1..bf24e5c 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -70,7 +70,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         mem, offset = self._find_mem(addr)
         if mem:
             if size == 8:
-                return mem.data[offset:offset+1]
+                return mem.data[offset]
             elif size == 16:
                 return bytes_to_le16(mem.data[offset:offset+2])
             elif size == 32:
@@ -81,7 +81,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         mem, offset = self._find_mem(addr)
         if mem:
             if size == 8:
-                mem.data[offset:offset+1] = [value]
+                mem.data[offset] = value & 0xff
             elif size == 16:
                 mem.data[offset:offset+2] = le16_to_bytes(value)
             elif size == 32:
-- 
2.43.0


From 4bdb069d9df633a88ca9e4f03749b665f788e927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 20/45] fix: memory accesses that run past the end of a region

---
 cmdis/mock_cpu.py | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index bf24e5c..6b0d890 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -18,7 +18,6 @@ from collections import namedtuple
 
 from .model import CpuModelDelegate
 from .registers import CORE_REGISTER
-from .utilities import (bytes_to_le16, bytes_to_le32, le16_to_bytes, le32_to_bytes)
 
 MemBuffer = namedtuple('MemBuffer', 'start end data')
 
@@ -67,34 +66,38 @@ class MockCpuModelDelegate(CpuModelDelegate):
         return None, 0
 
     def read_memory(self, addr, size=32):
-        mem, offset = self._find_mem(addr)
-        if mem:
-            if size == 8:
-                return mem.data[offset]
-            elif size == 16:
-                return bytes_to_le16(mem.data[offset:offset+2])
-            elif size == 32:
-                return bytes_to_le32(mem.data[offset:offset+4])
-        return 0
+        # An access can run past the end of a region, so each byte is looked up.
+        value = 0
+        for i in range(size // 8):
+            mem, offset = self._find_mem(addr + i)
+            if mem:
+                value |= mem.data[offset] << (i * 8)
+        return value
 
     def write_memory(self, addr, value, size=32):
-        mem, offset = self._find_mem(addr)
-        if mem:
-            if size == 8:
-                mem.data[offset] = value & 0xff
-            elif size == 16:
-                mem.data[offset:offset+2] = le16_to_bytes(value)
-            elif size == 32:
-                mem.data[offset:offset+4] = le32_to_bytes(value)
+        for i in range(size // 8):
+            mem, offset = self._find_mem(addr + i)
+            if mem:
+                mem.data[offset] = (value >> (i * 8)) & 0xff
 
     def write_memory_block(self, addr, data):
+        # Stop at the end of the region, unless another one follows directly.
         mem, offset = self._find_mem(addr)
-        if mem:
-            mem.data[offset:offset+len(data)] = data
+        while mem and len(data):
+            chunk = data[:len(mem.data) - offset]
+            mem.data[offset:offset+len(chunk)] = chunk
+            data = data[len(chunk):]
+            addr = addr + len(chunk)
+            mem, offset = self._find_mem(addr)
 
     def read_memory_block(self, addr, length):
         mem, offset = self._find_mem(addr)
         if mem:
-            return bytearray(mem.data[offset:offset+length])
+            data = bytearray(mem.data[offset:offset+length])
+            while mem and len(data) < length:
+                mem, offset = self._find_mem(addr + len(data))
+                if mem:
+                    data += mem.data[offset:offset+length-len(data)]
+            return data
 
 
-- 
2.43.0


From 07b4b42040127d2ab734eeb3d7942fdea7362f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:36 +0000
Subject: [PATCH 21/45] fix: extending a bitstring to its own width returns a
 new object

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index b5207d5..3408691 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -309,7 +309,7 @@ class bitstring(object):
         if width < self._width:
             raise ValueError("new width is smaller than current")
         elif width == self._width:
-            return self
+            return bitstring(self)
         w1 = self._width - 1
         s = (self._value >> w1) & 1
         d = width - self._width
@@ -320,7 +320,7 @@ class bitstring(object):
         if width < self._width:
             raise ValueError("new width is smaller than current")
         elif width == self._width:
-            return self
+            return bitstring(self)
         return bitstring(self, width)
 
     def invert(self):
-- 
2.43.0


From a74da635d1165222bc96aea49a328a4e80f88877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:41 +0000
Subject: [PATCH 22/45] fix: concatenating a bitstring in place with itself

---
 cmdis/bitstring.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 3408691..9c785e7 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -477,9 +477,11 @@ class bitstring(object):
 
     def __imod__(self, other):
         if isinstance(other, bitstring):
+            # The other object may be this one.
+            value = (self._value << other._width) | other._value
             self._width += other._width
             self._mask = (1 << self._width) - 1
-            self._value = (self._value << other._width) | other._value
+            self._value = value
             return self
         elif isinstance(other, six.string_types):
             return self.__imod__(bitstring(other))
-- 
2.43.0


From fae99495fc2895bc24855852990bda8164a0dc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:45 +0000
Subject: [PATCH 23/45] fix: bitstring(1 << 32) lost its only set bit

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 9c785e7..8cc098a 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -33,7 +33,7 @@ class bitstring(object):
             self._value = val._value
         elif isinstance(val, six.integer_types):
             # Integer.
-            self._width = 64 if (val > (1 << 32)) else 32
+            self._width = 64 if (val >= (1 << 32)) else 32
             self._value = val
         elif isinstance(val, six.string_types):
             # String.
-- 
2.43.0


From e88a0e5979e9857a6dbd12e975e4c640cee0b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:50 +0000
Subject: [PATCH 24/45] fix: bitstring(bytearray) takes little endian bytes

---
 cmdis/bitstring.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 8cc098a..cc1250d 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -39,17 +39,17 @@ class bitstring(object):
             # String.
             self._width = len(val)
             self._value = int(val, base=2)
-        elif isinstance(val, collections.Sequence):
-            # Iterable.
-            # TODO support iterables of '0','1' as well as ints
-            self._width = len(val)
-            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         elif isinstance(val, bytearray):
-            # Little endian byte array.
+            # Little endian byte array. (A bytearray is also a sequence.)
             self._width = len(val) * 8
             self._value = 0
             for i,b in enumerate(val):
                 self._value |= b << (i * 8)
+        elif isinstance(val, collections.Sequence):
+            # Iterable.
+            # TODO support iterables of '0','1' as well as ints
+            self._width = len(val)
+            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         else:
             raise TypeError("value type is not supported")
 
-- 
2.43.0


From fd93f1e234519b0eb0a1356dc0f05a99a49fbe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:54 +0000
Subject: [PATCH 25/45] fix: ASR by zero used an undefined name

---
 cmdis/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/helpers.py b/cmdis/helpers.py
index 30c1278..1809071 100644
--- a/cmdis/helpers.py
+++ b/cmdis/helpers.py
@@ -76,7 +76,7 @@ def ASR_C(x, shift):
 def ASR(x, shift):
     assert shift >= 0
     if shift == 0:
-        result = c
+        result = x
     else:
         result, _ = ASR_C(x, shift)
     return result
-- 
2.43.0


From 17986547d24ddc50fe40bfa41825d2e067b5e8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:59 +0000
Subject: [PATCH 26/45] fix: byteListToU32leList on Python 3

---
 cmdis/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 941a8eb..ea5e34b 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -49,7 +49,7 @@ def le32_to_bytes(value, offset=0):
 def byteListToU32leList(data):
     """Convert a list of bytes to a list of 32-bit integers (little endian)"""
     res = []
-    for i in range(len(data) / 4):
+    for i in range(len(data) // 4):
         res.append(data[i * 4 + 0] |
                    data[i * 4 + 1] << 8 |
                    data[i * 4 + 2] << 16 |
-- 
2.43.0


From a146a24a6d2bfb250fd1982a413735ac06d40027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:44 +0000
Subject: [PATCH 27/45] fix: labels show the address that the instruction
 really reaches

---
 cmdis/formatter.py    | 13 +++++++++----
 cmdis/instructions.py |  5 +++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index b509696..de57597 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -16,7 +16,7 @@
 
 from .utilities import bytes_to_le16
 from .registers import CORE_REGISTER_NAMES
-from .helpers import SRType
+from .helpers import (SRType, Align)
 
 class Operand(object):
     def format(self, formatter):
@@ -80,15 +80,20 @@ class ImmediateOperand(Operand):
         return "#%d" % self._imm
 
 class LabelOperand(Operand):
-    def __init__(self, offset):
+    def __init__(self, offset, alignment=1):
         self._offset = offset
+        self._alignment = alignment
 
     def format(self, formatter):
+        # The offset is relative to the PC, which some instructions align first.
+        address = formatter.instruction.address
+        label = Align(address + 4, self._alignment) + self._offset
+
         # Add a comment with the absolute address of the label.
-        comment = "0x%x" % (formatter.instruction.address + 4 + self._offset)
+        comment = "0x%x" % (label & 0xffffffff)
         formatter.add_comment(comment)
 
-        return ".%+d" % (self._offset + 4)
+        return ".%+d" % (label - address)
 
 class ShiftRotateOperand(Operand):
     OP_NAMES = ["None",
diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index e820dbb..bc38410 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -266,14 +266,15 @@ def adr_t1(i, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (imm8 % '00').zero_extend(32)
     i.add = True
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned, alignment=4)]
 
 @instr("adr.w", AddressToRegister, "11110 im 10101 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=False)
 @instr("adr.w", AddressToRegister, "11110 im 10000 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=True)
 def adr_t2(i, im, imm3, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (im % imm3 % imm8).zero_extend(32)
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    offset = i.imm32.unsigned if i.add else -i.imm32.unsigned
+    i.operands = [RegisterOperand(i.d), LabelOperand(offset, alignment=4)]
 
 # ------------------------------ Sign/unsigned extend instructions ------------------------------
 
-- 
2.43.0


From 1d3680dd54a009bb8e5840997345fe31d1ed33aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:50 +0000
Subject: [PATCH 28/45] fix: msr shows the _nzcvqg suffix

---
 cmdis/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index de57597..ead9954 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -153,7 +153,7 @@ class CpsOperand(Operand):
         return result
 
 class SpecialRegisterOperand(Operand):
-    def __init__(self, spec, mask=-1):
+    def __init__(self, spec, mask=None):
         self._spec = spec
         self._mask = mask
 
@@ -176,7 +176,7 @@ class SpecialRegisterOperand(Operand):
                 result = "EPSR"
             elif lower == '111':
                 result = "IEPSR"
-            if lower < 4 and self._mask != -1:
+            if lower < 4 and self._mask is not None:
                 if self._mask == '10':
                     result += '_nzcvq'
                 elif self._mask == '01':
-- 
2.43.0


From 9c218802e7dbed3cd8ae6e9ea3537230983e38f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:55 +0000
Subject: [PATCH 29/45] fix: bit fields that end at bit 0

---
 cmdis/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index ea5e34b..66df0ad 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -139,13 +139,13 @@ def invert32(value):
 
 ## @brief Extract a value from a bitfield.
 def bfx(value, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     return (value & mask) >> lsb
 
 ## @brief Change a bitfield value.
 def bfi(value, field, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     value &= ~mask
     value |= (field << lsb) & mask
-- 
2.43.0


From 6c88edc32178a7464a45321c587acb347343c1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:09 +0000
Subject: [PATCH 30/45] fix: float conversions use an unimported module

---
 cmdis/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 66df0ad..63fadd2 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -14,6 +14,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import struct
+
 ## @brief Compute the hamming weight, or number of 1s, of the argument.
 def hamming_weight(v):
     weight = 0
-- 
2.43.0


From 62d88685807bcc09ee28704da81bedefafdf5682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:15 +0000
Subject: [PATCH 31/45] fix: dumping the decoder tree on Python 3

---
 cmdis/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index b17a4e6..53a0ef4 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -199,7 +199,7 @@ class DecoderTree(object):
                 for i,d in enumerate(nodes):
                     print("  " * (depth + 1), i, ":", d)
             else:
-                for i,k in enumerate(nodes.iterkeys()):
+                for i,k in enumerate(nodes):
                     print("  " * (depth + 1), i, ":", hex(k))
                     self.dump(nodes[k], depth+2)
 
-- 
2.43.0


From 86979b690a99fb9d36b6df91fdd09dd4bb35a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:30 +0000
Subject: [PATCH 32/45] fix: the console starts without an image file on Python
 3

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 6007024..9be084c 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -358,7 +358,7 @@ class SimTool(object):
                 finally:
                     self.args.binary_file.close()
             else:
-                self.binary_data = ''
+                self.binary_data = b''
 
             # Set logging level
             self.configure_logging()
-- 
2.43.0


From f5509c64308fc31d03c07ba7376e656950e1a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:42 +0000
Subject: [PATCH 33/45] fix: the reset command takes one argument list like
 other commands

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 9be084c..aa99572 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -411,7 +411,7 @@ class SimTool(object):
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-    def handle_reset(self, args, other):
+    def handle_reset(self, args):
         self.reset_sim()
 
     @cmdoptions([make_option('-c', "--center", action="store_true")])
-- 
2.43.0


From 6e6ad723b337d3c9edd36f15eea8f6871146b727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:53 +0000
Subject: [PATCH 34/45] fix: write16 and write32 store values above 255

---
 cmdis/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index aa99572..ed7ecc7 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -484,10 +484,10 @@ class SimTool(object):
             print "Error: no data for write"
             return 1
         else:
-            data = bytearray(self.convert_value(d) for d in args[1:])
+            data = [self.convert_value(d) for d in args[1:]]
 
         if width == 8:
-            pass
+            data = bytearray(data)
         elif width == 16:
             data = bytearray(cmdis.utilities.u16leListToByteList(data))
         elif width == 32:
-- 
2.43.0


From 954293d62284dd05bf6a458ee17b86841e691386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 35/45] fix: an empty line repeats every command of the last
 line

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index ed7ecc7..aa77f5e 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -195,7 +195,7 @@ class SimConsole(object):
                         self.process_command_line(line)
                         self.last_command = line
                     elif self.last_command:
-                        self.process_command(self.last_command)
+                        self.process_command_line(self.last_command)
                 except KeyboardInterrupt:
                     print
         except EOFError:
-- 
2.43.0


From 7d1a4094cafe4ea7eaee8fe34a32d9a82db6c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 36/45] fix: empty commands and spaces before $ in a command
 line

---
 cmdis/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index aa77f5e..ac12788 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -210,7 +210,11 @@ class SimConsole(object):
 
     def process_command(self, cmd):
         try:
-            if (cmd.strip())[0] == '$':
+            cmd = cmd.strip()
+            if not cmd:
+                return
+
+            if cmd[0] == '$':
                 cmd = cmd[1:].strip()
                 self.tool.handle_python(cmd)
                 return
-- 
2.43.0


From 767922e414b723b0068bee277c7e5ae9a99dd6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 37/45] fix: disasm prints what it decoded before an
 undecodable instruction

---
 cmdis/__main__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index ac12788..02e1691 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -616,6 +616,7 @@ class SimTool(object):
 
         addrLine = 0
         text = ''
+        error = None
         try:
             for i in dis.disasm(code, startAddr):
                 pc_marker = '*' if (pc == i.address) else ' '
@@ -626,10 +627,13 @@ class SimTool(object):
 #                     hexBytes += '%02x' % b
 #                 text += "{addr:#010x}:{pc_marker} {bytes:<10}{mnemonic:<8}{args}\n".format(addr=i.address, pc_marker=pc_marker, bytes=hexBytes, mnemonic=i.mnemonic, args=i.op_str)
         except cmdis.decoder.UndefinedInstructionError:
-            print "Undefined instruction"
-        if text[-1] == '\n':
-            text = text[:-1]
-        print text
+            error = "Undefined instruction"
+        except cmdis.decoder.UnpredictableError:
+            error = "Unpredictable instruction"
+        if error:
+            print error
+        if text:
+            print text.rstrip('\n')
 
 
 def main():
-- 
2.43.0


From d5faeea16037c81c4655f3ecdfef41991773cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:38 +0000
Subject: [PATCH 38/45] fix: step depends only on the instruction at PC

---
 cmdis/__main__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 02e1691..ee155c7 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -507,21 +507,22 @@ class SimTool(object):
 
         try:
             code = self.cpu.read_memory_block(pc, 4)
-            ilist = [i for i in dis.disasm(code, pc)]
 
-            if not len(ilist):
+            # Only use the first instruction. What follows it may not even be code.
+            i = next(iter(dis.disasm(code, pc)), None)
+
+            if i is None:
                 print "No instructions found!"
                 return
 
-            # Only use the first instruction.
-            i = ilist[0]
-
             print "{addr:#010x}:  {instr}".format(addr=i.address, instr=fmt.format(i))
 
             i.execute(self.cpu)
 
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
+        except cmdis.decoder.UnpredictableError:
+            print "Unpredictable instruction"
 
     def handle_memory_map(self, args):
         self.print_memory_map()
-- 
2.43.0


From d9b0877ec1f7de23bc2d50d0c6160a9ffa0d198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:49 +0000
Subject: [PATCH 39/45] fix: addresses in halfword and word dumps

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index ee155c7..d7e1d55 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -140,7 +140,7 @@ def hex_width(value, width):
 def dumpHexData(data, startAddress=0, width=8):
     i = 0
     while i < len(data):
-        print "%08x: " % (startAddress + i),
+        print "%08x: " % (startAddress + i * (width // 8)),
 
         while i < len(data):
             d = data[i]
-- 
2.43.0


From 623b5e4ba95e8802da17437ce28e7c45a0b4bbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:01 +0000
Subject: [PATCH 40/45] fix: read16 of an odd number of bytes

---
 cmdis/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 63fadd2..469c72b 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -78,7 +78,7 @@ def u16leListToByteList(data):
 def byteListToU16leList(byteData):
     """Convert a byte array into a halfword array"""
     data = []
-    for i in range(0, len(byteData), 2):
+    for i in range(0, len(byteData) - 1, 2):
         data.append(byteData[i] | (byteData[i + 1] << 8))
     return data
 
-- 
2.43.0


From f98de56a45aadc03ebc2dede7093c49d3ea788b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:13 +0000
Subject: [PATCH 41/45] fix: an invalid option of disasm ended the session

---
 cmdis/__main__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index d7e1d55..2100dcb 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -167,9 +167,14 @@ class ToolError(Exception):
 class ToolExitException(Exception):
     pass
 
+## @brief Option parser for commands, that doesn't exit from the tool if there is an error.
+class CommandOptionParser(optparse.OptionParser):
+    def error(self, msg):
+        raise ToolError(msg)
+
 def cmdoptions(opts):
     def process_opts(fn):
-        parser = optparse.OptionParser(add_help_option=False)
+        parser = CommandOptionParser(add_help_option=False)
         for opt in opts:
             parser.add_option(opt)
         def foo(inst, args):
-- 
2.43.0


From 23a810b8cdf2f8720466f53b5a6c525f0cd52a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:23 +0000
Subject: [PATCH 42/45] fix: wreg rejects unknown registers

---
 cmdis/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 2100dcb..3b46f95 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -417,6 +417,8 @@ class SimTool(object):
             raise ToolError("No value specified")
 
         reg = args[0].lower()
+        if reg not in cmdis.registers.CORE_REGISTER:
+            raise ToolError("invalid register '%s'" % (reg))
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-- 
2.43.0


From 1144c8d9b0aa5d88f66350b222b683729a199798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:33 +0000
Subject: [PATCH 43/45] fix: console reads of unmapped or partly mapped memory

---
 cmdis/__main__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 3b46f95..eeecdc1 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -442,7 +442,7 @@ class SimTool(object):
         addr &= ~1
 
         # Print disasm of data.
-        data = self.cpu.read_memory_block(addr, count)
+        data = self.read_block(addr, count)
         self.print_disasm(data, addr)
 
     def handle_read8(self, args):
@@ -463,6 +463,12 @@ class SimTool(object):
     def handle_write32(self, args):
         return self.do_write(args, 32)
 
+    def read_block(self, addr, count):
+        data = self.cpu.read_memory_block(addr, count)
+        if data is None:
+            raise ToolError("no memory at address 0x%08x" % addr)
+        return data
+
     def do_read(self, args, width):
         if len(args) == 0:
             print "Error: no address specified"
@@ -474,13 +480,13 @@ class SimTool(object):
             count = self.convert_value(args[1])
 
         if width == 8:
-            data = self.cpu.read_memory_block(addr, count)
+            data = self.read_block(addr, count)
             byteData = data
         elif width == 16:
-            byteData = self.cpu.read_memory_block(addr, count)
+            byteData = self.read_block(addr, count)
             data = cmdis.utilities.byteListToU16leList(byteData)
         elif width == 32:
-            byteData = self.cpu.read_memory_block(addr, count)
+            byteData = self.read_block(addr, count)
             data = cmdis.utilities.byteListToU32leList(byteData)
 
         # Print hex dump of output.
@@ -513,7 +519,7 @@ class SimTool(object):
         fmt = cmdis.formatter.Formatter(self.cpu)
 
         try:
-            code = self.cpu.read_memory_block(pc, 4)
+            code = self.read_block(pc, 4)
 
             # Only use the first instruction. What follows it may not even be code.
             i = next(iter(dis.disasm(code, pc)), None)
@@ -586,7 +592,7 @@ class SimTool(object):
             value = int(arg, base=0)
 
         if deref:
-            value = cmdis.utilities.bytes_to_le32(self.cpu.read_memory_block(value + offset, 4))
+            value = self.cpu.read32(value + offset).unsigned
             print "[%s,%d] = 0x%08x" % (arg, offset, value)
 
         return value
-- 
2.43.0


From c863a70d8e4283e713f34174263a38afe1b54ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:29 +0000
Subject: [PATCH 44/45] fix: assign a bitstring to a slice of itself

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index cc1250d..cbacded 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -268,8 +268,8 @@ class bitstring(object):
             elif not isinstance(value, bitstring):
                 raise TypeError("value must be a bitstring, integer, or string")
             mask = (((1 << (stop - start)) - 1) << start)
-            self._value &= ~mask
-            self._value |= (value.unsigned << start) & mask
+            # The value may be this object.
+            self._value = (self._value & ~mask) | ((value.unsigned << start) & mask)
             return
 
         if not isinstance(key, six.integer_types):
-- 
2.43.0


From 25495f353f5b2ab9204273d41f7954049cebdf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:00 +0000
Subject: [PATCH 45/45] fix: block accesses honour overlapping regions

---
 cmdis/mock_cpu.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 6b0d890..fc27b2b 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -65,6 +65,22 @@ class MockCpuModelDelegate(CpuModelDelegate):
                 return m, addr - m.start
         return None, 0
 
+    ## @brief Find the region holding an address, and how far an access may continue in it.
+    #
+    # Where regions overlap, the one added first holds the bytes.
+    def _find_run(self, addr):
+        mem, offset = self._find_mem(addr)
+        end = None
+        if mem:
+            end = mem.end + 1
+            for m in self._mem:
+                if m is mem:
+                    break
+                if addr < m.start < end:
+                    end = m.start
+            end -= mem.start
+        return mem, offset, end
+
     def read_memory(self, addr, size=32):
         # An access can run past the end of a region, so each byte is looked up.
         value = 0
@@ -82,22 +98,21 @@ class MockCpuModelDelegate(CpuModelDelegate):
 
     def write_memory_block(self, addr, data):
         # Stop at the end of the region, unless another one follows directly.
-        mem, offset = self._find_mem(addr)
+        mem, offset, end = self._find_run(addr)
         while mem and len(data):
-            chunk = data[:len(mem.data) - offset]
+            chunk = data[:end - offset]
             mem.data[offset:offset+len(chunk)] = chunk
             data = data[len(chunk):]
             addr = addr + len(chunk)
-            mem, offset = self._find_mem(addr)
+            mem, offset, end = self._find_run(addr)
 
     def read_memory_block(self, addr, length):
-        mem, offset = self._find_mem(addr)
+        mem, offset, end = self._find_run(addr)
         if mem:
-            data = bytearray(mem.data[offset:offset+length])
+            data = bytearray(mem.data[offset:min(end, offset+length)])
             while mem and len(data) < length:
-                mem, offset = self._find_mem(addr + len(data))
+                mem, offset, end = self._find_run(addr + len(data))
                 if mem:
-                    data += mem.data[offset:offset+length-len(data)]
+                    data += mem.data[offset:min(end, offset+length-len(data))]
             return data
 
-
-- 
2.43.0

