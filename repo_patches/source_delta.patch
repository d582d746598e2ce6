From c1e6161f81928004f7c2b9b3e6d4d646dfc88ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 01/63] fix: quoted operator characters are literals, not
 formulas

---
 necroassembler/assembler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 5008b15..68869cb 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -309,7 +309,7 @@ class Assembler:
 
     def _internal_parse_integer(self, token):
         # first check for an ascii char
-        if token[0] == '\'' and token[2] == '\'':
+        if token[0] == '\'' and len(token) == 3 and token[2] == '\'':
             return ord(token[1:2]), False
 
         for prefix in self.hex_prefixes:
@@ -840,9 +840,12 @@ class Assembler:
 
         in_math = False
         valid_chars = 0
-        for char in token[len(pre_formula):]:
+        term = token[len(pre_formula):]
+        # the character inside a char literal is never an operator
+        literal_end = 3 if term[0:1] == '\'' and term[2:3] == '\'' else 0
+        for index, char in enumerate(term):
             if not in_math:
-                if char in ('+', '-', '*', '/', '&', '|'):
+                if index >= literal_end and char in ('+', '-', '*', '/', '&', '|'):
                     if valid_chars < 1:
                         break
                     in_math = True
-- 
2.43.0


From dc11030345043b3e622b327ac74667a8e944af37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 02/63] fix: a text operand pattern matches only that text, not
 its single characters

LD (C),A had relied on the pattern '$FF00+C' also matching its letter C.
---
 necroassembler/cpu/lr35902.py | 2 +-
 necroassembler/statements.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 4077be7..3ea6058 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -100,7 +100,7 @@ class AssemblerLR35902(Assembler):
                 condition, = instr.apply(self._reg_name)
                 return pack_byte(kwargs[condition])
 
-            if instr.match('(', '$FF00+C', ')', 'A') or instr.match('[', '$FF00+C', ']', 'A'):
+            if instr.match('(', ('$FF00+C', 'C'), ')', 'A') or instr.match('[', ('$FF00+C', 'C'), ']', 'A'):
                 return pack_byte(kwargs['ind_c_a'])
 
             if instr.match('(', LDH, ')', 'A') or instr.match('[', LDH, ']', 'A'):
diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 68299cb..13e20d4 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -71,7 +71,7 @@ class Instruction(Statement):
                 if isinstance(pattern, str):
                     if self.tokens[index + start].upper() == pattern.upper():
                         continue
-                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
+                elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False
         return True
@@ -89,7 +89,7 @@ class Instruction(Statement):
                 if isinstance(pattern, str):
                     if self.tokens[index + start].upper() == pattern.upper():
                         continue
-                if any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
+                elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False, None
         return True, start+index+1
-- 
2.43.0


From 0e6b5036406c35d864b8a7670fa7fd1c45f95437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 03/63] fix: 6502 branches take exactly one operand

---
 necroassembler/cpu/mos6502.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/cpu/mos6502.py b/necroassembler/cpu/mos6502.py
index 443ca53..1a76b9b 100644
--- a/necroassembler/cpu/mos6502.py
+++ b/necroassembler/cpu/mos6502.py
@@ -84,6 +84,8 @@ class AssemblerMOS6502(Assembler):
         self.register_instruction('PLP', b'\x28')
 
     def _manage_branching(self, instr, code):
+        if len(instr.tokens) != 2:
+            raise InvalidMode()
         arg = instr.tokens[1]
         address = self.parse_integer_or_label(
             label=arg, bits_size=8,
-- 
2.43.0


From 6cfe8dcc97cfa667685f085abf524323e0ffc4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 04/63] fix: unbound_match accepts an empty pattern list

---
 necroassembler/statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 13e20d4..a3e38e6 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -92,7 +92,7 @@ class Instruction(Statement):
                 elif any([self.tokens[index + start].upper() == x.upper() for x in pattern]):
                     continue
             return False, None
-        return True, start+index+1
+        return True, start+len(args)
 
     def apply(self, *args, start=1):
         out = []
-- 
2.43.0


From 16aa7475b52b438d853cbebe46982b558ece7e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 05/63] fix: labels that look like malformed numbers are
 reported as invalid labels

---
 necroassembler/statements.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index a3e38e6..0912fcb 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -111,7 +111,12 @@ class Label(Statement):
             raise LabelAlreadyDefined(self)
         if not is_valid_name(key):
             raise InvalidLabel(self)
-        if assembler.parse_integer(key, 64, False) is not None:
+        try:
+            number = assembler.parse_integer(key, 64, False)
+        except Exception:
+            # it looks like a number, but it is a malformed (or too big) one
+            raise InvalidLabel(self) from None
+        if number is not None:
             raise InvalidLabel(self)
         assembler.labels[key] = {
             'base': assembler.org_counter,
-- 
2.43.0


From 7d5dc7625a62a65010dd5eaf2ad6794ee5e2c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 06/63] fix: a label without a name is reported, as an
 AssemblerException

---
 necroassembler/tokenizer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/necroassembler/tokenizer.py b/necroassembler/tokenizer.py
index bb2b5d0..44ae4f3 100644
--- a/necroassembler/tokenizer.py
+++ b/necroassembler/tokenizer.py
@@ -1,13 +1,15 @@
 '''Exposes the assembly source code tokenization features'''
+from necroassembler.exceptions import AssemblerException
 from necroassembler.statements import Instruction, Directive, Label
 
 
-class InvalidLabel(Exception):
-    '''Raised when a label is specified after other tokens'''
+class InvalidLabel(AssemblerException):
+    '''Raised when a label is empty or specified after other tokens'''
+
+    message = 'invalid label'
 
     def __init__(self, tokenizer):
-        super().__init__(
-            'invalid label at line {0}'.format(tokenizer.line))
+        super().__init__('at line {0}'.format(tokenizer.line))
 
 
 class Tokenizer:
@@ -87,10 +89,9 @@ class Tokenizer:
         self.current_token = ''
 
     def _token_colon(self):
-        if self.tokens:
+        if self.tokens or not self.current_token:
             raise InvalidLabel(self)
-        if self.current_token:
-            self.tokens.append(self.current_token)
+        self.tokens.append(self.current_token)
         self.statements.append(
             Label(self.tokens, self.line, self.context))
         self.state = self._state_token
-- 
2.43.0


From 2d8dcd45e435eb66794245b21b8678c817f8da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 07/63] fix: a relative label whose base address is 0 is still
 relative

---
 necroassembler/assembler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 68869cb..17e4f39 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -221,7 +221,7 @@ class Assembler:
         for address in self.labels_addresses:
             data = self.labels_addresses[address]
             label = data.label
-            is_relative = data.relative != 0
+            is_relative = data.relative is not None
 
             absolute_address = self.get_label_absolute_address_by_name(label)
             if not is_relative:
@@ -297,7 +297,7 @@ class Assembler:
     def add_label_translation(self, label,
                               size, bits_size,
                               offset=0, alignment=1, bits=None, filter=None,
-                              relative=0, hook=None):
+                              relative=None, hook=None):
         index = len(self.assembled_bytes) + offset
         label_data = LabelData(label, size, bits_size, relative)
         label_data.offset = offset
@@ -381,10 +381,10 @@ class Assembler:
         return value
 
     def parse_integer_or_label(self, label,
-                               size, bits_size, relative=0,
+                               size, bits_size, relative=None,
                                offset=0, alignment=1, bits=None, filter=None,
                                hook=None, signed=False):
-        if relative != 0:
+        if relative is not None:
             signed = True
         value = self.parse_integer(label, bits_size, signed)
         # label ?
-- 
2.43.0


From 65a98be5ffdf700bdebb624cc7c171af5e761d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 08/63] fix: the last byte of an .org region is filled too

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 17e4f39..4f529e4 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -198,7 +198,7 @@ class Assembler:
 
         # check if we need to fill something
         if self.current_org_end > 0:
-            if self.current_org + self.org_counter < self.current_org_end:
+            if self.current_org + self.org_counter <= self.current_org_end:
                 blob = bytes([self.fill_value] * ((self.current_org_end + 1) -
                                                   (self.current_org + self.org_counter)))
                 self.append_assembled_bytes(blob)
-- 
2.43.0


From 4443c6211246d7ecb274d5c0fd763bd2811d4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 09/63] fix: the end of an included file does not fill the
 region of the including one

---
 necroassembler/assembler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 4f529e4..7d789fd 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -181,7 +181,7 @@ class Assembler:
             raise NotInMacroRecordingMode(instr)
         self.macro_recording = None
 
-    def assemble(self, code, context=None):
+    def assemble(self, code, context=None, included=False):
         tokenizer = Tokenizer(context=context)
         tokenizer.parse(code)
 
@@ -196,6 +196,10 @@ class Assembler:
                     print('assembled {0} -> ({1}) at 0x{2:x}'.format(statement,
                                                                      ','.join(['0x{0:02x}'.format(x) for x in self.assembled_bytes[current_index:]]), current_index))
 
+        # an included file does not end the current region
+        if included:
+            return
+
         # check if we need to fill something
         if self.current_org_end > 0:
             if self.current_org + self.org_counter <= self.current_org_end:
@@ -734,7 +738,7 @@ class Assembler:
             raise InvalidArgumentsForDirective(instr)
         filename = self.stringify(instr.tokens[1])
         with open(filename) as f:
-            self.assemble(f.read(), context=filename)
+            self.assemble(f.read(), context=filename, included=True)
 
     def directive_incbin(self, instr):
         if len(instr.tokens) != 2:
-- 
2.43.0


From f4465fe6de56711dbf0d8433ca1cf49fc6651e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 10/63] fix: .goto compares its address with the location
 counter

---
 necroassembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 7d789fd..c7fae38 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -615,7 +615,7 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.pc:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
-- 
2.43.0


From 1ebf3e600cbc5d12a6ceae21c5fb13895b5bf24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 11/63] fix: .upto compares its offset with the bytes of the
 current origin

---
 necroassembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index c7fae38..33be573 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -631,14 +631,14 @@ class Assembler:
         offset = self.parse_integer(instr.tokens[1], 64, False)
         if offset is None:
             raise InvalidArgumentsForDirective(instr)
-        if offset < len(self.assembled_bytes):
+        if offset < self.org_counter:
             raise AddressOverlap(instr)
         value = self.fill_value
         if len(instr.tokens) == 3:
             value = self.parse_integer(instr.tokens[2], 8, False)
             if value is None:
                 raise InvalidArgumentsForDirective(instr)
-        blob = bytes([value] * (offset - (self.pc - self.current_org)))
+        blob = bytes([value] * (offset - self.org_counter))
         self.append_assembled_bytes(blob)
 
     def directive_ram(self, instr):
-- 
2.43.0


From 2b9bc999ae8d347fd1492406c83ae330005797d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 12/63] fix: labels used inside a .repeat block are resolved in
 every copy

---
 necroassembler/assembler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 33be573..6f82660 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -1,3 +1,4 @@
+import copy
 from necroassembler.tokenizer import Tokenizer
 from necroassembler.utils import (pack_byte, pack_le32u, pack_le16u,
                                   pack_be32u, pack_be16u, in_bit_range,
@@ -679,7 +680,15 @@ class Assembler:
         size, index = self.repeat
         self.repeat = None
         blob = self.assembled_bytes[index:]
-        for i in range(0, size-1):
+        # labels used by the repeated block have to be resolved in each copy
+        labels = {address: data for address, data in self.labels_addresses.items()
+                  if address >= index}
+        for i in range(1, size):
+            for address, data in labels.items():
+                data = copy.copy(data)
+                if data.relative is not None:
+                    data.relative += len(blob) * i
+                self.labels_addresses[address + len(blob) * i] = data
             self.append_assembled_bytes(blob)
 
     def directive_db_to_ascii(self, instr):
-- 
2.43.0


From 9b3c3bdb2a2c9fe90d8fe62ea471a069761bd819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 13/63] fix: label operands written by a hook are range-checked
 like the others

---
 necroassembler/assembler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/assembler.py b/necroassembler/assembler.py
index 6f82660..041e1a1 100644
--- a/necroassembler/assembler.py
+++ b/necroassembler/assembler.py
@@ -240,10 +240,6 @@ class Assembler:
                     self, address, data)
                 absolute_address = true_address
 
-            if data.hook:
-                data.hook(address, true_address)
-                continue
-
             if absolute_address % data.alignment != 0:
                 raise AlignmentError(label)
 
@@ -256,6 +252,10 @@ class Assembler:
             if not in_bit_range_decimal(true_address, total_bits, signed=is_relative):
                 raise NotInBitRange(true_address, total_bits, label)
 
+            if data.hook:
+                data.hook(address, true_address)
+                continue
+
             if data.filter:
                 true_address = data.filter(true_address)
 
-- 
2.43.0


From e715afdddc442a0b509926b7b2948c2fe4100f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 14/63] fix: a define can be defined again

---
 necroassembler/statements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index 0912fcb..e7e5748 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -126,11 +126,12 @@ class Label(Statement):
 
 class Directive(Statement):
     def assemble(self, assembler):
-        # skip directive for defines substitution
-        substitute_with_dict(self.tokens, assembler.defines, 1)
         key = self.tokens[0][1:]
         if not assembler.case_sensitive:
             key = key.upper()
+        # skip directive (and the name it defines) for defines substitution
+        start = 2 if key.upper() == 'DEFINE' else 1
+        substitute_with_dict(self.tokens, assembler.defines, start)
         if not key in assembler.directives:
             raise UnknownDirective(self)
         assembler.directives[key](self)
-- 
2.43.0


From a9b9fd4894f04ea37cb88481347a4c5c16265410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 15/63] fix: missing macro arguments are reported with their
 line

---
 necroassembler/statements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/necroassembler/statements.py b/necroassembler/statements.py
index e7e5748..071157a 100644
--- a/necroassembler/statements.py
+++ b/necroassembler/statements.py
@@ -32,6 +32,8 @@ class Instruction(Statement):
 
         if key in assembler.macros:
             macro = assembler.macros[key]
+            if len(self.tokens) - 1 < len(macro.args):
+                raise InvalidOpCodeArguments(self)
             macro.assemble(assembler, self.tokens)
             return
 
-- 
2.43.0


From 545d2e375b98093b03b87ade1ccee27b00134399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 16/63] fix: a macro is not changed by a failed expansion

---
 necroassembler/macros.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/necroassembler/macros.py b/necroassembler/macros.py
index de0b661..2524ecf 100644
--- a/necroassembler/macros.py
+++ b/necroassembler/macros.py
@@ -32,7 +32,8 @@ class Macro:
             for macro_arg_index, macro_arg in enumerate(macro_args):
                 macro_dict[macro_arg] = args[macro_arg_index]
                 
-            substitute_with_dict(instr.tokens, macro_dict, 0)
-
-            instr.assemble(assembler)
-            instr.tokens = original_tokens
+            try:
+                substitute_with_dict(instr.tokens, macro_dict, 0)
+                instr.assemble(assembler)
+            finally:
+                instr.tokens = original_tokens
-- 
2.43.0


From 75d2e8bacdb3f163690e06da498457f72e7c2daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 17/63] fix: mips32 sub, or, xor, nor, mult and div call their
 encoders with the right arguments

---
 necroassembler/cpu/mips32.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 5d4b022..ee12bc9 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -191,27 +191,27 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('div')
     def _div(self, instr):
-        return self._div_mult(0b011010, instr)
+        return self._div_mult(instr, 0b011010)
 
     @opcode('divu')
     def _divu(self, instr):
-        return self._div_mult(0b011011, instr)
+        return self._div_mult(instr, 0b011011)
 
     @opcode('mult')
     def _mult(self, instr):
-        return self._div_mult(0b011000, instr)
+        return self._div_mult(instr, 0b011000)
 
     @opcode('multu')
     def _multu(self, instr):
-        return self._div_mult(0b011001, instr)
+        return self._div_mult(instr, 0b011001)
 
     @opcode('nor')
     def _nor(self, instr):
-        return self._arith_log(0b100111, instr)
+        return self._arith_log(instr, 0b100111)
 
     @opcode('or')
     def _or(self, instr):
-        return self._arith_log(0b100101, instr)
+        return self._arith_log(instr, 0b100101)
 
     @opcode('ori')
     def _ori(self, instr):
@@ -243,15 +243,15 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sub')
     def _sub(self, instr):
-        return self._arith_log(0b100010, instr)
+        return self._arith_log(instr, 0b100010)
 
     @opcode('subu')
     def _subu(self, instr):
-        return self._arith_log(0b100011, instr)
+        return self._arith_log(instr, 0b100011)
 
     @opcode('xor')
     def _xor(self, instr):
-        return self._arith_log(0b100110, instr)
+        return self._arith_log(instr, 0b100110)
 
     @opcode('xori')
     def _xori(self, instr):
-- 
2.43.0


From 30d540364c381ecd2174aee14510830c3d7ad7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 18/63] fix: mips32 sltu and sltiu have their own opcodes

---
 necroassembler/cpu/mips32.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index ee12bc9..49269fe 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -275,7 +275,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltu')
     def _sltu(self, instr):
-        return self._arith_log(instr, 0b101001)
+        return self._arith_log(instr, 0b101011)
 
     @opcode('slti')
     def _slti(self, instr):
@@ -283,7 +283,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('sltiu')
     def _sltiu(self, instr):
-        return self._arith_log_i(instr, 0b001001, False)
+        return self._arith_log_i(instr, 0b001011, False)
 
     @opcode('beq')
     def _beq(self, instr):
-- 
2.43.0


From fe698ab3fe718e817ba1172baf5bc79693bbc021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 19/63] fix: mips32 logical immediates are unsigned

---
 necroassembler/cpu/mips32.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 49269fe..7728abb 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -187,7 +187,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('andi')
     def _andi(self, instr):
-        return self._arith_log_i(instr, 0b001100, True)
+        return self._arith_log_i(instr, 0b001100, False)
 
     @opcode('div')
     def _div(self, instr):
@@ -215,7 +215,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('ori')
     def _ori(self, instr):
-        return self._arith_log_i(instr, 0b001101, True)
+        return self._arith_log_i(instr, 0b001101, False)
 
     @opcode('sll')
     def _sll(self, instr):
@@ -255,7 +255,7 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('xori')
     def _xori(self, instr):
-        return self._arith_log_i(instr, 0b001110, True)
+        return self._arith_log_i(instr, 0b001110, False)
 
     @opcode('lui')
     def _lui(self, instr):
-- 
2.43.0


From cee7ebed3f46a9d7ecae82d44f23928344fa784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 20/63] fix: mips32 jalr links in $ra

---
 necroassembler/cpu/mips32.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 7728abb..95ffd86 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -311,7 +311,10 @@ class AssemblerMIPS32(Assembler):
 
     @opcode('jalr')
     def _jalr(self, instr):
-        return self._jump_r(instr, 0b001001)
+        if instr.match(REGS):
+            rs, = instr.apply(_reg)
+            # the implicit link register is $ra
+            return self._build_opcode(0, ((25, 21), rs), ((15, 11), 31), ((5, 0), 0b001001))
 
     @opcode('jr')
     def _jr(self, instr):
-- 
2.43.0


From 7e8442fd5776841b13b03d52b44f909c0f95c64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 21/63] fix: mips32 branches to a misaligned target are
 rejected

---
 necroassembler/cpu/mips32.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/necroassembler/cpu/mips32.py b/necroassembler/cpu/mips32.py
index 95ffd86..5687c4a 100644
--- a/necroassembler/cpu/mips32.py
+++ b/necroassembler/cpu/mips32.py
@@ -1,6 +1,6 @@
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits, pack_le32u, pack_be32u
-from necroassembler.exceptions import LabelNotAllowed, NotInBitRange
+from necroassembler.exceptions import LabelNotAllowed, NotInBitRange, AlignmentError
 
 REGS_BASE = ('$0', '$1', '$2', '$3', '$4', '$5',
              '$6', '$7', '$8', '$9', '$10', '$11',
@@ -61,12 +61,16 @@ class AssemblerMIPS32(Assembler):
                                            size=4) >> 2
 
     def _rel_label(self, token):
-        return self.parse_integer_or_label(label=token,
-                                           bits_size=18,
-                                           bits=(15, 0),
-                                           filter=lambda x: x >> 2,
-                                           relative=self.pc + 4,
-                                           size=4) >> 2
+        value = self.parse_integer_or_label(label=token,
+                                            bits_size=18,
+                                            bits=(15, 0),
+                                            filter=lambda x: x >> 2,
+                                            relative=self.pc + 4,
+                                            alignment=4,
+                                            size=4)
+        if value % 4 != 0:
+            raise AlignmentError(token)
+        return value >> 2
 
     def _immediate32(self, high):
         def _high(token):
-- 
2.43.0


From a15761a2a4a0ea53ae3831a4fa223c33e0fbe700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 22/63] fix: LR35902 SP offsets are signed constants and belong
 to HL only

---
 necroassembler/cpu/lr35902.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/necroassembler/cpu/lr35902.py b/necroassembler/cpu/lr35902.py
index 3ea6058..6781d27 100644
--- a/necroassembler/cpu/lr35902.py
+++ b/necroassembler/cpu/lr35902.py
@@ -19,9 +19,14 @@ def _is_ldh(token):
     return token.startswith('$FF00+') and token != '$FF00+C'
 
 
+def _is_sp_offset(token):
+    return token.startswith('SP+') or token.startswith('SP-')
+
+
 VALUE = _is_value
 NUMBER = _is_number
 LDH = _is_ldh
+SP_OFFSET = _is_sp_offset
 
 
 class AssemblerLR35902(Assembler):
@@ -60,6 +65,13 @@ class AssemblerLR35902(Assembler):
                                             relative=self.pc + 2)
         return pack_8s(value)
 
+    def _sp_offset(self, arg):
+        value = self.parse_integer_or_label(label=arg, bits_size=8,
+                                            offset=1,
+                                            size=1,
+                                            signed=True)
+        return pack_8s(value)
+
     def _data16(self, arg):
         value = self.parse_integer_or_label(
             label=arg, bits_size=16, offset=1, size=2)
@@ -121,7 +133,7 @@ class AssemblerLR35902(Assembler):
 
             if instr.match(REGS16, VALUE):
                 if self._reg_name(instr.tokens[1]) + '_r8' in kwargs:
-                    reg16, value = instr.apply(self._reg_name, self._rel8)
+                    reg16, value = instr.apply(self._reg_name, self._sp_offset)
                     return pack_byte(kwargs[reg16 + '_r8']) + value
                 reg16, value = instr.apply(self._reg_name, self._data16)
                 return pack_byte(kwargs[reg16 + '_d16']) + value
@@ -206,14 +218,11 @@ class AssemblerLR35902(Assembler):
 
     @opcode('LD')
     def _ld(self, instr):
-        if len(instr.tokens) > 2:
-            value = None
-            if instr.tokens[2].startswith('SP+'):
-                value = self._rel8(instr.tokens[2][3:])
-            elif instr.tokens[2].startswith('SP-'):
-                value = self._rel8(instr.tokens[2][2:])
-            if value is not None:
-                return pack_byte(0xF8) + value
+        if instr.match('HL', SP_OFFSET):
+            offset = instr.tokens[2][2:]
+            if offset.startswith('+'):
+                offset = offset[1:]
+            return pack_byte(0xF8) + self._sp_offset(offset)
         return self._build_opcode(instr,
                                   bc_d16=0x01,
                                   ind_bc_a=0x02,
-- 
2.43.0


From c617923cac007eeb5765253bbc3106957491deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 23/63] fix: z80 loads of A from and to (IX+d) and (IY+d) are
 not taken for absolute ones

---
 necroassembler/cpu/z80.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 228e316..d11ea9b 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1288,7 +1288,10 @@ class Z80OpCode:
         self.add_variant(code, args)
 
     def _is_value(self, arg):
-        return arg.upper() not in REGS8+REGS16
+        return (
+            arg.upper() not in REGS8+REGS16 and
+            not self._is_index_x(arg) and
+            not self._is_index_y(arg))
 
     def _is_index_x(self, arg):
         return (
-- 
2.43.0


From 23b04dd876701c7c362cee9d2ef310ed159c102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 24/63] fix: z80 ld (ix+d), n emits both the displacement and
 the immediate

---
 necroassembler/cpu/z80.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index d11ea9b..5a715ba 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -1352,30 +1352,30 @@ class Z80OpCode:
 
     def add_variant(self, code, args):
         sanitized_args = []
-        hook = None
+        hooks = []
         for index, arg in enumerate(args):
             if arg == 'nn':
                 sanitized_args.append(self._is_value)
-                hook = self._build_nn, index
+                hooks.append((self._build_nn, index))
             elif arg == 'n':
                 sanitized_args.append(self._is_value)
-                hook = self._build_n, index
+                hooks.append((self._build_n, index))
             elif arg == 'e':
                 sanitized_args.append(self._is_value)
-                hook = self._build_e, index
+                hooks.append((self._build_e, index))
             elif arg == 'd':
                 sanitized_args.append(self._is_value)
-                hook = self._build_d, index
+                hooks.append((self._build_d, index))
             elif arg == 'IX+d':
                 sanitized_args.append(self._is_index_x)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             elif arg == 'IY+d':
                 sanitized_args.append(self._is_index_y)
-                hook = self._build_index, index
+                hooks.append((self._build_index, index))
             else:
                 sanitized_args.append(arg)
 
-        self.variants.append((code, sanitized_args, hook))
+        self.variants.append((code, sanitized_args, hooks))
 
     def __call__(self, instr):
         for variant in self.variants:
@@ -1387,8 +1387,7 @@ class Z80OpCode:
                 else:
                     base += pack_byte(code >> 8)
                     base += pack_byte(code & 0xFF)
-                if variant[2] is not None:
-                    hook, index = variant[2]
+                for hook, index in variant[2]:
                     base += hook(base, instr.tokens[index+1])
                 for suffix in variant[0][1:]:
                     base += pack_byte(suffix)
-- 
2.43.0


From 11ff54a701cde77d615c2795e96c09c650dc7dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 25/63] fix: z80 bit b, (ix+d) uses the documented opcodes

---
 necroassembler/cpu/z80.py | 112 --------------------------------------
 1 file changed, 112 deletions(-)

diff --git a/necroassembler/cpu/z80.py b/necroassembler/cpu/z80.py
index 5a715ba..b59f1f1 100644
--- a/necroassembler/cpu/z80.py
+++ b/necroassembler/cpu/z80.py
@@ -623,70 +623,14 @@ OPCODES_TABLE = (
     ([0xDDCB, 0x3D], 'LD', 'L', 'SRL ', '(', 'IX+d', ')'),
     ([0xDDCB, 0x3E], 'SRL', '(', 'IX+d', ')'),
     ([0xDDCB, 0x3F], 'LD', 'A', 'SRL ', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x40], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x41], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x42], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x43], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x44], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x45], 'BIT', '0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x46], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x47], 'BIT', '0', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x48], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x49], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4A], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4B], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4C], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4D], 'BIT', '1', '(', 'IX+d', ')'),
     ([0xDDCB, 0x4E], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x4F], 'BIT', '1', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x50], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x51], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x52], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x53], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x54], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x55], 'BIT', '2', '(', 'IX+d', ')'),
     ([0xDDCB, 0x56], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x57], 'BIT', '2', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x58], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x59], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5A], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5B], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5C], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5D], 'BIT', '3', '(', 'IX+d', ')'),
     ([0xDDCB, 0x5E], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x5F], 'BIT', '3', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x60], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x61], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x62], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x63], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x64], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x65], 'BIT', '4', '(', 'IX+d', ')'),
     ([0xDDCB, 0x66], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x67], 'BIT', '4', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x68], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x69], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6A], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6B], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6C], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6D], 'BIT', '5', '(', 'IX+d', ')'),
     ([0xDDCB, 0x6E], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x6F], 'BIT', '5', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x70], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x71], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x72], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x73], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x74], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x75], 'BIT', '6', '(', 'IX+d', ')'),
     ([0xDDCB, 0x76], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x77], 'BIT', '6', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x78], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x79], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7A], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7B], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7C], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7D], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x7E], 'BIT', '7', '(', 'IX+d', ')'),
-    ([0xDDCB, 0x7F], 'BIT', '7', '(', 'IX+d', ')'),
     ([0xDDCB, 0x80], 'LD', 'B', 'RES 0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x81], 'LD', 'C', 'RES 0', '(', 'IX+d', ')'),
     ([0xDDCB, 0x82], 'LD', 'D', 'RES 0', '(', 'IX+d', ')'),
@@ -1072,70 +1016,14 @@ OPCODES_TABLE = (
     ([0xFDCB, 0x3D], 'LD', 'L', 'SRL ', '(', 'IY+d', ')'),
     ([0xFDCB, 0x3E], 'SRL', '(', 'IY+d', ')'),
     ([0xFDCB, 0x3F], 'LD', 'A', 'SRL ', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x40], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x41], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x42], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x43], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x44], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x45], 'BIT', '0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x46], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x47], 'BIT', '0', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x48], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x49], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4A], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4B], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4C], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4D], 'BIT', '1', '(', 'IY+d', ')'),
     ([0xFDCB, 0x4E], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x4F], 'BIT', '1', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x50], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x51], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x52], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x53], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x54], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x55], 'BIT', '2', '(', 'IY+d', ')'),
     ([0xFDCB, 0x56], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x57], 'BIT', '2', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x58], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x59], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5A], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5B], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5C], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5D], 'BIT', '3', '(', 'IY+d', ')'),
     ([0xFDCB, 0x5E], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x5F], 'BIT', '3', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x60], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x61], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x62], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x63], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x64], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x65], 'BIT', '4', '(', 'IY+d', ')'),
     ([0xFDCB, 0x66], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x67], 'BIT', '4', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x68], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x69], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6A], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6B], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6C], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6D], 'BIT', '5', '(', 'IY+d', ')'),
     ([0xFDCB, 0x6E], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x6F], 'BIT', '5', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x70], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x71], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x72], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x73], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x74], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x75], 'BIT', '6', '(', 'IY+d', ')'),
     ([0xFDCB, 0x76], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x77], 'BIT', '6', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x78], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x79], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7A], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7B], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7C], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7D], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x7E], 'BIT', '7', '(', 'IY+d', ')'),
-    ([0xFDCB, 0x7F], 'BIT', '7', '(', 'IY+d', ')'),
     ([0xFDCB, 0x80], 'LD', 'B', 'RES 0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x81], 'LD', 'C', 'RES 0', '(', 'IY+d', ')'),
     ([0xFDCB, 0x82], 'LD', 'D', 'RES 0', '(', 'IY+d', ')'),
-- 
2.43.0


From c04ee720ef1741c631cf723bf897c394c9dc89b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 26/63] fix: thumb ldrh rd, [rb, ro] has its own opcode

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 832261a..0077ee2 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -317,7 +317,7 @@ class AssemblerThumb(Assembler):
         if instr.match(LOW_REGS, '[', LOW_REGS, LOW_REGS, ']'):
             rd, rb, ro = instr.apply(
                 low_reg, None, low_reg, low_reg, None)
-            return self._build_opcode(0b010110000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
+            return self._build_opcode(0b0101101000000000, ((8, 6), ro), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-- 
2.43.0


From a275ce71d2fc4d4d65008a62c92364551d7fc526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 27/63] fix: thumb str rd, [rb, #imm] is not assembled as ldr

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 0077ee2..386206e 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -348,7 +348,7 @@ class AssemblerThumb(Assembler):
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
                 low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+            return self._build_opcode(0b0110000000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('STRB')
     def _strb(self, instr):
-- 
2.43.0


From bd980d00ba69234e157e8171aba98f1d5d0fe504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 28/63] fix: thumb bl accepts a distance of 0

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 386206e..ee3f63f 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -369,7 +369,7 @@ class AssemblerThumb(Assembler):
         offset = instr.tokens[1]
 
         address = self.parse_integer(offset, 23, signed=True)
-        if address:
+        if address is not None:
             address >>= 1
             address0 = address >> 11
             address1 = address & 0x7ff
-- 
2.43.0


From 384593e48c024344a1a8dcfcbec9e0f3b7fce79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 29/63] fix: thumb branches by an odd distance are rejected

---
 necroassembler/cpu/thumb.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index ee3f63f..721cdca 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -1,7 +1,7 @@
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits_le16u, pack_le16u, pack_bit
 from necroassembler.exceptions import (
-    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, NotInBitRange)
+    AssemblerException, InvalidRegister, UnknownRegister, InvalideImmediateValue, NotInBitRange, AlignmentError)
 
 LOW_REGS = ('r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7')
 HIGH_REGS_TRUE = ('r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15')
@@ -57,15 +57,18 @@ class AssemblerThumb(Assembler):
     bin_prefixes = ('0b', '0y')
 
     def _offset(self, arg, bits, alignment):
-        return self.parse_integer_or_label(label=arg,
-                                           size=2,
-                                           bits_size=(
-                                               bits[0] - bits[1]) + 1 + (alignment//2),
-                                           bits=bits,
-                                           filter=lambda x: x >> (
-                                               alignment//2),
-                                           alignment=alignment,
-                                           relative=self.pc + 4)
+        value = self.parse_integer_or_label(label=arg,
+                                            size=2,
+                                            bits_size=(
+                                                bits[0] - bits[1]) + 1 + (alignment//2),
+                                            bits=bits,
+                                            filter=lambda x: x >> (
+                                                alignment//2),
+                                            alignment=alignment,
+                                            relative=self.pc + 4)
+        if value % alignment:
+            raise AlignmentError(arg)
+        return value
 
     def _imm(self, arg):
         value = self.parse_integer(arg[1:], 8, False)
@@ -370,6 +373,8 @@ class AssemblerThumb(Assembler):
 
         address = self.parse_integer(offset, 23, signed=True)
         if address is not None:
+            if address % 2:
+                raise AlignmentError(offset)
             address >>= 1
             address0 = address >> 11
             address1 = address & 0x7ff
-- 
2.43.0


From be9ee17769b144eeae7cd411f7e6e7547034aa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 30/63] fix: thumb ldrh offsets are counted in halfwords

---
 necroassembler/cpu/thumb.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 721cdca..d2ae5e4 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -70,11 +70,25 @@ class AssemblerThumb(Assembler):
             raise AlignmentError(arg)
         return value
 
-    def _imm(self, arg):
-        value = self.parse_integer(arg[1:], 8, False)
+    def _imm(self, arg, bits_size=8, scale=1):
+        value = self.parse_integer(arg[1:], bits_size, False)
         if value is None:
             raise InvalideImmediateValue()
-        return value
+        if value % scale:
+            raise AlignmentError(arg)
+        return value // scale
+
+    def _imm5h(self, arg):
+        return self._imm(arg, 7, 2)
+
+    def _imm5w(self, arg):
+        return self._imm(arg, 8, 4)
+
+    def _imm7w(self, arg):
+        return self._imm(arg, 10, 4)
+
+    def _imm8w(self, arg):
+        return self._imm(arg, 11, 4)
 
     def _word8(self, arg):
         return self.parse_integer_or_label(label=arg[1:],
@@ -324,7 +338,7 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
+                low_reg, None, low_reg, self._imm5h, None)
             return self._build_opcode(0b1000100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('LDSB')
-- 
2.43.0


From 858d5697d81a74884a47572ee0457cab2e784170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 31/63] fix: thumb ldr and str offsets that are not words are
 rejected

---
 necroassembler/cpu/thumb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index d2ae5e4..fc08ef0 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -310,8 +310,8 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110100000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+                low_reg, None, low_reg, self._imm5w, None)
+            return self._build_opcode(0b0110100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', SP, IMMEDIATE, ']'):
             rd, imm = instr.apply(low_reg, None, None, self._word8, None)
@@ -364,8 +364,8 @@ class AssemblerThumb(Assembler):
 
         if instr.match(LOW_REGS, '[', LOW_REGS, IMMEDIATE, ']'):
             rd, rb, imm = instr.apply(
-                low_reg, None, low_reg, self._imm, None)
-            return self._build_opcode(0b0110000000000000, ((10, 6), imm >> 2), ((5, 3), rb), ((2, 0), rd))
+                low_reg, None, low_reg, self._imm5w, None)
+            return self._build_opcode(0b0110000000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
     @opcode('STRB')
     def _strb(self, instr):
-- 
2.43.0


From 4e5ee3b32dc5e4fcd3c07cb9308ab4083df50890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 32/63] fix: thumb add rd, pc/sp, #imm counts words

---
 necroassembler/cpu/thumb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index fc08ef0..941cc9f 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -181,10 +181,10 @@ class AssemblerThumb(Assembler):
             hd, hs = instr.apply(high_reg, high_reg)
             return self._build_opcode(0b0100010011000000, ((5, 3), hs), ((2, 0), hd))
         if instr.match(LOW_REGS, PC, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
+            rd, imm = instr.apply(low_reg, None, self._imm8w)
             return self._build_opcode(0b1010000000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(LOW_REGS, SP, IMMEDIATE):
-            rd, imm = instr.apply(low_reg, None, self._imm)
+            rd, imm = instr.apply(low_reg, None, self._imm8w)
             return self._build_opcode(0b1010100000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(SP, IMMEDIATE):
             imm, = instr.apply(None, self._imm)
-- 
2.43.0


From cd69956f27968c0593150692adde3cb0850a2cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 33/63] fix: thumb add sp, #imm is assembled

---
 necroassembler/cpu/thumb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 941cc9f..b137755 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -187,8 +187,8 @@ class AssemblerThumb(Assembler):
             rd, imm = instr.apply(low_reg, None, self._imm8w)
             return self._build_opcode(0b1010100000000000, ((10, 8), rd), ((7, 0), imm))
         if instr.match(SP, IMMEDIATE):
-            imm, = instr.apply(None, self._imm)
-            return self._build_opcode(0b1011000000000000, ((7, 0), imm >> 1, True))
+            imm, = instr.apply(None, self._imm7w)
+            return self._build_opcode(0b1011000000000000, ((6, 0), imm))
 
     @opcode('SUB')
     def _sub(self, instr):
-- 
2.43.0


From 64afcbea1024cb3ad93e5165ee2874dac8e67af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 34/63] fix: thumb ldr rd, [sp, #imm] takes an unsigned word
 offset

---
 necroassembler/cpu/thumb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index b137755..967bc00 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -314,8 +314,8 @@ class AssemblerThumb(Assembler):
             return self._build_opcode(0b0110100000000000, ((10, 6), imm), ((5, 3), rb), ((2, 0), rd))
 
         if instr.match(LOW_REGS, '[', SP, IMMEDIATE, ']'):
-            rd, imm = instr.apply(low_reg, None, None, self._word8, None)
-            return self._build_opcode(0b1001100000000000, ((10, 8), rd), ((7, 0), imm >> 2))
+            rd, imm = instr.apply(low_reg, None, None, self._imm8w, None)
+            return self._build_opcode(0b1001100000000000, ((10, 8), rd), ((7, 0), imm))
 
     @opcode('LDRB')
     def _ldrb(self, instr):
-- 
2.43.0


From 4318b22260504b3d8cc6e729ccd9fd9a5c381967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 35/63] fix: thumb ldr rd, [pc, #imm] reaches 1020 bytes
 forward and nothing backward

---
 necroassembler/cpu/thumb.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 967bc00..5b200d3 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -91,14 +91,27 @@ class AssemblerThumb(Assembler):
         return self._imm(arg, 11, 4)
 
     def _word8(self, arg):
-        return self.parse_integer_or_label(label=arg[1:],
-                                           size=2,
-                                           bits_size=8,
-                                           bits=(7, 0),
-                                           alignment=4,
-                                           filter=lambda x: x >> 2,
-                                           # bit 1 of pc must be turned off
-                                           relative=(self.pc + 4) & ~(0b10))
+        def words(distance):
+            if distance < 0:
+                raise NotInBitRange(distance, 10, arg[1:])
+            return distance >> 2
+
+        # one more bit: negative numbers do not fit
+        value = self.parse_integer(arg[1:], 11, False)
+        if value is None:
+            # one more bit for the sign of the distance
+            self.add_label_translation(label=arg[1:],
+                                       size=2,
+                                       bits_size=11,
+                                       bits=(7, 0),
+                                       alignment=4,
+                                       filter=words,
+                                       # bit 1 of pc must be turned off
+                                       relative=(self.pc + 4) & ~(0b10))
+            return 0
+        if value % 4:
+            raise AlignmentError(arg)
+        return value
 
     def _conditional_branch(self, instr, cond):
         if instr.match(LABEL):
-- 
2.43.0


From ddb6d6da7a9b63d143a8816e64c2cce083573c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 36/63] fix: thumb push accepts upper case registers

---
 necroassembler/cpu/thumb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/thumb.py b/necroassembler/cpu/thumb.py
index 5b200d3..ca08515 100644
--- a/necroassembler/cpu/thumb.py
+++ b/necroassembler/cpu/thumb.py
@@ -127,7 +127,7 @@ class AssemblerThumb(Assembler):
 
         rlist = 0
         for token in tokens:
-            if token in LOW_REGS:
+            if token.lower() in LOW_REGS:
                 bit_to_set = low_reg(token)
                 rlist = pack_bit(rlist, (bit_to_set, 1))
                 continue
-- 
2.43.0


From 5323c1b39ec11ce641178958813d7ff95c5a6395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 37/63] fix: 68000 index registers without a size accept upper
 case

---
 necroassembler/cpu/mc68000.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 3e34ef5..446875a 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -36,7 +36,7 @@ def _is_indexed_reg(token):
         return token.lower()[0:-2] in D_REGS+A_REGS
     if token.lower().endswith('.l'):
         return token.lower()[0:-2] in D_REGS+A_REGS
-    return token in D_REGS+A_REGS
+    return token.lower() in D_REGS+A_REGS
 
 
 IMMEDIATE = _is_immediate
-- 
2.43.0


From 94f2b15cb03d5b978927a1c04fa563a2c9824634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 38/63] fix: 68000 dbt.w and dbf.w are assembled

---
 necroassembler/cpu/mc68000.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 446875a..54b57c4 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -55,9 +55,10 @@ def _reg(token):
 
 
 def _cond(token):
-    if token[0:2].upper() == 'RA':
+    condition = token.split('.')[0].upper()
+    if condition == 'RA':
         return 1
-    return CONDITIONS.index(token[0:2].upper())
+    return CONDITIONS.index(condition)
 
 
 def _indexed_reg(token):
-- 
2.43.0


From 139eeb7b68102b478d34ed5e1cc305938b7c6325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 39/63] fix: 68000 statements with operands left over are
 rejected

---
 necroassembler/cpu/mc68000.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 54b57c4..ab90588 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -249,6 +249,13 @@ class AssemblerMC68000(Assembler):
 
         raise InvalidMode(instr)
 
+    def _last_mode(self, instr, start_index, offset, size, blacklist=()):
+        index, m, xn, data = self._mode(
+            instr, start_index, offset, size, blacklist)
+        if index != len(instr.tokens):
+            raise InvalidMode(instr)
+        return index, m, xn, data
+
     def _build_opcode(self, base, *args):
         return pack_bits_be16u(base, *args)
 
@@ -265,7 +272,7 @@ class AssemblerMC68000(Assembler):
         # convert to MOVEA
         if op_size in (2, 4) and instr.match(A_REGS, start=next_index):
             return self._build_opcode(0b0000000001000000, ((13, 12), s), ((11, 9), _reg(instr.tokens[next_index])), ((5, 3), src_m), ((2, 0), src_xn)) + src_data
-        _, dst_m, dst_xn, dst_data = self._mode(
+        _, dst_m, dst_xn, dst_data = self._last_mode(
             instr, next_index, len(src_data), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
         return self._build_opcode(0b0000000000000000, ((13, 12), s), ((11, 9), dst_xn), ((8, 6), dst_m), ((5, 3), src_m), ((2, 0), src_xn)) + src_data + dst_data
 
@@ -288,7 +295,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000000000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -304,7 +311,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000001000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -314,7 +321,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000010000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -324,7 +331,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000011000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -340,7 +347,7 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000101000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
@@ -350,13 +357,13 @@ class AssemblerMC68000(Assembler):
         if found:
             op_size, s = _s_light(instr.tokens[0])
             packed = self._packer(instr.tokens[1][1:], op_size, 0)
-            _, dst_m, dst_xn, dst_data = self._mode(
+            _, dst_m, dst_xn, dst_data = self._last_mode(
                 instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
             return self._build_opcode(0b0000110000000000, ((7, 6), s), ((5, 3), dst_m), ((2, 0), dst_xn)) + packed + dst_data
 
     @opcode('jmp')
     def _jmp(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        _, src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111011000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
@@ -409,7 +416,7 @@ class AssemblerMC68000(Assembler):
 
     @opcode('jsr')
     def _jsr(self, instr):
-        _, src_m, src_xn, src_data = self._mode(
+        _, src_m, src_xn, src_data = self._last_mode(
             instr, 1, 0, 0, blacklist=('Dn', 'An', '(An)+', '-(An)', '#<data>'))
         return self._build_opcode(0b0100111010000000, ((5, 3), src_m), ((2, 0), src_xn)) + src_data
 
-- 
2.43.0


From d1455f3f26e82d1d56bd507a74c0b699ea785936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 40/63] fix: 68000 move.b from an address register is rejected

---
 necroassembler/cpu/mc68000.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index ab90588..f004f6c 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -268,7 +268,9 @@ class AssemblerMC68000(Assembler):
     @opcode('move', 'move.w', 'move.b', 'move.l')
     def _move(self, instr):
         op_size, s = _s_dark(instr.tokens[0])
-        next_index, src_m, src_xn, src_data = self._mode(instr, 1, 0, op_size)
+        # address registers have no byte size
+        next_index, src_m, src_xn, src_data = self._mode(
+            instr, 1, 0, op_size, blacklist=('An',) if op_size == 1 else ())
         # convert to MOVEA
         if op_size in (2, 4) and instr.match(A_REGS, start=next_index):
             return self._build_opcode(0b0000000001000000, ((13, 12), s), ((11, 9), _reg(instr.tokens[next_index])), ((5, 3), src_m), ((2, 0), src_xn)) + src_data
-- 
2.43.0


From 6cbbcf216c4b78e12286f7d55c73143817b2c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 41/63] fix: 68000 branches by an odd distance are rejected

---
 necroassembler/cpu/mc68000.py | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index f004f6c..563a8c7 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -1,7 +1,7 @@
 
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits_be16u, pack_be16u, pack_be32u
-from necroassembler.exceptions import AssemblerException
+from necroassembler.exceptions import AssemblerException, AlignmentError
 
 
 class InvalidMode(AssemblerException):
@@ -259,6 +259,17 @@ class AssemblerMC68000(Assembler):
     def _build_opcode(self, base, *args):
         return pack_bits_be16u(base, *args)
 
+    def _distance(self, token, bits_size, **kwargs):
+        value = self.parse_integer_or_label(token,
+                                            size=2,
+                                            bits_size=bits_size,
+                                            alignment=2,  # here is safe to check for alignment
+                                            relative=self.pc+2,
+                                            **kwargs)
+        if value % 2 != 0:
+            raise AlignmentError(token)
+        return value
+
     def _packer(self, token, op_size, offset):
         value = self.parse_integer_or_label(
             token, size=op_size + (op_size % 2), bits_size=op_size*8, offset=2+offset)
@@ -385,20 +396,10 @@ class AssemblerMC68000(Assembler):
             condition = _cond(instr.tokens[0][1:])
             op_size, _ = _s_dark(instr.tokens[0])
             if op_size == 1:
-                value = self.parse_integer_or_label(instr.tokens[1],
-                                                    size=2,
-                                                    bits_size=8,
-                                                    bits=(7, 0),
-                                                    alignment=2,  # here is safe to check for alignment
-                                                    relative=self.pc+2)
+                value = self._distance(instr.tokens[1], 8, bits=(7, 0))
                 return self._build_opcode(0b0110000000000000, ((11, 8), condition), ((7, 0), value))
             elif op_size == 2:
-                value = self.parse_integer_or_label(instr.tokens[1],
-                                                    size=2,
-                                                    bits_size=16,
-                                                    alignment=2,  # here is safe to check for alignment
-                                                    offset=2,
-                                                    relative=self.pc+2)
+                value = self._distance(instr.tokens[1], 16, offset=2)
                 return self._build_opcode(0b0110000000000000, ((11, 8), condition)) + pack_be16u(value)
 
     @opcode('dbt', 'dbf', 'dbra', 'dbhi', 'dbls', 'dbcc', 'dbcs', 'dbne', 'dbeq', 'dbvc', 'dbvs', 'dbpl', 'dbmi', 'dbge', 'dblt', 'dbgt', 'dble',
@@ -408,12 +409,7 @@ class AssemblerMC68000(Assembler):
         if instr.match(D_REGS, DISPLACEMENT):
             condition = _cond(instr.tokens[0][2:])
             d_reg = _reg(instr.tokens[1])
-            value = self.parse_integer_or_label(instr.tokens[2],
-                                                size=2,
-                                                bits_size=16,
-                                                alignment=2,  # here is safe to check for alignment
-                                                offset=2,
-                                                relative=self.pc+2)
+            value = self._distance(instr.tokens[2], 16, offset=2)
             return self._build_opcode(0b0101000011001000, ((11, 8), condition), ((2, 0), d_reg)) + pack_be16u(value)
 
     @opcode('jsr')
-- 
2.43.0


From 3e9a0b708520b404560f4454dc6e06eac423a288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 42/63] fix: 68000 short branches by a distance of 0 are
 rejected

---
 necroassembler/cpu/mc68000.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 563a8c7..1e4c181 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -1,7 +1,7 @@
 
 from necroassembler import Assembler, opcode
 from necroassembler.utils import pack_bits_be16u, pack_be16u, pack_be32u
-from necroassembler.exceptions import AssemblerException, AlignmentError
+from necroassembler.exceptions import AssemblerException, AlignmentError, NotInBitRange
 
 
 class InvalidMode(AssemblerException):
@@ -259,6 +259,12 @@ class AssemblerMC68000(Assembler):
     def _build_opcode(self, base, *args):
         return pack_bits_be16u(base, *args)
 
+    def _not_null(self, value):
+        # a null 8 bit displacement means that a 16 bit one follows
+        if value == 0:
+            raise NotInBitRange(value, 8)
+        return value
+
     def _distance(self, token, bits_size, **kwargs):
         value = self.parse_integer_or_label(token,
                                             size=2,
@@ -396,7 +402,10 @@ class AssemblerMC68000(Assembler):
             condition = _cond(instr.tokens[0][1:])
             op_size, _ = _s_dark(instr.tokens[0])
             if op_size == 1:
-                value = self._distance(instr.tokens[1], 8, bits=(7, 0))
+                value = self._distance(
+                    instr.tokens[1], 8, bits=(7, 0), filter=self._not_null)
+                if self.parse_integer(instr.tokens[1], 8, True) is not None:
+                    self._not_null(value)
                 return self._build_opcode(0b0110000000000000, ((11, 8), condition), ((7, 0), value))
             elif op_size == 2:
                 value = self._distance(instr.tokens[1], 16, offset=2)
-- 
2.43.0


From 6f9d978755fdb4019afdf2878d90c2b19220c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 43/63] fix: 68000 immediates to ccr are bytes and to sr are
 words

---
 necroassembler/cpu/mc68000.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/necroassembler/cpu/mc68000.py b/necroassembler/cpu/mc68000.py
index 1e4c181..cc978e5 100644
--- a/necroassembler/cpu/mc68000.py
+++ b/necroassembler/cpu/mc68000.py
@@ -259,6 +259,11 @@ class AssemblerMC68000(Assembler):
     def _build_opcode(self, base, *args):
         return pack_bits_be16u(base, *args)
 
+    def _check_size(self, instr, suffix):
+        command = instr.tokens[0].lower()
+        if '.' in command and not command.endswith(suffix):
+            raise InvalidMode(instr)
+
     def _not_null(self, value):
         # a null 8 bit displacement means that a 16 bit one follows
         if value == 0:
@@ -305,9 +310,11 @@ class AssemblerMC68000(Assembler):
     @opcode('ori', 'ori.w', 'ori.b', 'ori.l')
     def _ori(self, instr):
         if instr.match(IMMEDIATE, 'CCR'):
+            self._check_size(instr, '.b')
             packed = self._packer(instr.tokens[1][1:], 1, 0)
             return self._build_opcode(0b0000000000111100) + packed
         if instr.match(IMMEDIATE, 'SR'):
+            self._check_size(instr, '.w')
             packed = self._packer(instr.tokens[1][1:], 2, 0)
             return self._build_opcode(0b0000000001111100) + packed
         found, index = instr.unbound_match(IMMEDIATE)
@@ -321,9 +328,11 @@ class AssemblerMC68000(Assembler):
     @opcode('andi', 'andi.w', 'andi.b', 'andi.l')
     def _andi(self, instr):
         if instr.match(IMMEDIATE, 'CCR'):
+            self._check_size(instr, '.b')
             packed = self._packer(instr.tokens[1][1:], 1, 0)
             return self._build_opcode(0b0000001000111100) + packed
         if instr.match(IMMEDIATE, 'SR'):
+            self._check_size(instr, '.w')
             packed = self._packer(instr.tokens[1][1:], 2, 0)
             return self._build_opcode(0b0000001001111100) + packed
         found, index = instr.unbound_match(IMMEDIATE)
@@ -357,9 +366,11 @@ class AssemblerMC68000(Assembler):
     @opcode('eori', 'eori.w', 'eori.b', 'eori.l')
     def _eori(self, instr):
         if instr.match(IMMEDIATE, 'CCR'):
+            self._check_size(instr, '.b')
             packed = self._packer(instr.tokens[1][1:], 1, 0)
             return self._build_opcode(0b0000101000111100) + packed
         if instr.match(IMMEDIATE, 'SR'):
+            self._check_size(instr, '.w')
             packed = self._packer(instr.tokens[1][1:], 2, 0)
             return self._build_opcode(0b0000101001111100) + packed
         found, index = instr.unbound_match(IMMEDIATE)
-- 
2.43.0


From bdc90c358f21f30a7f905571d2aceb00b4acc06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 44/63] fix: 8086 label displacements follow the ModR/M byte

---
 necroassembler/cpu/intel8086.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 44277ef..0d4932c 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -19,7 +19,7 @@ def _build_modrm(assembler, modrm):
             modrm['displacement'].lstrip('+'),
             size=2,
             bits_size=16,
-            offset=1,
+            offset=2,
             signed=True))
     return blob
 
-- 
2.43.0


From 9407ebbf352711214a4d9f97ef3dfe491a62d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 45/63] fix: 8086 les and lds label addresses follow the ModR/M
 byte

---
 necroassembler/cpu/intel8086.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 0d4932c..37b2dc9 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -299,7 +299,7 @@ def _Mp(instr, assembler, index, modrm):
             modrm['mod'] = 0
             modrm['rm'] = 6
             return 3, _build_modrm(assembler, modrm) + pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=2, bits_size=16, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=2))
 
 
 def _Ap(instr, assembler, index, modrm):
-- 
2.43.0


From 4dfdd2a3618273f30e596fbb511cd701b1490b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 46/63] fix: 8086 byte moves take a 16 bit address

---
 necroassembler/cpu/intel8086.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 37b2dc9..2372a11 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -207,7 +207,7 @@ def _Ob(instr, assembler, index, modrm):
     if match(instr.tokens[index:index+3], '[', None, ']'):
         if instr.tokens[index+1].upper() not in REGS8 + REGS16 + SEGMENTS:
             return 3, pack_le16u(assembler.parse_integer_or_label(
-                instr.tokens[index+1], size=1, bits_size=8, offset=1))
+                instr.tokens[index+1], size=2, bits_size=16, offset=1))
 
 
 def _Ov(instr, assembler, index, modrm):
-- 
2.43.0


From e8e8cc6139cc4ab82de9a5783e9fc45921241392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 47/63] fix: 8086 [BP] is not encoded as a direct address

---
 necroassembler/cpu/intel8086.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 2372a11..67472a1 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -38,7 +38,8 @@ def _get_modrm_mod(arg):
     if match(arg, 'DI'):
         return 0b00, 0b101, 1, None
     if match(arg, 'BP'):
-        return 0b00, 0b110, 1, None
+        # mod 00 with this rm is a direct address
+        return 0b10, 0b110, 1, '0'
     if match(arg, 'BX'):
         return 0b00, 0b111, 1, None
     # displacement (16 bit only)
-- 
2.43.0


From 7ab8274ecefc4c79d7d7bfc30d54273039437613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 48/63] fix: 8086 operands left over are rejected

---
 necroassembler/cpu/intel8086.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index 67472a1..fcb90d7 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -554,7 +554,11 @@ OPCODES_TABLE = (
     (0xD004, 'SHL', _Eb),
     (0xD104, 'SHL', _Ev),
     (0xD005, 'SHR', _Eb),
-    (0xD105, 'SHR', _Ev)
+    (0xD105, 'SHR', _Ev),
+    (0xD004, 'SHL', _Eb, _1),
+    (0xD104, 'SHL', _Ev, _1),
+    (0xD005, 'SHR', _Eb, _1),
+    (0xD105, 'SHR', _Ev, _1)
 )
 
 
@@ -591,7 +595,7 @@ class Intel8086OpCode:
                 else:
                     index += delta_and_blob[0]
                     full_blob += delta_and_blob[1]
-            if not skip:
+            if not skip and index == len(instr.tokens):
                 return pack_byte(base) + full_blob
 
 
-- 
2.43.0


From be24ed43bca30062d9a1454cf144993b5a288f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 49/63] fix: 8086 pop and mov immediate to memory emit their
 ModR/M byte

---
 necroassembler/cpu/intel8086.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/necroassembler/cpu/intel8086.py b/necroassembler/cpu/intel8086.py
index fcb90d7..5cad404 100644
--- a/necroassembler/cpu/intel8086.py
+++ b/necroassembler/cpu/intel8086.py
@@ -183,13 +183,13 @@ def _SS(instr, assembler, index, modrm):
 def _Ib(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_byte(assembler.parse_integer_or_label(
-            instr.tokens[index], size=1, bits_size=8, offset=1))
+            instr.tokens[index], size=1, bits_size=8, offset=modrm['offset']))
 
 
 def _Iv(instr, assembler, index, modrm):
     if instr.tokens[index].upper() not in REGS8 + REGS16 + SEGMENTS + ('[', ']'):
         return 1, pack_le16u(assembler.parse_integer_or_label(
-            instr.tokens[index], size=2, bits_size=16, offset=1))
+            instr.tokens[index], size=2, bits_size=16, offset=modrm['offset']))
 
 
 def _Jb(instr, assembler, index, modrm):
@@ -454,7 +454,7 @@ OPCODES_TABLE = (
     (0x8C, 'MOV', _Ev, _Sw),
     (0x8D, 'LEA', _Gv, _M),
     (0x8E, 'MOV', _Sw, _Ev),
-    (0x8F, 'POP', _Ev),
+    (0x8F00, 'POP', _Ev),
     (0x90, 'NOP'),
     (0x91, 'XCHG', _eCX, _eAX),
     (0x92, 'XCHG', _eDX, _eAX),
@@ -507,8 +507,8 @@ OPCODES_TABLE = (
     (0xC3, 'RET'),
     (0xC4, 'LES', _Gv, _Mp),
     (0xC5, 'LDS', _Gv, _Mp),
-    (0xC6, 'MOV', _Eb, _Ib),
-    (0xC7, 'MOV', _Ev, _Iv),
+    (0xC600, 'MOV', _Eb, _Ib),
+    (0xC700, 'MOV', _Ev, _Iv),
     (0xCA, 'RETF', _Iv),
     (0xCB, 'RETF'),
     (0xCC, 'INT', _3),
@@ -588,6 +588,7 @@ class Intel8086OpCode:
             skip = False
             full_blob = b''
             for arg in args:
+                modrm['offset'] = 1 + len(full_blob)
                 delta_and_blob = arg(instr, self.assembler, index, modrm)
                 if not delta_and_blob or not delta_and_blob[0]:
                     skip = True
-- 
2.43.0


From 9b7da9c5d9b175873c19367cae015f30e36e0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 50/63] fix: powerpc forms of the same mnemonic keep their own
 opcode

---
 necroassembler/cpu/powerpc.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index e2f4e1a..2ae4c69 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1324,23 +1324,22 @@ OPCODES_TABLE = [
 
 class PowerPCOPCode:
 
-    def __init__(self, assembler, name, base):
+    def __init__(self, assembler, name):
         self.conditions = []
         self.assembler = assembler
         self.name = name
-        self.base = base
 
-    def add_condition(self, condition):
-        self.conditions.append(condition)
+    def add_condition(self, base, condition):
+        self.conditions.append((base, condition))
 
     def __call__(self, instr):
-        for condition in self.conditions:
+        for base, condition in self.conditions:
             if condition is None:
                 if len(instr.tokens) == 1:
-                    return pack_be32u(self.base)
+                    return pack_be32u(base)
             elif instr.match(*[item[2] for item in condition]):
                 return pack_be32u(
-                    pack_bits(self.base, *[
+                    pack_bits(base, *[
                         ((item[0] + item[1] - 1, item[0]), item[2](
                             instr.tokens[index+1], self.assembler, (item[0] + item[1] - 1, item[0]))
                          ) for index, item in enumerate(condition)
@@ -1355,22 +1354,22 @@ class AssemblerPowerPC(Assembler):
 
     def register_instructions(self):
         for entry in OPCODES_TABLE:
+            base = entry[0]
             name = entry[1]
 
             # already defined ?
             if name.upper() in self.instructions:
                 if len(entry) > 2:
-                    self.instructions[name.upper()].add_condition(entry[2])
+                    self.instructions[name.upper()].add_condition(base, entry[2])
                 else:
-                    self.instructions[name.upper()].add_condition(None)
+                    self.instructions[name.upper()].add_condition(base, None)
                 continue
 
-            base = entry[0]
-            powerpc_opcode = PowerPCOPCode(self, name, base)
+            powerpc_opcode = PowerPCOPCode(self, name)
             if len(entry) > 2:
-                powerpc_opcode.add_condition(entry[2])
+                powerpc_opcode.add_condition(base, entry[2])
             else:
-                powerpc_opcode.add_condition(None)
+                powerpc_opcode.add_condition(base, None)
             self.register_instruction(entry[1], powerpc_opcode)
 
 
-- 
2.43.0


From 86ebcdfcc0aed5f573b84537a5a3695e1a4bd783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 51/63] fix: powerpc forms with unsupported operand classes do
 not hide the supported ones

---
 necroassembler/cpu/powerpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 2ae4c69..206e641 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1337,6 +1337,9 @@ class PowerPCOPCode:
             if condition is None:
                 if len(instr.tokens) == 1:
                     return pack_be32u(base)
+            elif None in [item[2] for item in condition]:
+                # operand class not supported
+                continue
             elif instr.match(*[item[2] for item in condition]):
                 return pack_be32u(
                     pack_bits(base, *[
-- 
2.43.0


From a32633ba5d53048417dab125a818b867620d0ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 52/63] fix: powerpc r0 is a general purpose register

---
 necroassembler/cpu/powerpc.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 206e641..c16e747 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -9,8 +9,6 @@ def _greg(token, assembler=None, bits=None):
     reg = token.lower()
     if assembler is not None:
         return int(token[1:])
-    if reg == 'r0':
-        return False
     return reg in GREGS
 
 
-- 
2.43.0


From 95ba455c914f297cf5caa99f3de4b720b067170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 53/63] fix: powerpc register names in upper case are not taken
 for labels

---
 necroassembler/cpu/powerpc.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index c16e747..d2efd77 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -40,7 +40,7 @@ def _pcrel(token, assembler=None, bits=None):
                                                 filter=lambda x: x >> 2,
                                                 relative=assembler.pc)
 
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _baddr(token, assembler=None, bits=None):
@@ -51,7 +51,7 @@ def _baddr(token, assembler=None, bits=None):
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits,
                                                 filter=lambda x: x >> 2)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _si(token, assembler=None, bits=None):
@@ -61,7 +61,7 @@ def _si(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=True)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _hi(token, assembler=None, bits=None):
@@ -71,7 +71,7 @@ def _hi(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=False)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _ui(token, assembler=None, bits=None):
@@ -81,7 +81,7 @@ def _ui(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=False)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _num(token, assembler=None, bits=None):
@@ -91,7 +91,7 @@ def _num(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=False)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _num0(token, assembler=None, bits=None):
@@ -101,7 +101,7 @@ def _num0(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=False)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 def _snum(token, assembler=None, bits=None):
@@ -111,7 +111,7 @@ def _snum(token, assembler=None, bits=None):
                                                 bits_size=(
                                                     bits[0] - bits[1] + 1),
                                                 bits=bits, signed=True)
-    return token not in GREGS+FREGS
+    return token.lower() not in GREGS+FREGS
 
 
 SGREG = None
-- 
2.43.0


From 72dbfe7fb76d5fb3e196107943c90a89f2cbf158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 54/63] fix: powerpc mcrfs source field has 3 bits

---
 necroassembler/cpu/powerpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index d2efd77..691c9b3 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -696,7 +696,7 @@ OPCODES_TABLE = [
     [0xfc00048e, "mffs",    [[21, 5, _freg]]],
     [0xfc00048f, "mffs.",   [[21, 5, _freg]]],
     [0xfc000080, "mcrfs",   [[21, 5, CRFONLY], [18, 5, _num]]],
-    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 5, _num]]],
+    [0xfc000080, "mcrfs",   [[23, 3, _num],  [18, 3, _num]]],
     [0xfc00010c, "mtfsfi",  [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00010d, "mtfsfi.", [[23, 3, _num],  [12, 4, _num]]],
     [0xfc00058e, "mtfsf",   [[17, 8, _num],  [11, 5, _freg]]],
-- 
2.43.0


From e4816e53d674bce90bc97b3821faabdeca174858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 55/63] fix: powerpc branch fields hold words and cover their
 whole range

---
 necroassembler/cpu/powerpc.py | 39 +++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 691c9b3..99be210 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1,4 +1,5 @@
 from necroassembler import Assembler
+from necroassembler.exceptions import AlignmentError
 from necroassembler.utils import pack_be32u, pack_bits
 
 GREGS = tuple(['r{0}'.format(n) for n in range(0, 32)])
@@ -32,25 +33,37 @@ def _freg(token, assembler=None, bits=None):
 
 def _pcrel(token, assembler=None, bits=None):
     if assembler is not None:
-        return assembler.parse_integer_or_label(token,
-                                                size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
-                                                bits=bits,
-                                                filter=lambda x: x >> 2,
-                                                relative=assembler.pc)
+        # the field holds the distance in words
+        value = assembler.parse_integer_or_label(token,
+                                                 size=4,
+                                                 bits_size=(
+                                                     bits[0] - bits[1] + 3),
+                                                 bits=bits,
+                                                 filter=lambda x: x >> 2,
+                                                 alignment=4,
+                                                 relative=assembler.pc)
+        if value % 4 != 0:
+            raise AlignmentError(token)
+        return value >> 2
 
     return token.lower() not in GREGS+FREGS
 
 
 def _baddr(token, assembler=None, bits=None):
     if assembler is not None:
-        return assembler.parse_integer_or_label(token,
-                                                size=4,
-                                                bits_size=(
-                                                    bits[0] - bits[1] + 1),
-                                                bits=bits,
-                                                filter=lambda x: x >> 2)
+        # the field holds the address in words, sign extended
+        bits_size = bits[0] - bits[1] + 3
+        value = assembler.parse_integer(token, bits_size, True)
+        if value is None:
+            value = assembler.parse_integer_or_label(token,
+                                                     size=4,
+                                                     bits_size=bits_size - 1,
+                                                     bits=bits,
+                                                     filter=lambda x: x >> 2,
+                                                     alignment=4)
+        if value % 4 != 0:
+            raise AlignmentError(token)
+        return value >> 2
     return token.lower() not in GREGS+FREGS
 
 
-- 
2.43.0


From 7bf4253f1d3eaf1b8f6e7dafd0d1ba29f213d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 56/63] fix: powerpc instructions with labels in several fields
 are rejected

---
 necroassembler/cpu/powerpc.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/necroassembler/cpu/powerpc.py b/necroassembler/cpu/powerpc.py
index 99be210..b5c8542 100644
--- a/necroassembler/cpu/powerpc.py
+++ b/necroassembler/cpu/powerpc.py
@@ -1,5 +1,5 @@
 from necroassembler import Assembler
-from necroassembler.exceptions import AlignmentError
+from necroassembler.exceptions import AlignmentError, LabelNotAllowed
 from necroassembler.utils import pack_be32u, pack_bits
 
 GREGS = tuple(['r{0}'.format(n) for n in range(0, 32)])
@@ -1352,12 +1352,19 @@ class PowerPCOPCode:
                 # operand class not supported
                 continue
             elif instr.match(*[item[2] for item in condition]):
-                return pack_be32u(
-                    pack_bits(base, *[
-                        ((item[0] + item[1] - 1, item[0]), item[2](
-                            instr.tokens[index+1], self.assembler, (item[0] + item[1] - 1, item[0]))
-                         ) for index, item in enumerate(condition)
-                    ]))
+                position = len(self.assembler.assembled_bytes)
+                labels = self.assembler.labels_addresses
+                operands = []
+                for index, item in enumerate(condition):
+                    bits = (item[0] + item[1] - 1, item[0])
+                    label = labels.get(position)
+                    value = item[2](
+                        instr.tokens[index+1], self.assembler, bits)
+                    # only one field of the instruction can be patched
+                    if label is not None and labels.get(position) is not label:
+                        raise LabelNotAllowed()
+                    operands.append((bits, value))
+                return pack_be32u(pack_bits(base, *operands))
 
 
 class AssemblerPowerPC(Assembler):
-- 
2.43.0


From cdb85d7e7047fea14828cc8b2b9815db1e17ac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 57/63] fix: elf symbol table starts with the reserved symbol

---
 necroassembler/linker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index b4c6346..f5d2e93 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -59,7 +59,7 @@ class ELF:
         return pack(self.section_pack_format, name_offset, 0x03, 0x20, 0, offset, len(data), 0, 0, 0, 0)
 
     def _build_symtab_section(self, name_offset, offset, data, link):
-        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 0, 0, 16 if self.bits == 32 else 24)
+        return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 1, 0, 16 if self.bits == 32 else 24)
 
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
         self.relocations[address] = symbol_data
@@ -103,7 +103,8 @@ class ELF:
             section_data['elf_section_index'] = section_index
             sections += self._build_section(section_data)
 
-        symtab = b''
+        # the first symbol is reserved (the other ones are all global)
+        symtab = bytes(16 if self.bits == 32 else 24)
         for symbol_name, symbol_data in assembler.labels.items():
             if symbol_name not in assembler.exports:
                 continue
-- 
2.43.0


From c97f8e20e06b6d989d37e8740146b06bce4f26ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 58/63] fix: elf symbols are relative to their section in
 relocatable files

---
 necroassembler/linker.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index f5d2e93..6922936 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -20,6 +20,7 @@ class ELF:
         self.header = b'\x7fELF' + \
             pack('BBBB', 2 if bits == 64 else 1, 2 if big_endian else 1, 1, 0)
         self.bits = bits
+        self.e_type = e_type
         self.endianess_prefix = '>' if big_endian else '<'
         self.header += bytes(8)
         self.header += pack(self.endianess_prefix + 'HHI', e_type, machine, 1)
@@ -61,6 +62,13 @@ class ELF:
     def _build_symtab_section(self, name_offset, offset, data, link):
         return pack(self.section_pack_format, name_offset, 0x02, 0, 0, offset, len(data), link, 1, 0, 16 if self.bits == 32 else 24)
 
+    def _symbol_value(self, assembler, symbol_data):
+        value = assembler.get_label_absolute_address(symbol_data)
+        # in relocatable files symbols are relative to their section
+        if self.e_type == 1:
+            value -= assembler.sections[symbol_data['section']]['start']
+        return value
+
     def resolve_unknown_symbol(self, assembler, address, symbol_data):
         self.relocations[address] = symbol_data
         return 0
@@ -110,12 +118,12 @@ class ELF:
                 continue
             if self.bits == 32:
                 symtab += pack(self.endianess_prefix + 'IIIBBH',
-                               symbol_data['elf_string_offset'], symbol_data['base'], 0,
+                               symbol_data['elf_string_offset'], self._symbol_value(assembler, symbol_data), 0,
                                0x10, 0, assembler.sections[symbol_data['section']]['elf_section_index'] + 1)
             if self.bits == 64:
                 symtab += pack(self.endianess_prefix + 'IBBHQQ',
                                symbol_data['elf_string_offset'], 0x10, 0,
-                               assembler.sections[symbol_data['section']]['elf_section_index'] + 1, symbol_data['base'], 0)
+                               assembler.sections[symbol_data['section']]['elf_section_index'] + 1, self._symbol_value(assembler, symbol_data), 0)
 
         code_size = len(assembler.assembled_bytes)
 
-- 
2.43.0


From 12af5ad952b609a501eae2cbadbd516c564954c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 59/63] fix: elf references to unknown symbols are relocated

---
 necroassembler/linker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/linker.py b/necroassembler/linker.py
index 6922936..c3178b7 100644
--- a/necroassembler/linker.py
+++ b/necroassembler/linker.py
@@ -78,6 +78,9 @@ class ELF:
 
     def link(self, assembler):
 
+        for address, symbol_data in self.relocations.items():
+            self.relocate(address, symbol_data)
+
         # first prepare the .shstrtab section
         sh_string_table = b'\x00'
         for section_name, section_data in assembler.sections.items():
-- 
2.43.0


From b738b35bb4e128e8f301b1776c204101da6210f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 60/63] fix: nes prg/chr sizes are the bytes 4 and 5 of the
 header

---
 necroassembler/platforms/nes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/necroassembler/platforms/nes.py b/necroassembler/platforms/nes.py
index 85f7c9a..d5f3405 100644
--- a/necroassembler/platforms/nes.py
+++ b/necroassembler/platforms/nes.py
@@ -69,11 +69,11 @@ class AssemblerNES(AssemblerMOS6502):
 
     @directive('cartridge_prg_roms')
     def _set_cartridge_title(self, instr):
-        self._cartridge_fill(instr, 0x05, 1)
+        self._cartridge_fill(instr, 0x04, 1)
 
     @directive('cartridge_chr_roms')
     def _set_cartridge_license(self, instr):
-        self._cartridge_fill(instr, 0x06, 1)
+        self._cartridge_fill(instr, 0x05, 1)
 
     @directive('chr_pattern_table')
     def _build_chr_pattern_table(self, instr):
-- 
2.43.0


From 6f7a6bd3e977eda0fde9fc6df01bc7c73c02088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 61/63] fix: gameboy global checksum does not include itself

---
 necroassembler/platforms/gameboy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 50aae17..2f54bd9 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -164,8 +164,10 @@ class AssemblerGameboy(AssemblerLR35902):
 
         # global checksum
         global_checksum = 0
-        for byte in self.assembled_bytes:
-            global_checksum += int(byte)
+        for index, byte in enumerate(self.assembled_bytes):
+            # the checksum itself is not included
+            if index not in (0x14e, 0x14f):
+                global_checksum += int(byte)
 
         self.assembled_bytes[0x14e] = (global_checksum >> 8) & 0xFF
         self.assembled_bytes[0x14f] = global_checksum & 0xFF
-- 
2.43.0


From d716a516d26731bcfa5bdbd1003e04e79f65463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 62/63] fix: gameboy header is never moved by the filling of
 the previous area

---
 necroassembler/platforms/gameboy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/necroassembler/platforms/gameboy.py b/necroassembler/platforms/gameboy.py
index 2f54bd9..695dcd1 100644
--- a/necroassembler/platforms/gameboy.py
+++ b/necroassembler/platforms/gameboy.py
@@ -51,6 +51,9 @@ class AssemblerGameboy(AssemblerLR35902):
             raise InvalidCartidgeHeaderOffset(instr)
 
         self.change_org(0x100, self.current_org_end)
+        # filling the previous area could have moved the header
+        if len(self.assembled_bytes) != 256:
+            raise InvalidCartidgeHeaderOffset(instr)
         nop_jp_150 = b'\x00\xC3\x50\x01'
         nintendo_logo = bytes((
             0xCE, 0xED, 0x66, 0x66, 0xCC, 0x0D, 0x00, 0x0B,
-- 
2.43.0


From bc27842cc2845dae914a1470cf4967493a348f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 63/63] fix: psx stack pointer is at offset 0x30 of the header

---
 necroassembler/platforms/psx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/necroassembler/platforms/psx.py b/necroassembler/platforms/psx.py
index 85dde68..fdb170e 100644
--- a/necroassembler/platforms/psx.py
+++ b/necroassembler/platforms/psx.py
@@ -24,6 +24,7 @@ def main():
         output.write(b'\xFF\xFF\xFF\xFF')  # gp
         output.write(b'\x00\x00\x01\x80')  # text 0x80010000
         output.write(pack_le32u(len(asm.assembled_bytes)))
+        output.seek(0x30)
         output.write(b'\xF0\xFF\x1F\x80')  # stack ptr
         output.seek(0x4C)
         output.write(
-- 
2.43.0

