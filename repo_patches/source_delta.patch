From 1ed83cf344e161b75c92ab00f17d00be2a2c529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 01/38] fix: validators built from several ranges accepted
 every opcode

The range validators are or-ed together starting from Bit(1), so is_valid was
constantly true for an opcode set made of several ranges (e.g. an Enum with the
values 0, 1, 2, 4, 5) and disassemble raised KeyError instead of ValueError.
---
 peak/assembler/assembler_util.py  | 2 +-
 peak/assembler2/assembler_util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 779cb9f..707d467 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -118,6 +118,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(opcodes, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 779cb9f..707d467 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -118,6 +118,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(opcodes, is_valid)
-- 
2.43.0


From 48006f27316cf05530198a14e58a2a899c92fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 02/38] fix: opcode validators were shared between different
 opcode widths

_gen_is_valid specialises the validator for the width (implicit upper bound, one
hot codes) but cached it under the opcodes only, so whether an opcode was valid
depended on which other types had been assembled before.
---
 peak/assembler/assembler_util.py  | 9 +++++----
 peak/assembler2/assembler_util.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 707d467..0bd663f 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -20,8 +20,9 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    key = opcodes, width
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[key]
     except KeyError:
         pass
 
@@ -36,7 +37,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +47,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +121,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(0))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(key, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 707d467..0bd663f 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -20,8 +20,9 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    key = opcodes, width
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[key]
     except KeyError:
         pass
 
@@ -36,7 +37,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +47,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +121,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(0))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(key, is_valid)
-- 
2.43.0


From 437690ae63959be6572a95f454ad7ed12c4fd551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 03/38] fix: negative Signed fields corrupted the other fields
 of an encoding

int() of a Signed bit vector is negative when its sign bit is set, so or-ing it
into the opcode set every higher bit as well.
---
 peak/assembler/assembler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 088d2ee..b6caba6 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -269,7 +269,8 @@ def _field(isa : tp.Type[AbstractBitVector]):
     layout = {}
 
     def assembler(inst):
-        return int(inst)
+        # mask as int of a signed vector may be negative
+        return int(inst) & ((1 << width) - 1)
 
     def disassembler(opcode):
         return isa(opcode)
-- 
2.43.0


From 608759eed66c941a2e3d19a986e0de17a1323ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 04/38] fix: disassemble_tag raised NameError instead of
 ValueError for an invalid tag

---
 peak/assembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index b6caba6..46b1f07 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -74,7 +74,7 @@ class Assembler(AbstractAssembler):
         if not _issubclass(self.isa, Sum):
             raise TypeError('can only disassemble tag for Sum')
         if not self.is_valid_tag(tag):
-            raise ValueError(f'invalid tag: {opcode}')
+            raise ValueError(f'invalid tag: {tag}')
         return self._tag_dsm(tag)
 
     def is_valid_tag(self, tag: AbstractBitVector) -> AbstractBit:
-- 
2.43.0


From 3190efea82c38c180255528ad903dc61dc5c7b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 05/38] fix: disassemble_tag raised KeyError for every tag

The tag table is keyed by int but was looked up with the BitVector itself, whose
hash is not that of the int.
---
 peak/assembler/assembler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 46b1f07..f8c7dd6 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -252,7 +252,8 @@ def _sum(isa: tp.Type[Sum]):
 
 
     tag_assemble = name_to_tag.__getitem__
-    tag_diasssamble = tag_to_name.__getitem__
+    def tag_diasssamble(tag: BitVector[tag_width]):
+        return tag_to_name[tag.as_uint()]
     tag_is_valid = _gen_is_valid(tag_to_name.keys(), tag_width)
     return (assemble, disassemble, is_valid, width, layout,
             tag_assemble, tag_diasssamble, tag_is_valid, tag_width, tag_layout)
-- 
2.43.0


From 6cf81ce2cde07bdbba646d3957976308a67dbc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 06/38] fix: from_fields failed when Signed/Unsigned and other
 fields were mixed

Concatenating bit vectors of different (sub)types is an error, so an assembled
value with e.g. a Signed and a BitVector field could not be built from its
fields.
---
 peak/assembler/assembled_adt.py  | 4 +++-
 peak/assembler2/assembled_adt.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 817d3f6..d3fd2ef 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -46,7 +46,9 @@ def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, de
     for field_name, (low, hi) in layout.items():
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
-    bv = reduce(bv_type.concat, (_as_bv(s) for s in slots if s is not None))
+    bvs = (_as_bv(s) for s in slots if s is not None)
+    # Signed / Unsigned fields can't be concatenated as they are
+    bv = reduce(bv_type.concat, (bv_type[s.size](s) for s in bvs))
     assert bv.size == width
     #Need to cast to bv_type since magma's concats do not return bv_type
     return bv_type[width](bv)
diff --git a/peak/assembler2/assembled_adt.py b/peak/assembler2/assembled_adt.py
index ef850d3..cbba9d6 100644
--- a/peak/assembler2/assembled_adt.py
+++ b/peak/assembler2/assembled_adt.py
@@ -176,7 +176,8 @@ class AssembledADT(metaclass=AssembledADTMeta):
     def from_fields(cls, *args, **kwargs):
         def _as_bv(v):
             if isinstance(v, AbstractBitVector):
-                bv_value = v
+                # Signed / Unsigned fields can't be concatenated as they are
+                bv_value = cls.bv_type[v.size](v)
             elif isinstance(v, AbstractBit):
                 bv_value = v.get_family().BitVector[1](v)
             elif isinstance(v, AssembledADT):
-- 
2.43.0


From 0e0dc1e6fa4a43063e4a6848ad356aec87bf58e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 07/38] fix: from_fields raised 'invalid layout' for types with
 a zero width field

An Enum whose only member is 0 and the tag of a one member TaggedUnion are
encoded in no bits at all; the layout check required at least one.
---
 peak/assembler/assembled_adt.py | 3 +++
 peak/assembler2/assembler.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index d3fd2ef..83f3045 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -33,6 +33,9 @@ RESERVED_NAMES = frozenset({
 def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, default_value: int):
     if layout.keys() != field_bvs.keys():
         raise ValueError('layout does not match field_bvs')
+
+    # fields of width 0 (e.g. an Enum with a single member) occupy no bits
+    layout = {k: r for k, r in layout.items() if r[0] != r[1]}
     ranges = sorted(layout.values())
     if not all(
             type(r0) == type(r1) == tuple
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 2d0ed00..b9d21b3 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -68,6 +68,9 @@ def _create_from_layout(width, layout, field_bvs):
     if layout.keys() != field_bvs.keys():
         raise ValueError('layout does not match field_bvs')
 
+    # fields of width 0 (e.g. an Enum with a single member) occupy no bits
+    layout = {k: r for k, r in layout.items() if r[0] != r[1]}
+
     ranges = sorted(layout.values())
     if not all(
             type(r0) == type(r1) == tuple
-- 
2.43.0


From 0373817942f8ee0717c42db075addaf5cce1f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 08/38] fix: legacy assembler crashed on sums with a Bit
 alternative

---
 peak/auto_assembler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/peak/auto_assembler.py b/peak/auto_assembler.py
index d5a7b16..d66616f 100644
--- a/peak/auto_assembler.py
+++ b/peak/auto_assembler.py
@@ -133,8 +133,7 @@ def _sum(isa : Sum):
         tag, e = encoding[field]
         assert tag.size == tag_width, (tag, tag.size, tag_width)
         tag = tag.zext(width - tag_width)
-        pay_load = e(inst.value)
-        pay_load = pay_load.zext(width - pay_load.size)
+        pay_load = BitVector[width](e(inst.value))
         opcode |= tag
         opcode |= pay_load << tag_width
         return opcode
-- 
2.43.0


From c0752f41f06dda9e3dc69757328ef2d74de20f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 09/38] fix: legacy assembler returned an exception object for
 a wrong constant

---
 peak/auto_assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/auto_assembler.py b/peak/auto_assembler.py
index d66616f..f7f9707 100644
--- a/peak/auto_assembler.py
+++ b/peak/auto_assembler.py
@@ -156,11 +156,11 @@ def _bv_const(isa : AbstractBitVector):
     T = type(isa)
     def assembler(inst):
         if inst != isa:
-            return ValueError()
+            raise ValueError()
         return inst
     def disassembler(opcode):
         if opcode != isa:
-            return ValueError()
+            raise ValueError()
         return T(opcode)
     return assembler, disassembler, get_width(isa), None
 
-- 
2.43.0


From 4dee3446abfe42f09afb78e74d65a10c295efc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 10/38] fix: bitfield size of an enum was too small for its
 largest member

---
 peak/bitfield.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 2ca967b..2f18fb6 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -25,7 +25,11 @@ def size(type):
     elif issubclass(type, AbstractBitVector):
         s = type.size
     elif issubclass(type, Enum):
-        return clog2(len(list(type.enumerate())))
+        values = [e._value_ for e in type.enumerate()]
+        if all(isinstance(v, int) for v in values):
+            # members need not be numbered densely from 0
+            return clog2(max(values) + 1)
+        return clog2(len(values))
     elif issubclass(type, Product):
         s = sum([size(getattr(type,key)) for key in type.field_dict])
     elif issubclass(type, Sum):
-- 
2.43.0


From fbfc9a193cfcdff307b4673adcaf52c5e6ff644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 11/38] fix: bitfield encode of a negative signed field was a
 negative word

---
 peak/bitfield.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 2f18fb6..da20421 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -64,7 +64,13 @@ def encode(inst, reverse=False):
     bitfield = getattr(inst, 'bitfield', 0)
     if isinstance(inst, (AbstractBit, AbstractBitVector, Enum)):
         # depreciated
-        word = inst._value_ if isinstance(inst,Enum) else int(inst)
+        if isinstance(inst, Enum):
+            word = inst._value_
+        elif isinstance(inst, AbstractBitVector):
+            # int() of a negative signed vector would overwrite other fields
+            word = inst.as_uint()
+        else:
+            word = int(inst)
     else:
         typeinst = type(inst)
         if isinstance(inst,Product):
-- 
2.43.0


From d3ccfc3928a67de90afe85a161e4c3ea9d9d7728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 12/38] fix: families compared equal to instances of their
 subclasses, so a family closure returned another family's class

---
 peak/family.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peak/family.py b/peak/family.py
index 692ba2e..f744e9d 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -35,7 +35,7 @@ class AbstractFamily(metaclass=ABCMeta):
             logger.debug('\n'.join(msg))
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return True
         else:
             return NotImplemented
@@ -113,7 +113,7 @@ class _AsmFamily(AbstractFamily):
         return self.get_adt_t(adt_t).from_fields
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return (self._assembler == other._assembler
                     and self._aadt_t == other._aadt_t
                     and self._asm_extras == other._asm_extras)
@@ -146,7 +146,7 @@ class _RewriterFamily(AbstractFamily):
         return _compose(deco, s_deco)
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return self._passes == other._passes
         else:
             return NotImplemented
-- 
2.43.0


From 5788c53d79bce1b4fc47c1d6bda90d501719b411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 13/38] fix: registers of product, tuple and union types could
 not be instantiated in the Python family

---
 peak/family.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peak/family.py b/peak/family.py
index f744e9d..b7ae809 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -182,7 +182,7 @@ class _RegFamily(AbstractFamily):
             @family.assemble(locals(), globals())
             class Register(Peak, cls.RegBase):
                 def __init__(self):
-                    self.value: T = T(init)
+                    self.value: T = init if isinstance(init, T) else T(init)
 
                 def __call__(self, value: T, en: family.Bit) -> T:
                     assert value is not None
@@ -200,7 +200,7 @@ class _RegFamily(AbstractFamily):
             @family.assemble(locals(), globals())
             class Register(Peak, cls.RegBase):
                 def __init__(self):
-                    self.value: T = T(init)
+                    self.value: T = init if isinstance(init, T) else T(init)
 
                 def __call__(self, value: T) -> T:
                     retvalue = self.value
@@ -230,7 +230,7 @@ class _RegFamily(AbstractFamily):
 
         class Register(Peak, cls.AttrRegBase):
             def __init__(self):
-                self.value: T = T(init)
+                self.value: T = init if isinstance(init, T) else T(init)
 
             def _poke_(self, value):
                 if not isinstance(value, T):
-- 
2.43.0


From 38068d4d7c7884c7d535dd3842b167f30328ecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 14/38] fix: typecheck accepted surplus results and crashed on
 components without outputs

---
 peak/features.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/peak/features.py b/peak/features.py
index 8e9562d..a09eabf 100644
--- a/peak/features.py
+++ b/peak/features.py
@@ -82,9 +82,15 @@ def typecheck(call_fn):
     @functools.wraps(call_fn)
     def call_wrapper(*args, **kwargs):
         results = call_fn(*args, **kwargs)
+        if output_t is None:
+            if results is not None:
+                raise TypeError(f"result {type(results)} of {call_fn}, which declares none")
+            return results
         single_output = not isinstance(results, tuple)
         if single_output:
             results = (results,)
+        if len(results) != len(output_t.field_dict):
+            raise TypeError(f"{len(results)} results did not match the {len(output_t.field_dict)} declared outputs of {call_fn}")
         for i, (oname, otype) in enumerate(output_t.field_dict.items()):
             if not isinstance(results[i], otype):
                 raise TypeError(f"result type for output {oname} : {type(results[i])} did not match expected type {otype} in {call_fn}")
-- 
2.43.0


From 7a54bda7a6537142807f74ac23346ed612cd014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:19 +0000
Subject: [PATCH 15/38] fix: map to architectures that have no constant inputs

---
 peak/mapper/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index bf6147e..caaaef7 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -530,7 +530,6 @@ class IRMapper(SMTMapper):
         for fi, form in enumerate(archmapper.input_forms):
             # form_condition represents the & of all the appropriate matches
             #   and that the const adt types are valid
-            assert len(archmapper.const_valid_conditions[fi]) > 0
             conditions = [form_var.match_index(fi)] + archmapper.const_valid_conditions[fi]
             for path, choice in form.path_dict.items():
                 match_path = path + (Match,)
@@ -569,7 +568,8 @@ class IRMapper(SMTMapper):
             const_fields = [field for field, T in archmapper.peak_fc.Py.input_t.field_dict.items() if issubclass(T, Const)]
             inputs = aadt_product_to_dict(arch_in)
             const_valid_conditions = [is_valid(inputs[field]) for field in const_fields]
-            preconditions = [And(const_valid_conditions)]
+            #Note: there might not be any const fields
+            preconditions = list(const_valid_conditions)
 
             #Alternative correct (but slower) precondition
             #preconditions = [is_valid(archmapper.input_value), is_valid(self.input_value)]
-- 
2.43.0


From 6fc1bf2c5790b335ca4ec0fca35bf5b5bbeaf4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 16/38] fix: evaluate every form of a stateful component from
 its initial state

---
 peak/mapper/mapper.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index caaaef7..ae3dd3e 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -126,6 +126,7 @@ class SMTMapper:
         self.input_aadt_t = input_aadt_t
         output_aadt_t = family.SMTFamily().get_adt_t(stripped_output_t)
 
+        self.peak_cls = Peak_cls
         self.peak_obj: Peak = Peak_cls()
 
 
@@ -146,7 +147,7 @@ class SMTMapper:
             inputs = aadt_product_to_dict(input_form.value)
             self.const_valid_conditions.append([is_valid(inputs[field]) for field in const_fields])
             #Construct output_aadt value
-            outputs = self.peak_obj(**inputs)
+            outputs = self.new_peak_obj()(**inputs)
 
             output_value = wrap_outputs(outputs, output_aadt_t)
 
@@ -169,6 +170,13 @@ class SMTMapper:
         self.input_varmap = input_varmap
         self.const_paths = set(path for path, T in self.path_to_adt(True, strip=False).items() if issubclass(T, Const))
 
+    # Each evaluation needs its own object as calling it updates its registers
+    def new_peak_obj(self):
+        peak_obj = self.peak_cls()
+        for path, bb in get_black_boxes(peak_obj).items():
+            bb._set_outputs(*self.bb_outputs[path])
+        return peak_obj
+
     @lru_cache(None)
     def path_to_adt(self, input, strip=False):
         cls = self.peak_fc.Py
@@ -649,7 +657,7 @@ class IRMapper(SMTMapper):
 
             #Create F
             def run_peak(mapper, input_value):
-                obj = mapper.peak_obj
+                obj = mapper.new_peak_obj()
                 input_dict = aadt_product_to_dict(input_value)
                 outputs = obj(**input_dict)
                 output = wrap_outputs(outputs, mapper.output_aadt_t)
-- 
2.43.0


From 79caf009bea667dd2e86419aef53978a037dbc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 17/38] fix: match the leaves of nested outputs in the simple
 mapping formula

---
 peak/mapper/mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index ae3dd3e..476b5d7 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -661,7 +661,7 @@ class IRMapper(SMTMapper):
                 input_dict = aadt_product_to_dict(input_value)
                 outputs = obj(**input_dict)
                 output = wrap_outputs(outputs, mapper.output_aadt_t)
-                output_dict = {(k,): v for k, v in aadt_product_to_dict(output).items()}
+                _, output_dict, _ = SMTForms()(mapper.output_aadt_t, value=output)
                 bb_inputs = get_bb_inputs(obj)
                 return output_dict, bb_inputs
 
-- 
2.43.0


From 89d4c9050d5f89810962bfe5e1a8d4c61d5db36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 18/38] fix: read the chosen constant where a constant is also
 bound by some routing

---
 peak/mapper/mapper.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 476b5d7..ae45acc 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -556,6 +556,8 @@ class IRMapper(SMTMapper):
         self.ob_var = ob_var
         self.input_bindings = input_bindings
         self.output_bindings = output_bindings
+        #arch_path -> var holding the value chosen for an unbound const when it is not the one in the input_varmap
+        self.exists_vars = {}
 
 
 
@@ -602,6 +604,8 @@ class IRMapper(SMTMapper):
 
             #name -> var
             name_to_var = {}
+            #name -> arch_path
+            name_to_arch_path = {}
 
             fb_conditions = {} #form/binding conditions in a list
             for fi, ibindings in enumerate(input_bindings):
@@ -613,6 +617,7 @@ class IRMapper(SMTMapper):
                         arch_name = ".".join(["A"] + [str(p) for p in arch_path])
                         arch_var = archmapper.input_varmap[arch_path]
                         name_to_var[arch_name] = arch_var
+                        name_to_arch_path[arch_name] = arch_path
                         is_unbound = ir_path is Unbound
                         is_constrained = arch_path in self.archmapper.path_constraints
                         is_const = issubclass(arch_input_path_to_adt[arch_path], Const)
@@ -650,6 +655,7 @@ class IRMapper(SMTMapper):
                 e_conds = Or([(form_var.match_index(fi) & ib_var.match_index(bi)) for fi,bi in exists_fbs]).to_hwtypes()
                 sub_var = e_conds.ite(var_e, var_a)
                 overlap_subs.append((var, sub_var))
+                self.exists_vars[name_to_arch_path[name]] = var_e
                 pysmt_forall_vars.remove(var.value)
                 pysmt_forall_vars.add(var_a.value)
                 #Will need to do an input transformation
@@ -852,7 +858,7 @@ def rr_from_solver(solver, irmapper):
     bv_ibinding = []
     for ir_path, arch_path in ibinding:
         if (ir_path is Unbound) and (arch_path in am.const_paths or arch_path in am.path_constraints):
-            var = am.input_varmap[arch_path]
+            var = im.exists_vars.get(arch_path, am.input_varmap[arch_path])
             bv_val = solved_to_bv(var, solver)
             ir_path = bv_val
         bv_ibinding.append((ir_path, arch_path))
-- 
2.43.0


From 6a9cb755e39105a22c00b38906febbece5fac7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 19/38] fix: let enumerated operands range over their members
 when mapping and verifying

---
 peak/mapper/mapper.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index ae45acc..d55d526 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -141,11 +141,13 @@ class SMTMapper:
         #output_form = output_forms[input_form_idx][output_form_idx]
         output_forms = []
         self.const_valid_conditions = []
+        self.data_valid_conditions = []
         const_fields = [field for field, T in input_t.field_dict.items() if issubclass(T, Const)]
 
         for input_form in input_forms:
             inputs = aadt_product_to_dict(input_form.value)
             self.const_valid_conditions.append([is_valid(inputs[field]) for field in const_fields])
+            self.data_valid_conditions.append([is_valid(v) for field, v in inputs.items() if field not in const_fields])
             #Construct output_aadt value
             outputs = self.new_peak_obj()(**inputs)
 
@@ -345,7 +347,9 @@ class RewriteRule:
             if arch_path not in arch_out_values:
                 raise ValueError(f"{arch_path} is not valid")
             outputs.append(ir_out_values[ir_path] == arch_out_values[arch_path])
-        formula = And(outputs)
+        #The inputs only range over the valid values of their types
+        valid_conds = [is_valid(v) for v in (*ir_inputs.values(), *arch_inputs.values())]
+        formula = Implies(And(valid_conds), And(outputs))
 
         formula, _ = update_with_bb(
             formula,
@@ -579,7 +583,11 @@ class IRMapper(SMTMapper):
             inputs = aadt_product_to_dict(arch_in)
             const_valid_conditions = [is_valid(inputs[field]) for field in const_fields]
             #Note: there might not be any const fields
-            preconditions = list(const_valid_conditions)
+            preconditions = []
+
+            #The data and the ir inputs only range over the valid values of their types
+            data_valid_conditions = [is_valid(v) for field, v in inputs.items() if field not in const_fields]
+            data_valid_conditions += [is_valid(v) for v in aadt_product_to_dict(ir_in).values()]
 
             #Alternative correct (but slower) precondition
             #preconditions = [is_valid(archmapper.input_value), is_valid(self.input_value)]
@@ -688,7 +696,7 @@ class IRMapper(SMTMapper):
                 F_conds.append(Implies(ob_cond, And(o_conds)))
             assert len(F_conds) > 0
             preconditions.append(Or(o_preconditions))
-            F = And(F_conds)
+            F = And(F_conds + const_valid_conditions)
             impl_conds = []
             fb_conds = []
 
@@ -708,7 +716,7 @@ class IRMapper(SMTMapper):
                     forall_constraints.append(Or(arch_var == c for c in constraints))
             preconditions += exist_constraints
             preconditions.append(Or(fb_conds))
-            F_cond = And(forall_constraints + [Or(impl_conds)])
+            F_cond = And(data_valid_conditions + forall_constraints + [Or(impl_conds)])
             valid_conditions = And(preconditions)
             formula = And([valid_conditions, Implies(F_cond, F)])
 
@@ -766,16 +774,22 @@ class IRMapper(SMTMapper):
                             submap.append((arch_var, ir_var))
                             forall_vars.add(ir_var.value)
 
+                    #The data and the ir inputs only range over the valid values of their types
+                    valid_conds = [cond.substitute(*submap) for cond in archmapper.data_valid_conditions[fi]]
+                    valid_conds += self.const_valid_conditions[0] + self.data_valid_conditions[0]
+
                     for bo, obinding in enumerate(output_bindings):
                         bo_match = ob_var.match_index(bo)
                         conditions = list(form_conditions[fi]) + [bi_match, bo_match]
+                        out_conds = []
                         for ir_path, arch_path in obinding:
                             if ir_path is Unbound:
                                 continue
                             ir_out = self.output_forms[0][0].varmap[ir_path]
                             arch_out = archmapper.output_forms[fi][0].varmap[arch_path]
                             arch_out = arch_out.substitute(*submap)
-                            conditions.append(ir_out == arch_out)
+                            out_conds.append(ir_out == arch_out)
+                        conditions.append(Implies(And(valid_conds), And(out_conds)).to_hwtypes())
                         constraints.append(conditions)
 
             logger.debug("Unconstrained Formula")
-- 
2.43.0


From d644e194a36afb826d32eab520ada2d5b0776a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 20/38] fix: give constrained data inputs one of their allowed
 values in the rewrite rule

---
 peak/mapper/mapper.py | 7 ++++++-
 peak/mapper/utils.py  | 8 ++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index d55d526..435f6a8 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -871,7 +871,12 @@ def rr_from_solver(solver, irmapper):
     #extract, simplify, and convert constants to BV in the input binding
     bv_ibinding = []
     for ir_path, arch_path in ibinding:
-        if (ir_path is Unbound) and (arch_path in am.const_paths or arch_path in am.path_constraints):
+        if (ir_path is Unbound) and arch_path in am.path_constraints and arch_path not in am.const_paths:
+            #The rule holds for all of the constraints so any one of them can be used
+            ir_path = am.path_constraints[arch_path][0]
+            if isinstance(ir_path, AssembledADT):
+                ir_path = ir_path._value_
+        elif (ir_path is Unbound) and arch_path in am.const_paths:
             var = im.exists_vars.get(arch_path, am.input_varmap[arch_path])
             bv_val = solved_to_bv(var, solver)
             ir_path = bv_val
diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index fb6dffa..8ac7598 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -343,13 +343,13 @@ def rebind_value(val, _family):
     elif isinstance(val, family.PyFamily().Bit):
         return _family.Bit(val)
     elif isinstance(val, family.SMTFamily().BitVector):
-        if not val._value_.is_constant():
+        if not val.value.is_constant():
             raise ValueError("Cannot convert non-const SMT var to Py")
-        return _family.BitVector[val.size](val._value_.constant_value())
+        return _family.BitVector[val.size](val.value.constant_value())
     elif isinstance(val, family.SMTFamily().Bit):
-        if not val._value_.is_constant():
+        if not val.value.is_constant():
             raise ValueError("Cannot convert non-const SMT var to Py")
-        return _family.Bit(val._value_.constant_value())
+        return _family.Bit(val.value.constant_value())
     else:
         raise ValueError(f"Cannot rebind value: {val}")
 
-- 
2.43.0


From 8b7114609fa29183d43e4f793842efceb32d0b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 21/38] fix: allow constraints on enumerated data inputs in the
 substitution formula

---
 peak/mapper/mapper.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 435f6a8..2ea130b 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -203,7 +203,8 @@ class ArchMapper(SMTMapper):
             adt = path_to_adt[path]
             aadt = self.family.SMTFamily().get_adt_t(rebind_type(adt, self.family.SMTFamily()))
             try:
-                constraints = tuple((aadt(c) for c in constraints))
+                constraints = tuple(aadt(c) for c in constraints)
+                constraints = tuple(c._value_ if isinstance(c, AssembledADT) else c for c in constraints)
             except Exception as e:
                 print("Invalid constraints for {path}")
                 raise e
@@ -874,8 +875,6 @@ def rr_from_solver(solver, irmapper):
         if (ir_path is Unbound) and arch_path in am.path_constraints and arch_path not in am.const_paths:
             #The rule holds for all of the constraints so any one of them can be used
             ir_path = am.path_constraints[arch_path][0]
-            if isinstance(ir_path, AssembledADT):
-                ir_path = ir_path._value_
         elif (ir_path is Unbound) and arch_path in am.const_paths:
             var = im.exists_vars.get(arch_path, am.input_varmap[arch_path])
             bv_val = solved_to_bv(var, solver)
-- 
2.43.0


From f5fe5057fbcd5abe7aff92a263a23808d11b9bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 22/38] fix: quantify constrained data inputs that occur in no
 binding

---
 peak/mapper/mapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 2ea130b..fc54620 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -715,6 +715,9 @@ class IRMapper(SMTMapper):
                     exist_constraints.append(Or(arch_var == c for c in constraints))
                 else:
                     forall_constraints.append(Or(arch_var == c for c in constraints))
+                    #the input might not occur in any binding
+                    if arch_var.value not in pysmt_forall_vars:
+                        pysmt_forall_vars.append(arch_var.value)
             preconditions += exist_constraints
             preconditions.append(Or(fb_conds))
             F_cond = And(data_valid_conditions + forall_constraints + [Or(impl_conds)])
-- 
2.43.0


From 23fd713f06ce158a77755df544b93085bb298c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 23/38] fix: build inputs of rules that bind an operand to
 several places

---
 peak/mapper/mapper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index fc54620..aea4593 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -268,14 +268,13 @@ class RewriteRule:
             raise ValueError("arch_inputs are wrong")
 
         ibinding = rebind_binding(self.ibinding, family)
-        ir_binding = []
+        #An ir_path can be bound to several arch_paths
+        ir_binding = [(val, ir_path) for ir_path, val in ir_inputs.items()]
         arch_binding = []
         for ir_path, arch_path in ibinding:
             if isinstance(ir_path, tuple):
                 assert ir_path in ir_inputs
-                val = ir_inputs[ir_path]
-                ir_binding.append((val, ir_path))
-                arch_binding.append((val, arch_path))
+                arch_binding.append((ir_inputs[ir_path], arch_path))
             elif ir_path is Unbound:
                 assert arch_path in arch_inputs
                 arch_binding.append((arch_inputs[arch_path], arch_path))
-- 
2.43.0


From 486cc730be091306f0c886e3e1ef38ab1f0059bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 24/38] fix: refuse rewrite rules that leave a Const input
 unbound

---
 peak/mapper/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index aea4593..8cb71b0 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -231,7 +231,7 @@ class RewriteRule:
         arch_path_types = _create_path_to_adt(arch_fc.Py.input_t)
         self.ibinding = []
         for ir_path, arch_path in ibinding:
-            if ir_path is Unbound and isinstance(arch_path_types[arch_path], Const):
+            if ir_path is Unbound and issubclass(arch_path_types[arch_path], Const):
                 raise ValueError(f"Arch path {arch_path} needs to have a value")
             elif ir_path is not Unbound and not isinstance(ir_path, tuple):
                 #Build the python bitvector and verify it is valid
@@ -256,7 +256,7 @@ class RewriteRule:
         for ir_path, arch_path in self.ibinding:
             if isinstance(ir_path, tuple):
                 ir_paths.add(ir_path)
-            elif ir_path is Unbound and not isinstance(arch_path_types[arch_path], Const):
+            elif ir_path is Unbound and not issubclass(arch_path_types[arch_path], Const):
                 arch_paths.add(arch_path)
         return ir_paths, arch_paths
 
-- 
2.43.0


From a8d030efd792e502cbb8a723122ba60a0af1cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 25/38] fix: build inputs of rules for sums of leaf types

---
 peak/mapper/mapper.py | 11 ++++++-----
 peak/mapper/utils.py  | 11 ++++++++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 8cb71b0..b0c2a47 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -16,7 +16,7 @@ from .utils import Unbound, Match
 from .utils import create_bindings, pretty_print_binding
 from .utils import aadt_product_to_dict
 from .utils import solved_to_bv, log2
-from .utils import rebind_binding
+from .utils import rebind_binding, rebind_path
 from hwtypes.adt_meta import GetitemSyntax, AttrSyntax, EnumMeta
 import inspect
 from peak import Peak
@@ -267,6 +267,7 @@ class RewriteRule:
         if set(arch_inputs.keys()) != set(arch_paths):
             raise ValueError("arch_inputs are wrong")
 
+        arch_aadt = _input_aadt_t(self.arch_fc, family)
         ibinding = rebind_binding(self.ibinding, family)
         #An ir_path can be bound to several arch_paths
         ir_binding = [(val, ir_path) for ir_path, val in ir_inputs.items()]
@@ -274,14 +275,14 @@ class RewriteRule:
         for ir_path, arch_path in ibinding:
             if isinstance(ir_path, tuple):
                 assert ir_path in ir_inputs
-                arch_binding.append((ir_inputs[ir_path], arch_path))
+                val = ir_inputs[ir_path]
             elif ir_path is Unbound:
                 assert arch_path in arch_inputs
-                arch_binding.append((arch_inputs[arch_path], arch_path))
+                val = arch_inputs[arch_path]
             else:
-                arch_binding.append((ir_path, arch_path))
+                val = ir_path
+            arch_binding.append((val, rebind_path(arch_path, arch_aadt.adt_t, family)))
 
-        arch_aadt = _input_aadt_t(self.arch_fc, family)
         arch_binding = SimplifyBinding()(arch_aadt, arch_binding)
         # internally verify entire binding was simplified to a constant
         assert len(arch_binding) == 1
diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index 8ac7598..1647203 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -357,12 +357,21 @@ def rebind_value(val, _family):
 def rebind_binding(binding, _family):
     ret_binding = []
     for ir_path, arch_path in binding:
-        arch_path = arch_path[:-1] + (rebind_type(arch_path[-1], _family),)
         if not (isinstance(ir_path, tuple) or ir_path is Unbound):
             ir_path = rebind_value(ir_path, _family)
         ret_binding.append((ir_path, arch_path))
     return ret_binding
 
+#returns the path where the types naming a choice of a Sum are the ones of adt_t
+def rebind_path(path, adt_t, _family):
+    ret_path = ()
+    for n in path:
+        if n not in adt_t.field_dict:
+            n = rebind_type(n, _family)
+        adt_t = adt_t.field_dict[n]
+        ret_path += (n,)
+    return ret_path
+
 def aadt_product_to_dict(value : AssembledADT):
     assert isinstance(value, AssembledADT)
     aadt_t = type(value)
-- 
2.43.0


From 49d0a188cfd37d9357c0a47bc5a21e9c3c521f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 26/38] fix: serialize paths through sums

---
 peak/mapper/mapper.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index b0c2a47..feb3514 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -392,7 +392,28 @@ class RewriteRule:
             else:
                 rrule_out["obinding"].append(t)
 
-        return rrule_out
+        #The choice of a Sum is a type in a path
+        return {k: [tuple(_serialize_path(p) for p in t) for t in binding] for k, binding in rrule_out.items()}
+
+def _serialize_path(path):
+    if not isinstance(path, tuple):
+        return path
+    return tuple({'type': 'Sum', 'field': repr(n)} if inspect.isclass(n) else n for n in path)
+
+def _read_path(path, adt_t):
+    if not isinstance(path, tuple):
+        return path
+    ret_path = ()
+    for n in path:
+        adt_t = strip_modifiers(adt_t)
+        if isinstance(n, dict):
+            fields = [field for field in adt_t.field_dict if repr(field) == n['field']]
+            if len(fields) != 1:
+                raise ValueError(f"{n['field']} does not name a field of {adt_t}")
+            n = fields[0]
+        ret_path += (n,)
+        adt_t = adt_t.field_dict[n]
+    return ret_path
 
 def read_serialized_bindings(serialized_rr, ir_fc, arch_fc):
 
@@ -420,6 +441,9 @@ def read_serialized_bindings(serialized_rr, ir_fc, arch_fc):
         else:
             output_binding.append(tuple([tuple(o[0]), tuple(o[1])]))
 
+    ir_cls, arch_cls = ir_fc.Py, arch_fc.Py
+    input_binding = [(_read_path(u, ir_cls.input_t), _read_path(v, arch_cls.input_t)) for u, v in input_binding]
+    output_binding = [(_read_path(u, ir_cls.output_t), _read_path(v, arch_cls.output_t)) for u, v in output_binding]
     return RewriteRule(input_binding, output_binding, ir_fc, arch_fc)
 
 
-- 
2.43.0


From 01d24d3b2f2ad4e4ec7541ddd25b42789260399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 27/38] fix: forms of a given tagged union value

---
 peak/mapper/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index 1647203..5720627 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -130,7 +130,7 @@ class SMTForms(AssembledADTRecursor):
             if value is None:
                 sub_value = None
             else:
-                sub_value = value[field].value
+                sub_value = getattr(value, field_name).value
 
             sub_forms, sub_varmap, _sub_value = self(sub_aadt_t, path=path + (field_name,), value=sub_value)
             _value = aadt_t.from_fields(tag_bv=tag, **{field_name: _sub_value})
-- 
2.43.0


From 6a8fdf1e699e182e7a0b7dc286979974d5a8dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 28/38] fix: record named black box arguments in the declared
 order

---
 peak/black_box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index c67f0f7..ef3da94 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -54,7 +54,7 @@ class BlackBox:
             else:
                 if kwargs.keys() != input_t.field_dict.keys():
                     raise ValueError(f"{self} need to call with input_t {list(input_t.field_dict.items())}")
-                self._input_vals = tuple(kwargs.values())
+                self._input_vals = tuple(kwargs[field] for field in input_t.field_dict)
             return self._output_vals
         if hasattr(old_call, "_input_t"):
             assert hasattr(old_call, "_output_t")
-- 
2.43.0


From e84103c9e276860fa9778af9f59c63aa6b7439c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 29/38] fix: find the black boxes of a component after it
 changed

---
 peak/black_box.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index ef3da94..76e0683 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -1,6 +1,3 @@
-from functools import lru_cache
-
-@lru_cache(None)
 def get_black_boxes(obj, path=()):
     """Gets references to all the black boxes in the hierarchical circuit"""
 
@@ -17,7 +14,6 @@ def get_black_boxes(obj, path=()):
             ret = {**ret, **get_black_boxes(obj, path + (field,))}
     return ret
 
-@lru_cache(None)
 def get_black_box(obj, path):
     """Gets a specific black box given a path"""
     # Hack to avoid circular import
-- 
2.43.0


From 8330156b1af66b001b004c2ca1a73e78d77d9af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 30/38] fix: rounding modes RDN, RUP and RMM of floating point
 operations

---
 peak/float.py | 60 ++++++++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index e6b74a7..42e7fe1 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -136,19 +136,18 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup.reinterpret_as_bv()
-                    else:
-                        assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                    else: # rm == RoundingMode.RMM
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -174,19 +173,18 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup
-                    else:
-                        assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                    else: # rm == RoundingMode.RMM
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm
                     return out
@@ -210,16 +208,15 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)()
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
                         out_rdn = getattr(in0_rdn, op_name)()
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
                         out_rup = getattr(in0_rup, op_name)()
                         out = out_rup.reinterpret_as_bv()
-                    else:
-                        assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
+                    else: # rm == RoundingMode.RMM
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         out_rmm = getattr(in0_rmm, op_name)()
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -255,22 +252,21 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                     out_rtz = in0_rtz.fp_fma(in1_rtz, in2_rtz)
                     out = out_rtz.reinterpret_as_bv()
                 elif rm == RoundingMode.RDN:
-                    in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                    in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
-                    in2_rdn = cast(RoundingMode_hwtypes.RDN, in2)
+                    in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                    in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
+                    in2_rdn = cast(RoundingMode_hwtypes.RTN, in2)
                     out_rdn = in0_rdn.fp_fma(in1_rdn, in2_rdn)
                     out = out_rdn.reinterpret_as_bv()
                 elif rm == RoundingMode.RUP:
-                    in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rup = cast(RoundingMode_hwtypes.RUP, in2)
+                    in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                    in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
+                    in2_rup = cast(RoundingMode_hwtypes.RTP, in2)
                     out_rup = in0_rup.fp_fma(in1_rup, in2_rup)
                     out = out_rup.reinterpret_as_bv()
-                else:
-                    assert  rm == RoundingMode.RMM
-                    in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rmm = cast(RoundingMode_hwtypes.RUP, in2)
+                else: # rm == RoundingMode.RMM
+                    in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                    in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
+                    in2_rmm = cast(RoundingMode_hwtypes.RNA, in2)
                     out_rmm = in0_rmm.fp_fma(in1_rmm, in2_rmm)
                     out = out_rmm.reinterpret_as_bv()
                 return out
-- 
2.43.0


From 4e88c8c8d2499611ab03b7c8bb0979086418716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 31/38] fix: fused multiply-add with a constant rounding mode

---
 peak/float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/float.py b/peak/float.py
index 42e7fe1..e1528ae 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -348,7 +348,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         @family_closure
         def _fp_fma(family):
             rm_ = family.get_constructor(RoundingMode)(rm)
-            FMA = fp_fma_fc(family)
+            FMA = fp_fma(family)
             @family.assemble(locals(), globals())
             class _FMA(Peak):
                 def __init__(self):
-- 
2.43.0


From 3a1323f389fe10dce15d1fbbd507bcacfa7cfa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 32/38] fix: floating point classification operations return a
 Bit

---
 peak/float.py | 56 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index e1528ae..4ad2899 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -223,10 +223,44 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
             return Op
         return fc
 
+    @lru_cache(None)
+    def gen_unary_bit(op_name):
+        @family_closure
+        def fc(family: TypeFamily):
+            cast = _get_cast(family)
+            @family.assemble(locals(), globals())
+            class Op(Peak, BlackBox):
+                def __call__(self, rm: RoundingMode, in0: Data) -> Bit:
+                    if rm == RoundingMode.RNE:
+                        in0_rne = cast(RoundingMode_hwtypes.RNE, in0)
+                        out_rne = getattr(in0_rne, op_name)()
+                        out = out_rne
+                    elif rm == RoundingMode.RTZ:
+                        in0_rtz = cast(RoundingMode_hwtypes.RTZ, in0)
+                        out_rtz = getattr(in0_rtz, op_name)()
+                        out = out_rtz
+                    elif rm == RoundingMode.RDN:
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        out_rdn = getattr(in0_rdn, op_name)()
+                        out = out_rdn
+                    elif rm == RoundingMode.RUP:
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        out_rup = getattr(in0_rup, op_name)()
+                        out = out_rup
+                    else: # rm == RoundingMode.RMM
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        out_rmm = getattr(in0_rmm, op_name)()
+                        out = out_rmm
+                    return out
+            return Op
+        return fc
+
     closures = {}
     for k, f in AbstractFPVector.__dict__.items():
         if k.startswith('fp_'):
-            if len(inspect.signature(f).parameters) == 1:
+            if k.startswith('fp_is_'):
+                closures[_format_name(k)] = gen_unary_bit(k)
+            elif len(inspect.signature(f).parameters) == 1:
                 closures[_format_name(k)] = gen_unary(k)
             elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                 closures[_format_name(k)] = gen_binary_bit(k)
@@ -300,6 +334,22 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
 
             return fc
 
+        def gen_const_rm_unary_bit(op_name):
+            @family_closure
+            def fc(family):
+                cast = _get_cast_const_rm(rm, family)
+
+                @family.assemble(locals(), globals())
+                class Op(Peak, BlackBox):
+                    def __call__(self, in_: Data) -> Bit:
+                        in_float = cast(in_)
+                        out_bit = getattr(in_float, op_name)()
+                        return out_bit
+
+                return Op
+
+            return fc
+
         def gen_const_rm_binary(op_name):
             @family_closure
             def fc(family):
@@ -338,7 +388,9 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         closures_ = {}
         for k, f in AbstractFPVector.__dict__.items():
             if k.startswith('fp_'):
-                if len(inspect.signature(f).parameters) == 1:
+                if k.startswith('fp_is_'):
+                    closures_[_format_name(k)] = gen_const_rm_unary_bit(k)
+                elif len(inspect.signature(f).parameters) == 1:
                     closures_[_format_name(k)] = gen_const_rm_unary(k)
                 elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                     closures_[_format_name(k)] = gen_const_rm_binary_bit(k)
-- 
2.43.0


From 4c2098d57ea3e16f348f7c256ac95a2d609afd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 33/38] fix: rounding mode codes in the Python family

---
 peak/float.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index 4ad2899..6413266 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -23,6 +23,11 @@ def RoudningMode_utils(family):
     RM = RoundingMode
     RM_c = family.get_constructor(RoundingMode)
     BV3 = lambda e: family.BitVector[3](e.value)
+    if family.get_adt_t(RoundingMode) is RoundingMode:
+        # Comparisons give a bool and Bit.ite cannot select Enums
+        ite = lambda c, t, f: t if c else f
+    else:
+        ite = lambda c, t, f: c.ite(t, f)
     def RM_to_RM_hwtypes(rm: RoundingMode) -> RoundingMode_hwtypes:
         return {
             RoundingMode.RNE: RoundingMode_hwtypes.RNE,
@@ -41,13 +46,13 @@ def RoudningMode_utils(family):
         }[rm]
 
     def from_rm(rm: RoundingMode) -> BitVector[3]:
-        return (rm==RM.RNE).ite(
+        return ite(rm == RM.RNE,
             BV3(RM.RNE),
-            (rm==RM.RTZ).ite(
+            ite(rm == RM.RTZ,
                 BV3(RM.RTZ),
-                (rm == RM.RDN).ite(
+                ite(rm == RM.RDN,
                     BV3(RM.RDN),
-                    (rm == RM.RUP).ite(
+                    ite(rm == RM.RUP,
                         BV3(RM.RUP),
                         BV3(RM.RMM),
                     ),
@@ -56,13 +61,13 @@ def RoudningMode_utils(family):
         )
 
     def to_rm(rm: BitVector[3]) -> RoundingMode:
-        return (rm==BV3(RM.RNE)).ite(
+        return ite(rm == BV3(RM.RNE),
             RM_c(RM.RNE),
-            (rm==BV3(RM.RTZ)).ite(
+            ite(rm == BV3(RM.RTZ),
                 RM_c(RM.RTZ),
-                (rm == BV3(RM.RDN)).ite(
+                ite(rm == BV3(RM.RDN),
                     RM_c(RM.RDN),
-                    (rm == BV3(RM.RUP)).ite(
+                    ite(rm == BV3(RM.RUP),
                         RM_c(RM.RUP),
                         RM_c(RM.RMM),
                     ),
-- 
2.43.0


From b6bd6997499849cd6c96d525241786ecaedde196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 34/38] fix: report the solution of a multi-instruction rule

---
 peak/mapper/multi.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index d4b1451..29ac867 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -3,6 +3,7 @@ from functools import reduce
 from types import SimpleNamespace
 from hwtypes import strip_modifiers
 from peak import family as peak_family, family_closure, Peak, Const
+from peak.assembler import AssembledADT
 from .mapper import aadt_product_to_dict, external_loop_solve
 from .index_var import IndexVar, OneHot, Binary
 from .mapper import _get_peak_cls, _create_free_var, create_and_set_bb_outputs, wrap_outputs, is_valid, get_bb_inputs
@@ -35,6 +36,10 @@ def create_bindings(inputs, outputs, use_unbound=True):
         bindings.append(binding)
     return bindings
 
+#The bits of a value that might be an assembled ADT
+def _smt_value(v):
+    return v._value_ if isinstance(v, AssembledADT) else v
+
 #This will Solve a multi-rewrite rule N instructions
 def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, use_real = True, use_split_instr = False):
     def parse_peak_fc(peak_fc):
@@ -275,21 +280,25 @@ def RR(solver, info):
     if solver is None:
         return None
 
+    # The solver is closed once the search returns, so read the solution now
+    bind_val = info.bind_var.decode(int(solved_to_bv(info.bind_var.var, solver)))
+    out_block = info.block_info[info.N]
+    out_val = out_block.bind_var.decode(int(solved_to_bv(out_block.bind_var.var, solver)))
+    info = SimpleNamespace(
+        **vars(info),
+        in_bindings=[block.bindings[i] for block, i in zip(info.block_info, info.valid_bindings[bind_val])],
+        out_binding=out_block.bindings[out_val],
+        instrs=[{field: solved_to_bv(_smt_value(block.arch_inputs[field]), solver) for field in info.arch_info.const_dict}
+                for block in info.block_info[:info.N]],
+    )
+
     def get_info():
-        N = info.N
-        block_info = info.block_info
-        arch_info = info.arch_info
-        bind_var = info.bind_var
-        bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
-        print(bind_var.var.value, bind_val)
-        binding_indices = info.valid_bindings[bind_val]
-        for i in range(N):
+        print(info.bind_var.var.value, bind_val)
+        for i in range(info.N):
             print("*"*100)
             print(f"Instruction {i}")
-            binding = block_info[i].bindings[binding_indices[i]]
-            pretty_print_binding(binding)
-            instrs = [block_info[i].arch_inputs[field] for field in arch_info.const_dict]
-            ivals = [solved_to_bv(instr._value_,solver) for instr in instrs]
-            print(ivals)
+            pretty_print_binding(info.in_bindings[i])
+            print(list(info.instrs[i].values()))
+        pretty_print_binding(info.out_binding)
         return info
     return get_info
-- 
2.43.0


From c0be8cfe0c8bce59a5ea4451c2d546209f59906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 35/38] fix: data inputs of ADT types in multi-instruction
 rules

---
 peak/mapper/multi.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index 29ac867..685d391 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -91,8 +91,10 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
     #This contains the 'input binding' for a particular instruction. Indexed by instruction index
     block_info = []
 
-    pysmt_forall_vars = [v.value for v in ir_inputs.values()]
+    pysmt_forall_vars = [_smt_value(v).value for v in ir_inputs.values()]
     valid_conds = []
+    # Data inputs of ADT types only range over valid values
+    data_valid = [is_valid(v) for v in ir_inputs.values()]
 
 
     def translate(path, use_real=True):
@@ -145,7 +147,8 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
         free_arch_outputs = {field:_create_free_var(output_aadt[field], f"ArchOut_I{i}_{field}") for field in arch_info.output_t.field_dict}
         real_arch_outputs, bb_inputs, bb_outputs = run_peak(arch_obj, output_aadt, arch_inputs, bb_prefix=f"{i}.BB.{arch_info.cls.__name__}")
 
-        pysmt_forall_vars += [v.value for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
+        pysmt_forall_vars += [_smt_value(v).value for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
+        data_valid += [is_valid(v) for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
         pysmt_forall_vars += [v.value for v in bb_outputs.values()]
 
 
@@ -220,7 +223,7 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
                 real = block_info[i].real_arch_outputs
                 fake = block_info[i].free_arch_outputs
                 for vr, vf in zip(real.values(), fake.values()):
-                    pysmt_forall_vars.append(vf.value)
+                    pysmt_forall_vars.append(_smt_value(vf).value)
                     free_repl.append(vf==vr)
             free_repl = And(free_repl)
 
@@ -254,9 +257,9 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
 
     valid_cond = And(valid_conds)
     if use_real:
-        impl_cond = Or(impl_conds)
+        impl_cond = And([*data_valid, Or(impl_conds)])
     else:
-        impl_cond = And([free_repl, Or(impl_conds)])
+        impl_cond = And([*data_valid, free_repl, Or(impl_conds)])
     F = out_conds
     formula = And([valid_cond, Implies(impl_cond, F)])
     formula = formula.to_hwtypes()
-- 
2.43.0


From ee179fba0996df45b871166afee0b2e308a550df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 36/38] fix: black boxes in multi-instruction rules

---
 peak/mapper/multi.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index 685d391..28b11c6 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -4,9 +4,10 @@ from types import SimpleNamespace
 from hwtypes import strip_modifiers
 from peak import family as peak_family, family_closure, Peak, Const
 from peak.assembler import AssembledADT
+from peak.black_box import get_black_boxes
 from .mapper import aadt_product_to_dict, external_loop_solve
 from .index_var import IndexVar, OneHot, Binary
-from .mapper import _get_peak_cls, _create_free_var, create_and_set_bb_outputs, wrap_outputs, is_valid, get_bb_inputs
+from .mapper import _get_peak_cls, _create_free_var, create_and_set_bb_outputs, wrap_outputs, is_valid, get_bb_inputs, update_with_bb
 from .utils import _sort_by_t, pretty_print_binding, solved_to_bv, Unbound
 from .formula_constructor import And, Or, Implies
 import pysmt.shortcuts as smt
@@ -149,7 +150,6 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
 
         pysmt_forall_vars += [_smt_value(v).value for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
         data_valid += [is_valid(v) for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
-        pysmt_forall_vars += [v.value for v in bb_outputs.values()]
 
 
         #Creating i'th binding
@@ -261,7 +261,16 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
     else:
         impl_cond = And([*data_valid, free_repl, Or(impl_conds)])
     F = out_conds
-    formula = And([valid_cond, Implies(impl_cond, F)])
+    blocks = list(enumerate(block_info[:N]))
+    F, bb_forall = update_with_bb(
+        Implies(impl_cond, F),
+        {(i, *path): bb for i, block in blocks for path, bb in get_black_boxes(block.obj).items()},
+        {(i, *path): v for i, block in blocks for path, v in block.bb_inputs.items()},
+        {(i, *path): v for i, block in blocks for path, v in block.bb_outputs.items()},
+        get_black_boxes(ir_obj), ir_bb_inputs, ir_bb_outputs,
+    )
+    pysmt_forall_vars += bb_forall
+    formula = And([valid_cond, F])
     formula = formula.to_hwtypes()
     forall_vars = pysmt_forall_vars
     formula_wo_forall = formula.value
-- 
2.43.0


From f6bc12ddc81571ff8a2cfad9a8b42d13960f5784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:05 +0000
Subject: [PATCH 37/38] fix: operands named family of IR instructions

---
 peak/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/ir.py b/peak/ir.py
index 0a54c43..24c1b32 100644
--- a/peak/ir.py
+++ b/peak/ir.py
@@ -33,13 +33,13 @@ class IR:
                 t_to_tname[t] = f"t{idx}"
                 idx +=1
         class_src = [f"@_family_closure"]
-        class_src.append(f"def peak_fc(family):")
+        class_src.append(f"def peak_fc(_family_):")
         for t, tname in t_to_tname.items():
             class_src.append(f"{tab*1}_{tname} = {tname}")
         class_src.append(f"{tab*1}class {cls_name}(Peak):")
         output_types = ", ".join([f"{field} = _{t_to_tname[t]}" for field, t in outputs.items()])
         input_types = ", ".join([f"{field} : _{t_to_tname[t]}" for field, t in inputs.items()])
-        fun_call = "family, " + ", ".join(inputs.keys())
+        fun_call = "_family_, " + ", ".join(inputs.keys())
         class_src.append(f"{tab*2}@name_outputs({output_types})")
         class_src.append(f"{tab*2}def __call__(self, {input_types}):")
         class_src.append(f"{tab*3}return _fun_({fun_call})")
-- 
2.43.0


From cdf38be0691427fe79fea31993b3c6500650d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 38/38] fix: inequality of assembled types was true for equal
 types

---
 peak/assembler/assembled_adt.py  | 4 +++-
 peak/assembler2/assembled_adt.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 83f3045..6e89a74 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -218,7 +218,9 @@ class AssembledADTMeta(BoundMeta):
             return NotImplemented
 
     def __ne__(cls, other):
-        return ~(cls == other)
+        eq = cls == other
+        # ~ of a python bool is always true
+        return not eq if isinstance(eq, bool) else ~eq
 
     def __hash__(cls):
         return super().__hash__()
diff --git a/peak/assembler2/assembled_adt.py b/peak/assembler2/assembled_adt.py
index cbba9d6..17a725c 100644
--- a/peak/assembler2/assembled_adt.py
+++ b/peak/assembler2/assembled_adt.py
@@ -87,7 +87,9 @@ class AssembledADTMeta(BoundMeta):
             return NotImplemented
 
     def __ne__(cls, other):
-        return ~(cls == other)
+        eq = cls == other
+        # ~ of a python bool is always true
+        return not eq if isinstance(eq, bool) else ~eq
 
     def __hash__(cls):
         return super().__hash__()
-- 
2.43.0

