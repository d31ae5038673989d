From a58f3f264cc972ffa89fc8482285b8a31c53445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:22 +0000
Subject: [PATCH 01/28] fix: subs of the smallest signed integer saturates
 correctly

subs(a, b) was computed as adds(a, -b), but -b is not representable when b is
the minimum of its type: subs(0, MIN) gave MIN instead of MAX.
---
 egg/platform_x86.py | 37 +++++++++++++++++++++++++++++++++----
 egg/scalar.py       | 18 +++++++++++++++---
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index a84ccc5..250e708 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -275,9 +275,12 @@ def get_additional_include(func, platform, simd_ext):
             ret += '''#include <nsimd/x86/{simd_ext}/to_logical.h>
                       '''.format(simd_ext=simd_ext)
     if func == 'subs':
-        ret += '''#include <nsimd/x86/{simd_ext}/adds.h>
-                  #include <nsimd/x86/{simd_ext}/neg.h>
+        ret += '''#include <nsimd/x86/{simd_ext}/reinterpret.h>
+                  #include <nsimd/x86/{simd_ext}/add.h>
                   #include <nsimd/x86/{simd_ext}/sub.h>
+                  #include <nsimd/x86/{simd_ext}/shr.h>
+                  #include <nsimd/x86/{simd_ext}/andb.h>
+                  #include <nsimd/x86/{simd_ext}/xorb.h>
                   #include <nsimd/x86/{simd_ext}/gt.h>
                   #include <nsimd/x86/{simd_ext}/set1.h>
                   #include <nsimd/x86/{simd_ext}/if_else1.h>
@@ -3224,8 +3227,34 @@ def subs(simd_ext, typ):
                    'subs', simd_ext, typ)
 
     if typ in common.itypes:
-        return 'return nsimd_adds_{simd_ext}_{typ}({in0}, ' \
-               'nsimd_neg_{simd_ext}_{typ}({in1}));'.format(**fmtspec)
+        return \
+        '''/* Algo pseudo code: */
+
+           /* ires = a - b */
+           /* there is an overflow if and only if a and b have different */
+           /* signs and a and ires have different signs, in which case the */
+           /* result is MAX if a >= 0 and MIN = MAX + 1 otherwise */
+
+           const nsimd_{simd_ext}_v{typ} ires =
+               nsimd_sub_{simd_ext}_{typ}({in0}, {in1});
+           const nsimd_{simd_ext}_v{typ} overflow =
+               nsimd_andb_{simd_ext}_{typ}(
+                   nsimd_xorb_{simd_ext}_{typ}({in0}, {in1}),
+                   nsimd_xorb_{simd_ext}_{typ}({in0}, ires));
+           const nsimd_{simd_ext}_vu{typnbits} sign =
+               nsimd_shr_{simd_ext}_u{typnbits}(
+                   nsimd_reinterpret_{simd_ext}_u{typnbits}_{typ}({in0}),
+                   {typnbits} - 1);
+           const nsimd_{simd_ext}_v{typ} max_min =
+               nsimd_reinterpret_{simd_ext}_{typ}_u{typnbits}(
+                   nsimd_add_{simd_ext}_u{typnbits}(sign,
+                       nsimd_set1_{simd_ext}_u{typnbits}(
+                           (u{typnbits}){type_max})));
+           return nsimd_if_else1_{simd_ext}_{typ}(
+                    nsimd_gt_{simd_ext}_{typ}(
+                        nsimd_set1_{simd_ext}_{typ}(({typ})0), overflow),
+                    max_min, ires);'''. \
+                    format(type_max=common.limits[typ]['max'], **fmtspec)
 
     min_ = common.limits[typ]['min']
 
diff --git a/egg/scalar.py b/egg/scalar.py
index 1545a84..1fbbf77 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -333,9 +333,21 @@ def subs(typ):
                     return ({typ})({in0} - {in1});
                   }}
                   '''.format(**fmtspec)
-    # Getting here means typ is signed
-    return 'return nsimd_scalar_adds_{typ}({in0}, ({typ})(-{in1}));'. \
-           format(**fmtspec)
+    # Getting here means typ is signed, note that -in1 is not representable
+    # when in1 is the minimum of the type
+    int_max = 'NSIMD_' + typ.upper() + '_MAX'
+    int_min = 'NSIMD_' + typ.upper() + '_MIN'
+    return '''if ({in1} >= 0) {{
+                if ({in0} < {int_min} + {in1}) {{
+                  return {int_min};
+                }}
+              }} else {{
+                if ({in0} > {int_max} + {in1}) {{
+                  return {int_max};
+                }}
+              }}
+              return ({typ})({in0} - {in1});'''. \
+              format(int_min=int_min, int_max=int_max, **fmtspec)
 
 # -----------------------------------------------------------------------------
 
-- 
2.43.0


From 78cb50f6f08e797b9e43d8c806d69cca484974d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:40 +0000
Subject: [PATCH 02/28] fix: x86 conversions of floating point vectors to
 integers truncate

cvt from f32 to i32 (and to u32, i64, u64 on AVX-512) rounded to nearest where
the scalar code, the other integer types and the other platforms truncate as C
casts do.
---
 egg/platform_x86.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 250e708..88fbcce 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2359,8 +2359,10 @@ def convert1(simd_ext, from_typ, to_typ):
                  format(**fmtspec)
     if to_typ == 'f64' or from_typ == 'f64':
         if simd_ext == 'avx512_skylake':
-            return 'return _mm512_cvt{from_suf}{to_suf}({in0});'. \
-                   format(from_suf=suf_ep(from_typ)[1:], to_suf=suf_ep(to_typ),
+            # conversions to integers truncate as C casts do
+            return 'return _mm512_cvt{t}{from_suf}{to_suf}({in0});'. \
+                   format(t='t' if from_typ == 'f64' else '',
+                          from_suf=suf_ep(from_typ)[1:], to_suf=suf_ep(to_typ),
                           **fmtspec)
         else:
             return emulate
@@ -2372,12 +2374,12 @@ def convert1(simd_ext, from_typ, to_typ):
         if simd_ext in avx512:
             return 'return _mm512_cvtepu32_ps({in0});'.format(**fmtspec)
     if to_typ == 'i32' and from_typ == 'f32':
-        return 'return {pre}cvtps_epi32({in0});'.format(**fmtspec)
+        return 'return {pre}cvttps_epi32({in0});'.format(**fmtspec)
     if to_typ == 'u32' and from_typ == 'f32':
         if simd_ext in sse + avx:
             return emulate
         if simd_ext in avx512:
-            return 'return _mm512_cvtps_epu32({in0});'.format(**fmtspec)
+            return 'return _mm512_cvttps_epu32({in0});'.format(**fmtspec)
 
 # -----------------------------------------------------------------------------
 # Reciprocal (at least 11 bits of precision)
-- 
2.43.0


From dda4e388c0d9ae2f470421c5889c721e6d8b5fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:40 +0000
Subject: [PATCH 03/28] fix: AVX-512 (skylake) conversions between f64 and u64
 are unsigned

They used the intrinsics for i64 and were wrong for values from 2^63.
---
 egg/platform_x86.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 88fbcce..34e8588 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2360,10 +2360,12 @@ def convert1(simd_ext, from_typ, to_typ):
     if to_typ == 'f64' or from_typ == 'f64':
         if simd_ext == 'avx512_skylake':
             # conversions to integers truncate as C casts do
-            return 'return _mm512_cvt{t}{from_suf}{to_suf}({in0});'. \
-                   format(t='t' if from_typ == 'f64' else '',
-                          from_suf=suf_ep(from_typ)[1:], to_suf=suf_ep(to_typ),
-                          **fmtspec)
+            if from_typ == 'f64':
+                return 'return _mm512_cvttpd_ep{to_typ}({in0});'. \
+                       format(**fmtspec)
+            else:
+                return 'return _mm512_cvtep{from_typ}_pd({in0});'. \
+                       format(**fmtspec)
         else:
             return emulate
     if to_typ == 'f32' and from_typ == 'i32':
-- 
2.43.0


From 0f835dcdf93dce500365759c3d0d5a51d36a4379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:40 +0000
Subject: [PATCH 04/28] fix: x86 upcvt from f32 to 64-bits integers does not go
 through 32 bits

Values outside of the range of 32-bits integers were converted to garbage.
---
 egg/platform_x86.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 34e8588..470922b 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2858,9 +2858,9 @@ def upcvt1(simd_ext, from_typ, to_typ):
     else:
         from_typ2 = from_typ[0] + str(int(fmtspec['typnbits']) * 2)
         if from_typ not in common.iutypes:
-            # getting here means that from_typ=f32 and to_typ=f64
+            # getting here means that from_typ=f32 and to_typ in [i64, u64]
             with_intrinsic = \
-            '''nsimd_{simd_ext}_vf64x2 ret;
+            '''nsimd_{simd_ext}_v{to_typ}x2 ret;
                ret.v0 = nsimd_cvt_{simd_ext}_{to_typ}_f64({pre}cvtps_pd(
                             {lower_half}));
                ret.v1 = nsimd_cvt_{simd_ext}_{to_typ}_f64({pre}cvtps_pd(
@@ -2907,6 +2907,9 @@ def upcvt1(simd_ext, from_typ, to_typ):
     # return C code
     if from_typ == 'i32' and to_typ == 'f64':
         return with_intrinsic
+    # going through 32-bits integers would lose the upper bits
+    if from_typ == 'f32' and to_typ in ['i64', 'u64']:
+        return with_intrinsic
     if (from_typ in common.ftypes and to_typ in common.iutypes) or \
        (from_typ in common.iutypes and to_typ in common.ftypes):
         return int_float
-- 
2.43.0


From 278070006b421d7907286e724b25d590413234d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:40 +0000
Subject: [PATCH 05/28] fix: AVX-512 downcvt from i64 to f32 does not drop the
 upper 32 bits

---
 egg/platform_x86.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 470922b..ddb3102 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -3007,12 +3007,6 @@ def downcvt1(opts, simd_ext, from_typ, to_typ):
             return 'return {};'.format(setr(simd_ext, to_typ,
                    '{pre}cvtep{from_typ}_ep{to_typ}({in0})'.format(**fmtspec),
                    '{pre}cvtep{from_typ}_ep{to_typ}({in1})'.format(**fmtspec)))
-        elif from_typ == 'i64' and to_typ == 'f32':
-            return 'return nsimd_cvt_{simd_ext}_f32_i32({});'. \
-                   format(setr(simd_ext, from_typ,
-                          '{pre}cvtepi64_epi32({in0})'.format(**fmtspec),
-                          '{pre}cvtepi64_epi32({in1})'.format(**fmtspec)),
-                          **fmtspec)
 
     # and then emulation
     le_to_typ = 2 * int(fmtspec['le'])
-- 
2.43.0


From 7ab18b5ca91801ebb1e362eb8fe0852321e53859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:16 +0000
Subject: [PATCH 06/28] fix: scalar abs of a negative zero is a positive zero

As with the SIMD instruction sets, and as fabs.
---
 egg/scalar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/egg/scalar.py b/egg/scalar.py
index 1fbbf77..16057fe 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -383,10 +383,15 @@ def get_impl(operator, totyp, typ):
     if operator.name == 'abs':
         if typ == 'f16':
             return '''f32 tmp = nsimd_f16_to_f32({in0});
-                      return nsimd_f32_to_f16(tmp >= 0.0f ? tmp : -tmp);'''. \
+                      return nsimd_f32_to_f16(tmp > 0.0f ? tmp :
+                                                           0.0f - tmp);'''. \
                       format(**fmtspec)
         elif typ in common.utypes:
             return 'return {in0};'.format(**fmtspec)
+        elif typ in common.ftypes:
+            # 0 - x is +0 when x is -0
+            return 'return {in0} > ({typ})0 ? {in0} : ({typ})0 - {in0};'. \
+                   format(**fmtspec)
         else:
             return 'return ({typ})({in0} >= ({typ})0 ? {in0} : -{in0});'. \
                    format(**fmtspec)
-- 
2.43.0


From 66fcaaa4ddc43a4aeaf5f2aa49c81eed9284d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:25 +0000
Subject: [PATCH 07/28] fix: AVX-512 loadlu/loadla of f16 take negative zero as
 false

As for all the other types and instruction sets.
---
 egg/platform_x86.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index ddb3102..71272a3 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -1863,13 +1863,20 @@ def loadl(simd_ext, typ, aligned):
     if simd_ext in avx512:
         if typ == 'f16':
             return '''/* This can surely be improved but it is not our
-                         priority. Note that we take advantage of the fact that
-                         floating zero is represented as integer zero to
-                         simplify code. */
+                         priority. Note that a float is zero when all its bits
+                         but the sign are zero. */
+                      int i;
                       nsimd_{simd_ext}_vlf16 ret;
-                      __mmask32 tmp = nsimd_loadlu_{simd_ext}_u16((u16*){in0});
-                      ret.v0 = (__mmask16)(tmp & 0xFFFF);
-                      ret.v1 = (__mmask16)((tmp >> 16) & 0xFFFF);
+                      ret.v0 = 0;
+                      ret.v1 = 0;
+                      for (i = 0; i < 16; i++) {{
+                        if (((u16*){in0})[i] & 0x7FFF) {{
+                          ret.v0 |= (__mmask16)((__mmask16)1 << i);
+                        }}
+                        if (((u16*){in0})[i + 16] & 0x7FFF) {{
+                          ret.v1 |= (__mmask16)((__mmask16)1 << i);
+                        }}
+                      }}
                       return ret;'''.format(**fmtspec)
         return '''/* This can surely be improved but it is not our priority. */
                   int i;
-- 
2.43.0


From 5a240efa9e7bb2277190c672ca84f288615b6ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:02 +0000
Subject: [PATCH 08/28] fix: scalar xorl is a logical, not a bitwise, exclusive
 or

Logicals are ints whose truth value is being nonzero, as for andl, orl, notl.
---
 egg/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/scalar.py b/egg/scalar.py
index 16057fe..4fde3b4 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -482,7 +482,7 @@ def get_impl(operator, totyp, typ):
         'eq': lambda: cmp('{in0} == {in1}', typ),
         'andl': lambda: 'return {in0} && {in1};'.format(**fmtspec),
         'orl': lambda: 'return {in0} || {in1};'.format(**fmtspec),
-        'xorl': lambda: 'return {in0} ^ {in1};'.format(**fmtspec),
+        'xorl': lambda: 'return (!{in0}) ^ (!{in1});'.format(**fmtspec),
         'andnotl': lambda: 'return {in0} && (!{in1});'.format(**fmtspec),
         'notl': lambda: 'return !{in0};'.format(**fmtspec),
         'shl': lambda: shift('shl', typ),
-- 
2.43.0


From 0cb929e649a0b50062237ba50e3b415219ec9492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:54 +0000
Subject: [PATCH 09/28] fix: nsimd_isnan/isinf on f16

The mantissa was not isolated: every infinity was classified as a NaN and none
as an infinity.
---
 include/nsimd/nsimd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 36c6dd1..379a20e 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -2115,7 +2115,7 @@ void storel(T *ptr, NSIMD_NSV(T, SimdExt) a1, T, SimdExt, unaligned) {
 NSIMD_INLINE int nsimd_isnan_f16(f16 a) {
   /* We assume IEEE representation for f16's */
   u16 b = nsimd_scalar_reinterpret_u16_f16(a);
-  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) << 6) != 0u)) {
+  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) & 0x3FF) != 0u)) {
     return 1;
   } else {
     return 0;
@@ -2145,7 +2145,7 @@ NSIMD_INLINE int nsimd_isnan_f64(f64 a) {
 NSIMD_INLINE int nsimd_isinf_f16(f16 a) {
   /* We assume IEEE representation for f16's */
   u16 b = nsimd_scalar_reinterpret_u16_f16(a);
-  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) << 6) == 0u)) {
+  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) & 0x3FF) == 0u)) {
     return 1;
   } else {
     return 0;
-- 
2.43.0


From 3bcae9370f2c1d8ca9d2958a762d961eb7b33ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:57 +0000
Subject: [PATCH 10/28] fix: loadlu, loadla and set1l on packl<T, N> for N > 1

They did not compile: the recursion was on pack<T, N - 1>.
---
 egg/gen_adv_cxx_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 0f0f275..41410bd 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -32,7 +32,7 @@ def get_cxx_advanced_generic(operator):
         if param in ['v', 'vi']:
             return 'pack'
         elif param == 'l':
-            return 'pack'
+            return 'packl'
         else:
             return 'pack{}'.format(param[1:])
     args_list = common.enum(operator.params[1:])
-- 
2.43.0


From f273b425617ae2624856cdbf837070936c19a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:57 +0000
Subject: [PATCH 11/28] fix: conversions of packs of several registers

cvt, upcvt, downcvt, reinterpret and reinterpretl (hence the masked loads and
stores) did not compile for N > 1: the recursion was given a scalar instead of
the pack type to convert to.
---
 egg/gen_adv_cxx_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 41410bd..7f7b52d 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -57,7 +57,8 @@ def get_cxx_advanced_generic(operator):
     if other_varsN != '':
         other_varsN = ', ' + other_varsN
     if not operator.closed:
-        varsN = ['typename ToPackType::value_type()'] + varsN
+        varsN = ['{}<typename ToPackType::value_type, N - 1, SimdExt>()'. \
+                 format(get_pack(operator.params[0]))] + varsN
     if need_tmpl_pack != None:
         varsN = ['{}<T, N - 1, SimdExt>()'.format(need_tmpl_pack)] + varsN
     vars1 = ', '.join(vars1)
@@ -91,7 +92,9 @@ def get_cxx_advanced_generic(operator):
             ret_car = \
                 '''typename simd_traits<typename ToPackType::value_type,
                        SimdExt>::simd_vectorx{} car = '''.format(num)
-        ret_cdr = 'packx{}<T, N - 1, SimdExt> cdr = '.format(num)
+        ret_cdr = 'packx{}<{}, N - 1, SimdExt> cdr = '.format(num,
+                      'T' if operator.closed else \
+                      'typename ToPackType::value_type')
         post_car = '; ret.set_car({})'.format(', '.join( \
             ['car.v{}'.format(i) for i in range(0, int(num))]))
         post_cdr = '; ret.set_cdr({})'.format(', '.join( \
-- 
2.43.0


From 038099bf622442d87bdf2e0bf287bae049ee853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:13 +0000
Subject: [PATCH 12/28] fix: gather and scatter on packs of several registers

The offsets are relative to the given base address, which must not be moved
from one register to the next, and the linear versions must move it by step
elements per lane.
---
 egg/gen_adv_cxx_api.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 7f7b52d..a7376d3 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -46,6 +46,11 @@ def get_cxx_advanced_generic(operator):
         if arg[1] in ['vi', 'v', 'l']:
             return 'a{}.{}'.format(arg[0], member)
         elif (arg[1] in ['*', 'c*']) and N != '1':
+            if operator.name in ['gather', 'scatter']:
+                # offsets are all relative to the same base address
+                return 'a{}'.format(arg[0])
+            elif operator.name in ['gather_linear', 'scatter_linear']:
+                return 'a{} + len_ * a1'.format(arg[0])
             return 'a{} + len_'.format(arg[0])
         else:
             return 'a{}'.format(arg[0])
@@ -120,7 +125,10 @@ def get_cxx_advanced_generic(operator):
             multiplier = '4 * '
         else:
             multiplier = ''
-        int_len = 'int len_ = {}len({}<T, 1, SimdExt>());'. \
+        if operator.name in ['gather', 'scatter']:
+            int_len = ''
+        else:
+            int_len = 'int len_ = {}len({}<T, 1, SimdExt>());'. \
                   format(multiplier, get_pack(inter[0]) if inter != [] \
                                      else need_tmpl_pack)
     else:
-- 
2.43.0


From 2c0c10e4fe389ce91f122d812e23a119959c2cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:34 +0000
Subject: [PATCH 13/28] fix: iota and mask_for_loop_tail on packs of several
 registers

They must go on from one register to the next; mask_for_loop_tail did not
compile.
---
 egg/gen_adv_cxx_api.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index a7376d3..76c7c4a 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -52,6 +52,10 @@ def get_cxx_advanced_generic(operator):
             elif operator.name in ['gather_linear', 'scatter_linear']:
                 return 'a{} + len_ * a1'.format(arg[0])
             return 'a{} + len_'.format(arg[0])
+        elif operator.name == 'mask_for_loop_tail' and arg[0] == 0 and \
+             N != '1':
+            # index of the first element of the next register
+            return 'a0 + len(T(), SimdExt())'
         else:
             return 'a{}'.format(arg[0])
     vars1 = [var(i, '1') for i in args_list] + ['T()'] + \
@@ -84,6 +88,10 @@ def get_cxx_advanced_generic(operator):
         ret_cdr = 'ret.cdr = '
         post_car = ''
         post_cdr = ''
+        if operator.name == 'iota':
+            # the next registers go on where this one stops
+            post_cdr = '; ret.cdr = add(ret.cdr, set1(pack<T, N - 1, ' \
+                       'SimdExt>(), to<T>(len(T(), SimdExt()))))'
         pack1_ret = '{} ret;'.format(ret1)
         packN_ret = '{} ret;'.format(retN)
     elif operator.params[0] in ['vx1', 'vx2', 'vx3', 'vx4']:
-- 
2.43.0


From 0277f19d00cf13b6bfb016f46e952098c5456f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:34 +0000
Subject: [PATCH 14/28] fix: vif_else, vloadl and vstore[234] macros

They expanded to names that do not exist, vstore4 to a store of three
vectors.
---
 include/nsimd/nsimd.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 379a20e..a2ff4bc 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1749,12 +1749,12 @@ T to(S value) {
 
 #define vif_else(a0, a1, a2, typel, type)                                     \
   NSIMD_PP_CAT_4(nsimd_if_else1_, NSIMD_SIMD, _, type)                        \
-  (NSIMD_PP_CAT_6(nsimd_vreinterpretl_, NSIMD_SIMD, _, type, _, typel)(a0),   \
+  (NSIMD_PP_CAT_6(nsimd_reinterpretl_, NSIMD_SIMD, _, type, _, typel)(a0),   \
    a1, a2)
 
 #define vif_else_e(a0, a1, a2, typel, type, simd_ext)                         \
   NSIMD_PP_CAT_4(nsimd_if_else1_, simd_ext, _, type)                          \
-  (NSIMD_PP_CAT_6(nsimd_vreinterpretl_, simd_ext, _, type, _, typel)(a0), a1, \
+  (NSIMD_PP_CAT_6(nsimd_reinterpretl_, simd_ext, _, type, _, typel)(a0), a1, \
    a2)
 
 #if NSIMD_CXX > 0
@@ -1813,10 +1813,10 @@ if_else(NSIMD_NSVL(L, SimdExt) a0, NSIMD_NSV(T, SimdExt) a1,
   NSIMD_PP_CAT_6(nsimd_load4, alignment, _, simd_ext, _, type)(a0)
 
 #define vloadl(a0, type, alignment)                                           \
-  NSIMD_PP_CAT_6(nsimd_loadl, alignment_, NSIMD_SIMD, _, type)(a0)
+  NSIMD_PP_CAT_6(nsimd_loadl, alignment, _, NSIMD_SIMD, _, type)(a0)
 
 #define vloadl_e(a0, type, simd_ext, alignment)                               \
-  NSIMD_PP_CAT_6(nsimd_loadl, alignment_, simd_ext, _, type)(a0)
+  NSIMD_PP_CAT_6(nsimd_loadl, alignment, _, simd_ext, _, type)(a0)
 
 #define vstore(a0, a1, type, alignment)                                       \
   NSIMD_PP_CAT_6(nsimd_store, alignment, _, NSIMD_SIMD, _, type)(a0, a1)
@@ -1825,24 +1825,24 @@ if_else(NSIMD_NSVL(L, SimdExt) a0, NSIMD_NSV(T, SimdExt) a1,
   NSIMD_PP_CAT_6(nsimd_store, alignment, _, simd_ext, _, type)(a0, a1)
 
 #define vstore2(a0, a1, a2, type, alignment)                                  \
-  NSIMD_PP_CAT_4(nsimd_store2, alignment, _, NSIMD_SIMD, _, type)(a0, a1, a2)
+  NSIMD_PP_CAT_6(nsimd_store2, alignment, _, NSIMD_SIMD, _, type)(a0, a1, a2)
 
 #define vstore2_e(a0, a1, a2, type, simd_ext, alignment)                      \
-  NSIMD_PP_CAT_4(nsimd_store2, alignment, _, simd_ext, _, type)(a0, a1, a2)
+  NSIMD_PP_CAT_6(nsimd_store2, alignment, _, simd_ext, _, type)(a0, a1, a2)
 
 #define vstore3(a0, a1, a2, a3, type, alignment)                              \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, NSIMD_SIMD, _, type)             \
+  NSIMD_PP_CAT_6(nsimd_store3, alignment, _, NSIMD_SIMD, _, type)             \
   (a0, a1, a2, a3)
 
 #define vstore3_e(a0, a1, a2, a3, type, simd_ext, alignment)                  \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, simd_ext, _, type)(a0, a1, a2, a3)
+  NSIMD_PP_CAT_6(nsimd_store3, alignment, _, simd_ext, _, type)(a0, a1, a2, a3)
 
 #define vstore4(a0, a1, a2, a3, a4, type, alignment)                          \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, NSIMD_SIMD, _, type)             \
+  NSIMD_PP_CAT_6(nsimd_store4, alignment, _, NSIMD_SIMD, _, type)             \
   (a0, a1, a2, a3, a4)
 
 #define vstore4_e(a0, a1, a2, a3, a4, type, simd_ext, alignment)              \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, simd_ext, _, type)               \
+  NSIMD_PP_CAT_6(nsimd_store4, alignment, _, simd_ext, _, type)               \
   (a0, a1, a2, a3, a4)
 
 #define vstorel(a0, a1, type, alignment)                                      \
-- 
2.43.0


From b75d1102496a4c87fafeab044dd2beee5353b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:34 +0000
Subject: [PATCH 15/28] fix: storel takes a vector of logicals

---
 include/nsimd/nsimd.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index a2ff4bc..88b5e80 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -2071,22 +2071,22 @@ void store4(T *ptr, NSIMD_NSV(T, SimdExt) a1, NSIMD_NSV(T, SimdExt) a2,
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
-void storel(T *ptr, NSIMD_NSV(T, NSIMD_SIMD) a1, T, aligned) {
+void storel(T *ptr, NSIMD_NSVL(T, NSIMD_SIMD) a1, T, aligned) {
   storela(ptr, a1, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
-void storel(T *ptr, NSIMD_NSV(T, NSIMD_SIMD) a1, T, unaligned) {
+void storel(T *ptr, NSIMD_NSVL(T, NSIMD_SIMD) a1, T, unaligned) {
   storelu(ptr, a1, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-void storel(T *ptr, NSIMD_NSV(T, SimdExt) a1, T, SimdExt, aligned) {
+void storel(T *ptr, NSIMD_NSVL(T, SimdExt) a1, T, SimdExt, aligned) {
   storela(ptr, a1, T(), SimdExt());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-void storel(T *ptr, NSIMD_NSV(T, SimdExt) a1, T, SimdExt, unaligned) {
+void storel(T *ptr, NSIMD_NSVL(T, SimdExt) a1, T, SimdExt, unaligned) {
   storelu(ptr, a1, T(), SimdExt());
 }
 
-- 
2.43.0


From f99e9bdc3be342bf5bbe8ffaf690b453442852d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 16/28] fix: fixed-point scalar comparisons use all the
 fraction bits

The mask kept the high-order bits of the storage although the value is stored
in the low-order ones, so that e.g. fp_t<8, 4>(1.0) == fp_t<8, 4>(1.5).
---
 include/nsimd/modules/fixed_point/function/eq.hpp    |  6 +-----
 .../nsimd/modules/fixed_point/function/greater.hpp   | 12 ++----------
 include/nsimd/modules/fixed_point/function/less.hpp  | 12 ++----------
 3 files changed, 5 insertions(+), 25 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/function/eq.hpp b/include/nsimd/modules/fixed_point/function/eq.hpp
index cb62c6f..f4db655 100644
--- a/include/nsimd/modules/fixed_point/function/eq.hpp
+++ b/include/nsimd/modules/fixed_point/function/eq.hpp
@@ -31,11 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool operator==(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) == (b._raw & mask));
+  return a._raw == b._raw;
 }
 
 } // namespace fixed_point
diff --git a/include/nsimd/modules/fixed_point/function/greater.hpp b/include/nsimd/modules/fixed_point/function/greater.hpp
index 22e75fa..add8290 100644
--- a/include/nsimd/modules/fixed_point/function/greater.hpp
+++ b/include/nsimd/modules/fixed_point/function/greater.hpp
@@ -32,11 +32,7 @@ namespace fixed_point {
 
 template <u8 _lf, u8 _rt>
 bool gt(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) > (b._raw & mask));
+  return a._raw > b._raw;
 }
 
 template <u8 _lf, u8 _rt>
@@ -56,11 +52,7 @@ bool operator>(const T &a, const fp_t<_lf, _rt> &b) {
 
 template <u8 _lf, u8 _rt>
 bool gte(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) >= (b._raw & mask));
+  return a._raw >= b._raw;
 }
 
 template <u8 _lf, u8 _rt>
diff --git a/include/nsimd/modules/fixed_point/function/less.hpp b/include/nsimd/modules/fixed_point/function/less.hpp
index b22f07c..0b0a48d 100644
--- a/include/nsimd/modules/fixed_point/function/less.hpp
+++ b/include/nsimd/modules/fixed_point/function/less.hpp
@@ -31,11 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool lt(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) < (b._raw & mask));
+  return a._raw < b._raw;
 }
 
 template <u8 _lf, u8 _rt>
@@ -55,11 +51,7 @@ bool operator<(const T &a, const fp_t<_lf, _rt> &b) {
 
 template <u8 _lf, u8 _rt>
 bool lte(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) <= (b._raw & mask));
+  return a._raw <= b._raw;
 }
 
 template <u8 _lf, u8 _rt>
-- 
2.43.0


From 0584780447485802d180c13b4b56c209e2dbf399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:18 +0000
Subject: [PATCH 17/28] fix: comparison operators on fixed-point packs return a
 logical pack

They did not compile when instantiated.
---
 include/nsimd/modules/fixed_point.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/fixed_point.hpp b/include/nsimd/modules/fixed_point.hpp
index 88e9dbb..17b17d3 100644
--- a/include/nsimd/modules/fixed_point.hpp
+++ b/include/nsimd/modules/fixed_point.hpp
@@ -162,7 +162,7 @@ NSIMD_INLINE packl<T> eq(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator==(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator==(const pack<T> &a0, const pack<T> &a1) {
   return eq( a0 , a1 );
 }
 
@@ -174,7 +174,7 @@ NSIMD_INLINE packl<T> ne(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator!=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator!=(const pack<T> &a0, const pack<T> &a1) {
   return ne( a0 , a1 );
 }
 
@@ -186,7 +186,7 @@ NSIMD_INLINE packl<T> le(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator<=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator<=(const pack<T> &a0, const pack<T> &a1) {
   return le( a0 , a1 );
 }
 
@@ -198,7 +198,7 @@ NSIMD_INLINE packl<T> lt(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator<(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator<(const pack<T> &a0, const pack<T> &a1) {
   return lt( a0 , a1 );
 }
 
@@ -210,7 +210,7 @@ NSIMD_INLINE packl<T> ge(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator>=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator>=(const pack<T> &a0, const pack<T> &a1) {
   return ge( a0 , a1 );
 }
 
@@ -222,7 +222,7 @@ NSIMD_INLINE packl<T> gt(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator>(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator>(const pack<T> &a0, const pack<T> &a1) {
   return gt( a0 , a1 );
 }
 
-- 
2.43.0


From 1a2c61015bb20b7bfac846f9bd424597cced9f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:06 +0000
Subject: [PATCH 18/28] fix: fixed-point equal_ulp compares all the fraction
 bits

---
 include/nsimd/modules/fixed_point/function/eq_ulp.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/function/eq_ulp.hpp b/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
index 2518f5a..11aaa49 100644
--- a/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
+++ b/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
@@ -33,12 +33,8 @@ template <u8 _lf, u8 _rt>
 bool equal_ulp(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b,
                const int &ulp) {
   typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  raw_type diff = (a._raw & mask) - (b._raw & mask);
-  diff = diff >> shift_size;
-  return (diff <= ulp & diff >= -ulp);
+  const raw_type diff = (raw_type)(a._raw - b._raw);
+  return (diff <= ulp && diff >= -ulp);
 }
 
 } // namespace fixed_point
-- 
2.43.0


From 227ebcce532379df3b0769ef3a1ab901313969f6 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 20:12:31 +0000
Subject: [PATCH 19/28] fix: logical operators between a scalar and a packl

They built a pack instead of a packl and did not compile.
---
 egg/gen_friendly_but_not_optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/gen_friendly_but_not_optimized.py b/egg/gen_friendly_but_not_optimized.py
index 5ffbe5f..2999929 100644
--- a/egg/gen_friendly_but_not_optimized.py
+++ b/egg/gen_friendly_but_not_optimized.py
@@ -54,7 +54,7 @@ def get_impl(operator):
         template <typename S, typename T, int N, typename SimdExt>
         packl<T, N, SimdExt>
         operator{cxx_op}(S s, packl<T, N, SimdExt> const &v) {{
-          return {op_name}(pack<T, N, SimdExt>(bool(s)), v);
+          return {op_name}(packl<T, N, SimdExt>(bool(s)), v);
         }}
 
         template <typename T, typename S, int N, typename SimdExt>
-- 
2.43.0


From ac60600853f0ad7bc5e09b9981f9e7fdde60ee78 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 21:29:19 +0000
Subject: [PATCH 20/28] fix: tet1d infix operators between an expression and an
 f16 scalar

---
 include/nsimd/modules/tet1d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index 1bd3c56..1339050 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -272,6 +272,7 @@ template <> struct literal_to<f16> {
   template <typename S> static f16 impl(S a) {
     return nsimd_f32_to_f16(f32(a));
   }
+  static f16 impl(f16 a) { return a; }
 };
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From 1f36fb7100c9babadc546f10771ef96c75a07f1e Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 21:29:19 +0000
Subject: [PATCH 21/28] fix: tet1d infix shift operators

---
 egg/modules/tet1d/hatch.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/egg/modules/tet1d/hatch.py b/egg/modules/tet1d/hatch.py
index fcab484..410f202 100644
--- a/egg/modules/tet1d/hatch.py
+++ b/egg/modules/tet1d/hatch.py
@@ -811,7 +811,19 @@ def gen_functions(opts):
               return tet1d::{op_name}(node);
             }}'''.format(op_name=op_name,
                          cxx_operator=operator.cxx_operator);
-        if operator.cxx_operator != None and len(operator.params) == 3:
+        if operator.cxx_operator != None and op_name in ['shl', 'shr', 'shra']:
+            functions += \
+            '''
+
+            template <typename Op, typename Left, typename Right,
+                      typename Extra>
+            node<{op_name}_t, node<Op, Left, Right, Extra>, none_t, none_t>
+            operator{cxx_operator}(node<Op, Left, Right, Extra> const &node,
+                                   int s) {{
+              return tet1d::{op_name}(node, s);
+            }}'''.format(op_name=op_name,
+                         cxx_operator=operator.cxx_operator);
+        elif operator.cxx_operator != None and len(operator.params) == 3:
             functions += '''
 
             template <typename Op, typename Left, typename Right,
-- 
2.43.0


From 731324c42e0ec3e403c7df06d54009f670c8db79 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 00:13:29 +0000
Subject: [PATCH 22/28] fix: spmd k_while runs until no active lane is left

Lanes that were off (k_break, k_return, an enclosing k_if) still kept the
loop going, which then never ended, and k_continue switched a lane off in
all the following iterations.
---
 include/nsimd/modules/spmd.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 10eb3d9..41824b2 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -639,17 +639,20 @@ inline bool any(bool a) { return a; }
     k_bool spmd_middle_mask_ = spmd_mask_;                                    \
     k_bool spmd_off_lanes_break_(false);                                      \
     (void)spmd_off_lanes_break_;                                              \
-    k_bool spmd_off_lanes_continue_(false);                                   \
-    (void)spmd_off_lanes_continue_;                                           \
     {                                                                         \
-      while (spmd::any(cond)) {                                               \
+      for (;;) {                                                              \
+        k_bool spmd_off_lanes_continue_(false);                               \
+        (void)spmd_off_lanes_continue_;                                       \
         k_bool spmd_cond_ =                                                   \
             spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(    \
                 cond);                                                        \
         {                                                                     \
           k_bool spmd_mask_ = spmd_cond_ && spmd_middle_mask_;                \
           spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_break_);  \
-          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_);
+          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_); \
+          if (!spmd::any(spmd_mask_)) {                                       \
+            break;                                                            \
+          }
 
 // break statement (k_break)
 #define k_break                                                               \
-- 
2.43.0


From 6f8edfaee2ec0879b05816888448c9aa4af069e9 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 00:13:29 +0000
Subject: [PATCH 23/28] fix: spmd k_set of a k_bool keeps the value of inactive
 lanes

The variable was overwritten with false in the lanes that are off, and
assigning a bool to a k_bool did not compile.
---
 include/nsimd/modules/spmd.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 41824b2..0a67771 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -595,15 +595,20 @@ void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
             nsimd::packl<S, N, SimdExt> &var, U value) {
-  var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(
-      mask && nsimd::pack<S, N, SimdExt>(int(value)));
+  typedef nsimd::packl<S, N, SimdExt> packl;
+  var = value ? nsimd::orl(var, nsimd::reinterpretl<packl>(mask))
+              : nsimd::andnotl(var, nsimd::reinterpretl<packl>(mask));
 }
 
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
             nsimd::packl<S, N, SimdExt> &var,
             nsimd::packl<U, N, SimdExt> const &value) {
-  var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(mask && value);
+  typedef nsimd::packl<S, N, SimdExt> packl;
+  var = nsimd::orl(
+      nsimd::andl(nsimd::reinterpretl<packl>(mask),
+                  nsimd::reinterpretl<packl>(value)),
+      nsimd::andnotl(var, nsimd::reinterpretl<packl>(mask)));
 }
 
 #define k_set(var, value) spmd::k_set_(spmd_mask_, var, value)
-- 
2.43.0


From 5faa4d1b58300340ec47461d7dc15f961b25acde Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 01:42:29 +0000
Subject: [PATCH 24/28] fix: the C++98 allocator throws when there is no memory

---
 include/nsimd/nsimd.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 88b5e80..a5d58ab 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1490,7 +1490,15 @@ public:
   const_pointer address(const_reference r) { return &r; }
 
   pointer allocate(size_type n) {
-    return reinterpret_cast<pointer>(aligned_alloc_for<T>((nsimd_nat)n));
+    if (n > max_size()) {
+      throw std::bad_alloc();
+    }
+    pointer ptr =
+        reinterpret_cast<pointer>(aligned_alloc_for<T>((nsimd_nat)n));
+    if (ptr == NULL) {
+      throw std::bad_alloc();
+    }
+    return ptr;
   }
 
   pointer allocate(size_type n, const void *) { return allocate(n); }
-- 
2.43.0


From bb25426bfb208613796ff01ffc8dcdc1979cd375 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 25/28] fix: downcvt from 64-bit integers to f32 rounds once on
 NEON

---
 egg/platform_arm.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/egg/platform_arm.py b/egg/platform_arm.py
index 2b626e4..fc05188 100644
--- a/egg/platform_arm.py
+++ b/egg/platform_arm.py
@@ -1969,6 +1969,17 @@ def downcvt1(simd_ext, from_typ, to_typ):
                         ret.v1 = {in1};
                         return ret;
                       #endif'''.format(**fmtspec)
+        elif from_typ in ['i64', 'u64'] and to_typ == 'f32':
+            # going through f64 would round twice
+            return '''{from_typ} src[4];
+                      f32 dst[4];
+                      int i;
+                      vst1q_{suf}(src, {in0});
+                      vst1q_{suf}(src + 2, {in1});
+                      for (i = 0; i < 4; i++) {{
+                        dst[i] = (f32)src[i];
+                      }}
+                      return vld1q_f32(dst);'''.format(**fmtspec)
         elif (from_typ in common.itypes and to_typ in common.itypes) or \
              (from_typ in common.utypes and to_typ in common.utypes):
             return '''return vcombine_{suf_to_typ}(vmovn_{suf}({in0}),
-- 
2.43.0


From c4167e175db753281d29c77fc54fdae602d9b392 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 02:44:46 +0000
Subject: [PATCH 26/28] fix: gather of f16 on POWER reads the element of each
 lane

---
 egg/platform_ppc.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/egg/platform_ppc.py b/egg/platform_ppc.py
index 3e53073..aa25248 100644
--- a/egg/platform_ppc.py
+++ b/egg/platform_ppc.py
@@ -1634,18 +1634,18 @@ def gather(simd_ext, typ):
         return \
         '''nsimd_{simd_ext}_v{typ} ret;
            ret.v0 = vec_splats(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]));
-           ret.v0 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]),
+           ret.v0 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 1)]),
                                ret.v0, 1);
-           ret.v0 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]),
+           ret.v0 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 2)]),
                                ret.v0, 2);
-           ret.v0 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]),
+           ret.v0 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 3)]),
                                ret.v0, 3);
-           ret.v1 = vec_splats(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]));
-           ret.v1 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]),
+           ret.v1 = vec_splats(nsimd_f16_to_f32({in0}[vec_extract({in1}, 4)]));
+           ret.v1 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 5)]),
                                ret.v1, 1);
-           ret.v1 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]),
+           ret.v1 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 6)]),
                                ret.v1, 2);
-           ret.v1 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]),
+           ret.v1 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 7)]),
                                ret.v1, 3);
            return ret;'''.format(**fmtspec)
     elif has_to_be_emulated(simd_ext, typ):
-- 
2.43.0


From 9e2ba3f0c9e2dde87b652e7f41fd8be9465f9f0e Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 02:44:47 +0000
Subject: [PATCH 27/28] fix: shra of unsigned integers on POWER shifts in zeros

---
 egg/platform_ppc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/egg/platform_ppc.py b/egg/platform_ppc.py
index aa25248..1869ea3 100644
--- a/egg/platform_ppc.py
+++ b/egg/platform_ppc.py
@@ -871,6 +871,8 @@ def sqrt1(simd_ext, typ):
 def shift2(op, simd_ext, typ):
     if has_to_be_emulated(simd_ext, typ):
         return emulation_code(op, simd_ext, typ, ['v', 'v', 'p'])
+    if op == 'shra' and typ in common.utypes:
+        op = 'shr'
     return 'return vec_{ppcop}({in0}, vec_splats((u{typnbits}){in1}));'. \
            format(ppcop={'shl': 'sl', 'shr': 'sr', 'shra': 'sra'}[op],
                   **fmtspec)
-- 
2.43.0


From beea5d1dd028ea65bb088a53ffa40164be506021 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 28/28] fix: unaligned loads and stores on POWER do not assume
 alignment

---
 egg/platform_ppc.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/egg/platform_ppc.py b/egg/platform_ppc.py
index 1869ea3..f3fd836 100644
--- a/egg/platform_ppc.py
+++ b/egg/platform_ppc.py
@@ -268,8 +268,20 @@ def get_additional_include(func, platform, simd_ext):
                   #include <nsimd/ppc/{simd_ext}/lt.h>
                   '''.format(simd_ext=simd_ext)
 
+    elif func == 'storeu':
+        ret += '''#include <string.h>
+                  '''
+
+    elif func in ['store2u', 'store3u', 'store4u']:
+        ret += '''#include <nsimd/ppc/{simd_ext}/storeu.h>
+                  '''.format(**fmtspec)
+
     elif func[:4] == 'load':
+        if func in ['load2u', 'load3u', 'load4u']:
+            ret += '''#include <nsimd/ppc/{simd_ext}/loadu.h>
+                      '''.format(**fmtspec)
         ret += '''
+        #include <string.h>
         #include <nsimd/ppc/{simd_ext}/unzip.h>
 
         #define NSIMD_PERMUTE_MASK_64(a, b)                        \
@@ -451,8 +463,9 @@ def load1234(simd_ext, typ, deg, aligned):
         if aligned:
             return 'return vec_ld(0, {in0});'.format(**fmtspec)
         else:
-            return 'return *({ppc_typ}*){in0};'. \
-                   format(ppc_typ=native_type(typ), **fmtspec)
+            return '''nsimd_{simd_ext}_v{typ} ret;
+                      memcpy((void *)&ret, (const void *){in0}, 16);
+                      return ret;'''.format(**fmtspec)
 
     # From here deg >= 2
 
@@ -467,8 +480,8 @@ def load1234(simd_ext, typ, deg, aligned):
         'nsimd_{simd_ext}_v{typ}x{deg} ret;\n'. \
         format(deg=deg, **fmtspec) + \
         '\n'.join(
-          'nsimd_{simd_ext}_v{typ} in{i} = *(({ppc_typ}*){in0} + {i});'. \
-          format(i=i, ppc_typ=native_type(typ), **fmtspec) \
+          'nsimd_{simd_ext}_v{typ} in{i} = nsimd_loadu_{simd_ext}_{typ}('
+          '{in0} + {o});'.format(i=i, o=i * get_len(typ), **fmtspec) \
                  for i in range(0, deg))
     if deg == 2:
         return '''{load}
@@ -664,8 +677,8 @@ def store1234(simd_ext, typ, deg, aligned):
         if aligned:
             return 'vec_st({in1}, 0, {in0});'.format(**fmtspec)
         else:
-            return '*({ppc_typ} *){in0} = {in1};'. \
-                   format(ppc_typ=native_type(typ), **fmtspec)
+            return 'memcpy((void *){in0}, (const void *)&{in1}, 16);'. \
+                   format(**fmtspec)
 
     # From here deg >= 2
 
@@ -674,9 +687,9 @@ def store1234(simd_ext, typ, deg, aligned):
                           format(i=i, o=i * 16, **fmtspec) \
                           for i in range(0, deg))
     else:
-        store = '\n'.join('*({ppc_typ} *)({in0} + {o}) = ret{i};'. \
-                          format(o=i * get_len(typ), ppc_typ=native_type(typ),
-                                 i=i, **fmtspec) for i in range(deg))
+        store = '\n'.join('nsimd_storeu_{simd_ext}_{typ}({in0} + {o}, '
+                          'ret{i});'.format(o=i * get_len(typ), i=i,
+                                            **fmtspec) for i in range(deg))
     if deg == 2:
         return \
         '''nsimd_{simd_ext}_v{typ} ret0 = vec_mergeh({in1}, {in2});
-- 
2.43.0

