"""Planted bugs: edits of /repo, demonstration, and what they need."""
S = {}
X = 'egg/platform_x86.py'
SSE2 = '-DSSE2 -msse2'
SSE42 = '-DSSE42 -msse4.2'
AVX = '-DAVX -mavx'
AVX2 = '-DAVX2 -DFMA -DFP16 -mavx2 -mfma -mf16c'
KNL = '-DAVX512_KNL -mavx512f -mavx512cd'
SKY = ('-DAVX512_SKYLAKE -mavx512f -mavx512cd -mavx512bw -mavx512dq '
       '-mavx512vl')
H = '''#include <nsimd/nsimd.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <limits>
'''


def seed(id, property, edits, flags, demo, needs, what, **kw):
    S[id] = dict(property=property, edits=edits, flags=flags, demo=H + demo,
                 needs=needs, what=what, **kw)


seed('S01', 'P01', [(X, '''    if simd_ext in sse + avx and typ in ['i64', 'u64']:
        return emulate_op2(opts, '*', simd_ext, typ)
''', '''    if simd_ext == 'avx2' and typ == 'u64':
        return \\
        \'\'\'/* low * low + ((high * low) << 32) */
           __m256i lo = _mm256_mul_epu32({in0}, {in1});
           __m256i hi = _mm256_mul_epu32(_mm256_srli_epi64({in0}, 32), {in1});
           return _mm256_add_epi64(lo, _mm256_slli_epi64(hi, 32));\'\'\'. \\
           format(**fmtspec)
    if simd_ext in sse + avx and typ in ['i64', 'u64']:
        return emulate_op2(opts, '*', simd_ext, typ)
''')], AVX2, '''
int main() {
  u64 a[4] = {3, 5, 7, 1ull << 33}, b[4] = {1ull << 40, 4, (7ull << 32) | 9, 6}, r[4];
  nsimd_storeu_avx2_u64(r, nsimd_mul_avx2_u64(nsimd_loadu_avx2_u64(a), nsimd_loadu_avx2_u64(b)));
  for (int i = 0; i < 4; i++) if (r[i] != a[i] * b[i]) { printf("lane %d\\n", i); return 1; }
  return 0;
}
''', 'u64 multiplication on AVX2 whose second operand exceeds 32 bits',
     'the cross product low(a) * high(b) is lost')

seed('S02', 'P02', [(X, """       /* ux | uy */
       const nsimd_{simd_ext}_vu{typnbits} ux_uy_orb =
           nsimd_orb_{simd_ext}_u{typnbits}(ux, uy);

       /* (ux | uy) >> 31 --> Vector of 0's and 1's */
       const nsimd_{simd_ext}_vu{typnbits} u_zeros_ones =
           nsimd_shr_{simd_ext}_u{typnbits}(
               ux_uy_orb, sizeof(u{typnbits}) * CHAR_BIT - 1);
""", """       /* On underflow the wrapped result is positive, on overflow it is */
       /* negative --> Vector of 0's and 1's */
       const nsimd_{simd_ext}_vi{typnbits} zero =
           nsimd_set1_{simd_ext}_i{typnbits}((i{typnbits})0);
       const nsimd_{simd_ext}_vu{typnbits} u_zeros_ones =
           nsimd_reinterpret_{simd_ext}_u{typnbits}_i{typnbits}(
               nsimd_if_else1_{simd_ext}_i{typnbits}(
                   nsimd_gt_{simd_ext}_i{typnbits}(
                       nsimd_reinterpret_{simd_ext}_i{typnbits}_u{typnbits}(
                           ures), zero),
                   nsimd_set1_{simd_ext}_i{typnbits}((i{typnbits})1), zero));
""")],
 SSE42, """
int main() {
  i64 m = std::numeric_limits<i64>::min(), a[2] = {m, -1}, b[2] = {m, m}, r[2];
  nsimd_storeu_sse42_i64(r, nsimd_adds_sse42_i64(nsimd_loadu_sse42_i64(a), nsimd_loadu_sse42_i64(b)));
  for (int i = 0; i < 2; i++) if (r[i] != m) { printf("lane %d: %lld\\n", i, (long long)r[i]); return 1; }
  return 0;
}
""", 'a 32 or 64-bit signed saturated addition of the smallest value to itself',
     'the wrapped result is then zero, and the sum saturates to the greatest value')

seed('S03', 'P03', [('egg/scalar.py', """         {utyp} mask = ({utyp})((({utyp})-1) << ({typnbits} - {in1}));
         return nsimd_scalar_reinterpret_{typ}_{utyp}(({utyp})(mask |
                  ({utyp})(nsimd_scalar_reinterpret_{utyp}_{typ}(
                    {in0}) >> {in1})));
""", """         /* floor({in0} / 2^{in1}) */
         {utyp} p = ({utyp})(({utyp})1 << {in1});
         {typ} num = nsimd_scalar_reinterpret_{typ}_{utyp}(({utyp})(
             nsimd_scalar_reinterpret_{utyp}_{typ}({in0}) - ({utyp})(p - 1)));
         return ({in1} == {typnbits} - 1) ? ({typ})-1 : ({typ})(num / ({typ})p);
""")], SSE2, """
int main() {
  i64 a[2] = {std::numeric_limits<i64>::min(), -1}, r[2];
  for (int n = 0; n < 64; n++) {
    nsimd_storeu_sse2_i64(r, nsimd_shra_sse2_i64(nsimd_loadu_sse2_i64(a), n));
    if (r[0] != (a[0] >> n) || r[1] != -1) { printf("n=%d %lld\\n", n, (long long)r[0]); return 1; }
  }
  return 0;
}
""", 'arithmetic right shift of a value close to the smallest integer (emulated shra)',
     'the rounding term wraps around, the result has the wrong sign')

seed('S04', 'P04', [(X, '''            return \'\'\'{typ} buf0[2], buf1[2];
                      _mm_storeu_si128((__m128i*)buf0, {in0});
                      _mm_storeu_si128((__m128i*)buf1, {in1});
                      buf0[0] = -(buf0[0] > buf1[0]);
                      buf0[1] = -(buf0[1] > buf1[1]);
                      return _mm_loadu_si128((__m128i*)buf0);\'\'\'. \\
                      format(**fmtspec)
''', '''            return \'\'\'return _mm_sub_epi64(_mm_setzero_si128(), _mm_srli_epi64(
                               _mm_sub_epi64({in1}, {in0}), 63));\'\'\'. \\
                               format(**fmtspec)
''')], SSE2, '''
int main() {
  i64 a[2] = {std::numeric_limits<i64>::min(), 3}, b[2] = {1, 9}, r[2];
  nsimd_storeu_sse2_i64(r, nsimd_to_mask_sse2_i64(nsimd_gt_sse2_i64(nsimd_loadu_sse2_i64(a), nsimd_loadu_sse2_i64(b))));
  for (int i = 0; i < 2; i++) if ((r[i] != 0) != (a[i] > b[i])) return 1;
  return 0;
}
''', 'an SSE2 comparison of i64 whose difference overflows',
     'the sign of the wrapped difference is taken for the order')

seed('S05', 'P05', [(X, '''              if ({in1} - {in0} < {le}) {{
                nsimd_{simd_ext}_v{typ} n;''', '''              if (({typ2})({in1} - {in0}) < {le}) {{
                nsimd_{simd_ext}_v{typ} n;'''),
 (X, '''              }}\'\'\'.format(fill_n=fill_n, **fmtspec)

# -----------------------------------------------------------------------------
# iota
''', '''              }}\'\'\'.format(fill_n=fill_n, typ2='int' if typ in common.ftypes \\
                                          else 'u' + typ[1:], **fmtspec)

# -----------------------------------------------------------------------------
# iota
''')], AVX2, '''
int main() {
  i8 r[32];
  for (int n = 1; n < 3000; n++) {
    nsimd_storelu_avx2_i8(r, nsimd_mask_for_loop_tail_avx2_i8(0, n));
    for (int k = 0; k < 32; k++) if ((r[k] != 0) != (k < n)) { printf("n=%d k=%d\\n", n, k); return 1; }
  }
  return 0;
}
''', 'a remaining count whose low 8 bits are smaller than the vector length',
     'the remaining count is narrowed to the element type before the full-vector test')

seed('S06', 'P06', [(X, '''        if simd_ext == 'sse2':
            return emulate_op1(opts, 'trunc', simd_ext, typ)
''', '''        if simd_ext == 'sse2' and typ == 'f32':
            return \\
            \'\'\'/* floats above 2^24 are integers */
               nsimd_sse2_vf32 sign = _mm_and_ps({in0}, _mm_set1_ps(-0.0f));
               nsimd_sse2_vf32 small = _mm_cmplt_ps(_mm_andnot_ps(sign, {in0}),
                                                    _mm_set1_ps(4294967296.0f));
               nsimd_sse2_vf32 ret = _mm_or_ps(sign, _mm_cvtepi32_ps(
                                                 _mm_cvttps_epi32({in0})));
               return _mm_or_ps(_mm_and_ps(small, ret),
                                _mm_andnot_ps(small, {in0}));\'\'\'. \\
               format(**fmtspec)
        if simd_ext == 'sse2':
            return emulate_op1(opts, 'trunc', simd_ext, typ)
''')], SSE2, '''
int main() {
  f32 a[4] = {3.75f, -0.5f, 3000000000.0f, -1e20f}, e[4] = {3.0f, -0.0f, 3000000000.0f, -1e20f}, r[4];
  nsimd_storeu_sse2_f32(r, nsimd_trunc_sse2_f32(nsimd_loadu_sse2_f32(a)));
  return memcmp(r, e, sizeof(r)) != 0;
}
''', 'trunc of a float with magnitude between 2^31 and 2^32 on SSE2',
     'values that do not fit in a 32-bit integer are replaced by -2^31')

seed('S07', 'P07', [(X, '''    if to_typ == 'u32' and from_typ == 'f32':
        if simd_ext in sse + avx:
            return emulate
''', '''    if to_typ == 'u32' and from_typ == 'f32':
        if simd_ext in sse + avx:
            return 'return {pre}cvttps_epi32({in0});'.format(**fmtspec)
''')], AVX2, '''
int main() {
  f32 a[8] = {0.0f, 1.5f, 3000000000.0f, 2147483648.0f, 7.0f, 4294967040.0f, 3.0f, 2.9f};
  u32 r[8];
  nsimd_storeu_avx2_u32(r, nsimd_cvt_avx2_u32_f32(nsimd_loadu_avx2_f32(a)));
  for (int i = 0; i < 8; i++) if (r[i] != (u32)a[i]) return 1;
  return 0;
}
''', 'a float to u32 conversion of a value of at least 2^31',
     'the signed conversion saturates to 0x80000000')

seed('S08', 'P08', [(X, '''                nsimd_load{align}_{simd_ext}_{typ}(
                  {in0}), nsimd_set1_{simd_ext}_{typ}({zero})));\'\'\'. \\
       format(align='a' if aligned else 'u',
''', '''                nsimd_load{align}_{simd_ext}_{typ}(
                  {in0}), nsimd_set1_{simd_ext}_{typ}({zero})));\'\'\'. \\
       format(align='u' if simd_ext in avx and not aligned else 'a',
''')], SSE2, '''
#include <signal.h>
#include <unistd.h>
static void h(int) { _exit(1); }
int main() {
  signal(SIGSEGV, h);
  alignas(64) i32 b[16] = {0, 1, 0, -1, 2, 0, 0, 7, 1, 0};
  i32 r[4];
  for (volatile int o = 0; o < 8; o = o + 1) {
    nsimd_storelu_sse2_i32(r, nsimd_loadlu_sse2_i32(b + o));
    for (int k = 0; k < 4; k++) if ((r[k] != 0) != (b[o + k] != 0)) return 1;
  }
  return 0;
}
''', 'loadlu on SSE from an address that is not 16-byte aligned',
     'the unaligned logical load uses an aligned load')

seed('S09', 'P09', [(X, '''           for (i = 0; i < {le}; i++) {{
             if ({cond}) {{
               buf[i] = {in1}[i];
             }}
           }}
           return {pre}loadu{sufsi}({cast}buf);\'\'\'. \\
           format(cast=cast, mask_decl=mask_decl, store_mask=store_mask,
''', '''           for (i = 0; i < {le}; i++) {{
             {typ} elt = *(volatile {typ} const *)({in1} + i);
             buf[i] = ({cond}) ? elt : buf[i];
           }}
           return {pre}loadu{sufsi}({cast}buf);\'\'\'. \\
           format(cast=cast, mask_decl=mask_decl, store_mask=store_mask,
''')], AVX2, '''
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
static void h(int) { _exit(1); }
int main() {
  signal(SIGSEGV, h);
  char *p = (char *)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p + 4096, 4096, PROT_NONE);
  i16 *q = (i16 *)(p + 4096) - 5, r[16];
  for (int i = 0; i < 5; i++) q[i] = (i16)(i + 1);
  nsimd_storeu_avx2_i16(r, nsimd_maskz_loadu1_avx2_i16(nsimd_mask_for_loop_tail_avx2_i16(0, 5), q));
  for (int i = 0; i < 16; i++) if (r[i] != (i < 5 ? i + 1 : 0)) return 1;
  return 0;
}
''', 'a masked load of 8- or 16-bit elements at the end of mapped memory',
     'elements of inactive lanes are read')

seed('S11', 'P11', [(X, '''                    buf[i] = {in0}[offset_buf[i]];
                  }}
                  return {pre}loadu{sufsi}({cast}buf);\'\'\'. \\
                  format(ityp='i' + typ[1:], cast=cast, **fmtspec)
    # getting here means 32 and 64-bits types for avx2 and avx512
''', '''                    buf[i] = {in0}[offset_buf[i]];
                  }}
                  return {pre}loadu{sufsi}({cast}buf);\'\'\'. \\
                  format(ityp=typ if typ in common.iutypes else 'i' + typ[1:],
                         cast=cast, **fmtspec)
    # getting here means 32 and 64-bits types for avx2 and avx512
''')], AVX2, '''
static u16 b[200000];
int main() {
  i16 off[16]; u16 r[16];
  u16 *m = b + 100000;
  for (int i = 0; i < 200000; i++) b[i] = (u16)(i * 31 + (i >> 13));
  for (int i = 0; i < 16; i++) off[i] = (i16)(i % 2 ? -3 * i : i);
  nsimd_storeu_avx2_u16(r, nsimd_gather_avx2_u16(m, nsimd_loadu_avx2_i16(off)));
  for (int i = 0; i < 16; i++) if (r[i] != m[off[i]]) { printf("lane %d\\n", i); return 1; }
  return 0;
}
''', 'a gather of unsigned 8- or 16-bit elements with a negative index',
     'indices are zero-extended instead of sign-extended')

seed('S10', 'P10', [('egg/x86_load_store_deg234.py', """           __m512i A_mask = _mm512_set_epi64(13, 9, 12, 8, 5, 1, 4, 0);
           __m512i B_mask = _mm512_set_epi64(15, 11, 14, 10, 7, 3, 6, 2);

           ret.v0 = _mm512_permutex2var{suf}(A1, A_mask, B1);""", """           __m512i A_mask = _mm512_set_epi64(13, 9, 12, 8, 5, 1, 4, 0);
           __m512i B_mask = _mm512_set_epi64(15, 14, 11, 10, 7, 3, 6, 2);

           ret.v0 = _mm512_permutex2var{suf}(A1, A_mask, B1);""")], SKY, """
int main() {
  f64 a[32], v[4][8];
  for (int i = 0; i < 32; i++) a[i] = i;
  nsimd_avx512_skylake_vf64x4 r = nsimd_load4u_avx512_skylake_f64(a);
  nsimd_storeu_avx512_skylake_f64(v[0], r.v0);
  nsimd_storeu_avx512_skylake_f64(v[1], r.v1);
  nsimd_storeu_avx512_skylake_f64(v[2], r.v2);
  nsimd_storeu_avx512_skylake_f64(v[3], r.v3);
  for (int k = 0; k < 8; k++) for (int m = 1; m < 4; m++) if (v[m][k] != v[0][k] + m) { printf("lane %d member %d\\n", k, m); return 1; }
  return 0;
}
""", 'load4 of 64-bit elements on AVX-512, upper lanes',
     'two structures exchange their third and fourth members')

seed('S12', 'P12', [(X, """               /* High part */
               v_tmp0 = {high_v0};
               v_tmp1 = {high_v1};
               vres_lo = nsimd_ziplo_avx2_f32(v_tmp0, v_tmp1);
""", """               /* High part */
               v_tmp0 = {high_v0};
               v_tmp1 = {low_v1};
               vres_lo = nsimd_ziplo_avx2_f32(v_tmp0, v_tmp1);
               v_tmp1 = {high_v1};
""")], SKY, """
int main() {
  f16 a[32], b[32], r[32];
  for (int i = 0; i < 32; i++) { a[i] = nsimd_f32_to_f16((f32)i); b[i] = nsimd_f32_to_f16((f32)(100 + i)); }
  nsimd_storeu_avx512_skylake_f16(r, nsimd_ziphi_avx512_skylake_f16(nsimd_loadu_avx512_skylake_f16(a), nsimd_loadu_avx512_skylake_f16(b)));
  for (int i = 0; i < 16; i++) if (nsimd_f16_to_f32(r[2 * i]) != 16 + i || nsimd_f16_to_f32(r[2 * i + 1]) != 116 + i) { printf("lane %d\\n", i); return 1; }
  return 0;
}
""", 'ziplo/ziphi of f16 on AVX-512', 'eight lanes of the second operand come from the wrong half')

seed('S13', 'P13', [('src/fp16.cpp', '''nsimd_scalar_reinterpret_f32_u32(0x477ff000);
  if (a >= biggest_f16 ||''', '''nsimd_scalar_reinterpret_f32_u32(0x477fe001);
  if (a >= biggest_f16 ||''')], '-DCPU', """
int main() {
  f32 in[] = {65503.0f, 65504.0f, 65505.0f, 65519.0f, 65520.0f, -65510.0f};
  u16 out[] = {0x7bff, 0x7bff, 0x7bff, 0x7bff, 0x7c00, 0xfbff};
  for (int i = 0; i < 6; i++) if (nsimd_f32_to_u16(in[i]) != out[i]) { printf("%g: %x\\n", in[i], nsimd_f32_to_u16(in[i])); return 1; }
  return 0;
}
""", 'a f32 strictly between 65504 and 65520', 'numbers that round to the largest binary16 become infinite')

seed('S14', 'P14', [('egg/scalar.py', """        '''{typ} fl = nsimd_scalar_floor_{typ}({in0});
           {typ} ce = nsimd_scalar_ceil_{typ}({in0});
           {typ} df = {in0} - fl; /* exactly representable in IEEE754 */
           {typ} dc = ce - {in0}; /* exactly representable in IEEE754 */
           if (df < dc) {{
             return fl;
           }} else if (df > dc) {{
             return ce;
           }} else {{
             {typ} fld2 = fl * 0.5{f}; /* exactly representable in IEEE754 */
             if (fld2 == nsimd_scalar_floor_{typ}(fld2)) {{
               return fl;
             }} else {{
               return ce;
             }}
           }}'''""", """        '''/* round half up, then step back to the even neighbour on a tie */
           {typ} ru = nsimd_scalar_floor_{typ}({in0} + 0.5{f});
           {typ} rud2 = ru * 0.5{f}; /* exactly representable in IEEE754 */
           if (ru - {in0} == 0.5{f} &&
               rud2 != nsimd_scalar_floor_{typ}(rud2)) {{
             return ru - 1.0{f};
           }}
           return ru == 0 ? {in0} * 0.0{f} : ru;'''""")], '-DCPU', """
int main() {
  f64 in[] = {0.5, 1.5, 2.5, -0.5, -1.5, -2.5, 3.0, -3.0, 0.49999999999999994, 4503599627370497.0};
  f64 out[] = {0, 2, 2, 0, -2, -2, 3, -3, 0, 4503599627370497.0};
  for (int i = 0; i < 10; i++) if (nsimd_scalar_round_to_even_f64(in[i]) != out[i]) { printf("%g\\n", in[i]); return 1; }
  return 0;
}
""", 'the largest number below one half, or an odd integer above 2^52',
 'adding one half rounds up before the floor is taken')

seed('S15', 'P15', [('src/ufp.cpp', """  for (; i <= MantissaSize + 1 && d >= ((i64)1 << i); i++)
    ;
  return (int)(MantissaSize + 1 - i);""",
"""  for (; i < 63 && i < MantissaSize && d >= ((i64)1 << i); i++)
    ;
  if (d >= ((i64)1 << i)) {
    i++; /* not a single bit in common */
  }
  return (int)(MantissaSize + 1 - i);""")], '-DCPU', """
#include <../src/ufp.cpp>
int main() {
  if (nsimd_ufp_f64(1.0, 1.0) != 53 || nsimd_ufp_f32(1.0f, 1.5f) != 1) return 1;
  /* adjacent binades: 1.0 and 3.5 are 5 * 2^22 ulps of the smaller apart */
  if (nsimd_ufp_f32(3.5f, 1.0f) != -1 || nsimd_ufp_f64(1.0, 3.5) != -1) return 1;
  return 0;
}
""", 'two numbers of adjacent binades more than one power of two apart', 'ufp reports one bit too many')

seed('S16', 'P16', [('egg/gen_adv_cxx_api.py', """        elif (arg[1] in ['*', 'c*']) and N != '1':
""", """        elif (arg[1] in ['*', 'c*']) and N != '1' and \\
             not (operator.params[0] == 'v' and 'v' in operator.params[1:]):
""")], AVX2, """
#include <nsimd/nsimd-all.hpp>
int main() {
  f32 in[16], r[16], m[16], z[16];
  for (int i = 0; i < 16; i++) { in[i] = (f32)(i + 1); m[i] = 1; z[i] = -1; }
  typedef nsimd::pack<f32, 2> P; typedef nsimd::packl<f32, 2> L;
  P o = nsimd::loadu<P>(z);
  L l = nsimd::loadlu<L>(m);
  nsimd::storeu(r, nsimd::masko_loadu(l, in, o));
  for (int i = 0; i < 16; i++) if (r[i] != in[i]) { printf("%d\\n", i); return 1; }
  return 0;
}
""", 'masko_loadu or masko_loada of a pack of at least two registers',
 'the second register is loaded again from the start of the array')

seed('S17', 'P17', [('egg/gen_base_apis.py', """           {sig_e} NSIMD_PP_CAT_6(nsimd_{name}_, simd_ext, _, \\\\
                                  to_type, _, from_type)({vas})'''. \\
           format(sig=sig[0], sig_e=sig[1], name=operator.name, vas=vas)
""", """           {sig_e} NSIMD_PP_CAT_6(nsimd_{name}_, simd_ext, _, \\\\
                                  to_type, _, from_type)({vas_e})'''. \\
           format(sig=sig[0], sig_e=sig[1], name=operator.name, vas=vas,
                  vas_e=', '.join(sorted(vas.split(', '), reverse=True)))
""")], AVX2, """
int main() {
  i32 a[16]; i16 x[16], y[16];
  for (int i = 0; i < 16; i++) a[i] = i;
  vi32 v0 = nsimd::loadu(a, i32()), v1 = nsimd::loadu(a + 8, i32());
  nsimd_storeu_avx2_i16(x, vdowncvt(v0, v1, i32, i16));
  nsimd_storeu_avx2_i16(y, vdowncvt_e(v0, v1, i32, i16, avx2));
  return memcmp(x, y, sizeof(x)) != 0;
}
""", 'the generic macro vdowncvt_e, with an explicit SIMD extension',
 'the low and high halves of the result are exchanged')

seed('S18', 'P18', [('include/nsimd/modules/fixed_point/function/mul.hpp', """  tmp = tmp >> _rt;
  res._raw = tmp | sign;
""", """  res._raw = (raw_t)(sign ? tmp / ((raw_t)1 << _rt) : tmp >> _rt);
""")], AVX2, """
#include <nsimd/modules/fixed_point.hpp>
int main() {
  typedef nsimd::fixed_point::fp_t<8, 4> fp;
  for (int i = -100; i <= 100; i++) for (int j = -10; j <= 10; j++) {
    fp a, b; a._raw = (fp::value_type)i; b._raw = (fp::value_type)j;
    fp c = a * b;
    int e = i * j; e = e >= 0 ? e / 16 : -((15 - e) / 16);
    if (c._raw != e) { printf("%d * %d -> %d\\n", i, j, (int)c._raw); return 1; }
  }
  return 0;
}
""", 'a negative product that is not a multiple of the precision',
 'negative products are rounded toward zero instead of toward minus infinity')

seed('S19', 'P19', [('include/nsimd/modules/tet1d.hpp', """  for (; i < n; i++) {
    if (mask.scalar_get(i)) {
""", """  // finish with one vector that ends on the last element
  if (i < n && n >= len) {
    i = n - len;
    nsimd::storeu(&dst[i], nsimd::if_else(mask.template simd_get<Pack>(i),
                                          expr.template simd_get<Pack>(i),
                                          nsimd::loadu<Pack>(&dst[i])));
    return;
  }
  for (; i < n; i++) {
    if (mask.scalar_get(i)) {
""")], SSE42, """
#include <nsimd/modules/tet1d.hpp>
int main() {
  float a[11], d[11];
  for (int i = 0; i < 11; i++) { a[i] = (float)i; d[i] = 100.0f * (float)i; }
  tet1d::out(d)(tet1d::in(a, 11) > 2.0f) =
      tet1d::in((const float *)d, 11) + 1.0f;
  for (int i = 0; i < 11; i++) {
    float e = 100.0f * (float)i + (i > 2 ? 1.0f : 0.0f);
    if (d[i] != e) { printf("%d: %f\\n", i, d[i]); return 1; }
  }
  return 0;
}
""", 'a masked assignment in place whose size is not a multiple of the vector '
 'length', 'the elements of the last two vectors that overlap are updated '
 'twice')

seed('S20', 'P20', [('egg/modules/random/hatch.py', """        ks{nwords} = ks{nwords} ^ key.v{i};
""", """        ks{nwords} = ks{nwords} ^ key.v{p};
"""), ('egg/modules/random/hatch.py', """initialisation_keys.format(i=i, nwords=nwords,
""", """initialisation_keys.format(i=i, nwords=nwords, p=i % 2,
""")], SSE2, """
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/random/functions.hpp>
int main() {
  typedef nsimd::pack<u32> pk;
  u32 w = 0xffffffffu, r[64];
  nsimd::packx4<u32> in, key;
  in.v0 = in.v1 = in.v2 = in.v3 = pk(w);
  key.v0 = pk(1u); key.v1 = pk(2u); key.v2 = pk(3u); key.v3 = pk(4u);
  nsimd::packx4<u32> o = nsimd::random::threefry_4x32_20(in, key);
  nsimd::storeu(r, o.v0);
  /* plain C++ version */
  u32 x[4], k[5] = {1, 2, 3, 4, 0x1BD11BDAu ^ 1 ^ 2 ^ 3 ^ 4};
  int R[8][2] = {{10, 26}, {11, 21}, {13, 27}, {23, 5},
                 {6, 20}, {17, 11}, {25, 10}, {18, 20}};
  for (int i = 0; i < 4; i++) x[i] = w + k[i];
  for (int i = 0; i < 20; i++) {
    int p = i % 2 ? 3 : 1, q = i % 2 ? 1 : 3;
    x[0] += x[p]; x[p] = (x[p] << R[i % 8][0]) | (x[p] >> (32 - R[i % 8][0]));
    x[p] ^= x[0];
    x[2] += x[q]; x[q] = (x[q] << R[i % 8][1]) | (x[q] >> (32 - R[i % 8][1]));
    x[q] ^= x[2];
    if (i % 4 == 3) {
      u32 d = (u32)(i / 4 + 1);
      for (u32 j = 0; j < 4; j++) x[j] += k[(d + j) % 5];
      x[3] += d;
    }
  }
  if (r[0] != x[0]) { printf("%x %x\\n", r[0], x[0]); return 1; }
  return 0;
}
""", 'a four-word key whose words 2 and 3 do not have the exclusive or of '
 'words 0 and 1', 'the parity word of the Threefry key schedule')

seed('S21', 'P21', [('include/nsimd/modules/spmd.hpp', """  }                                                                           \\
  }                                                                           \\
  }                                                                           \\
  }                                                                           \\
  spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_);
""", """  }                                                                           \\
  }                                                                           \\
  }                                                                           \\
  }
""")], SSE42, """
#include <nsimd/modules/spmd.hpp>
spmd_kernel_1d(kern, int *dst, int *a)
  k_int x((int)0);
  k_set(x, k_load(a));
  k_while (x > 0)
    k_if (x == 5)
      k_store(dst, -1);
      k_return;
    k_endif
    k_set(x, x - 1);
  k_endwhile
  k_store(dst, x);
spmd_kernel_end
int main() {
  int a[8], d[8];
  for (int i = 0; i < 8; i++) { a[i] = i; d[i] = 77; }
  spmd_launch_kernel_1d(kern, 32, 1, 8, d, a);
  for (int i = 0; i < 8; i++)
    if (d[i] != (i >= 5 ? -1 : 0)) { printf("%d: %d\\n", i, d[i]); return 1; }
  return 0;
}
""", 'k_return inside k_while, followed by a store after the loop',
 'lanes that have returned are active again after the loop')

seed('S22', 'P22', [('include/nsimd/nsimd.h', """  return (T *)aligned_alloc(n * (nsimd_nat)sizeof(T));
""", """  int bytes = (int)n * (int)sizeof(T);
  return (T *)aligned_alloc((nsimd_nat)bytes);
""")], SSE42, """
#include <../src/memory.cpp>
#include <malloc.h>
int main() {
  // 4 GiB and a little, never touched
  size_t n = ((size_t)1 << 29) + 8;
  f64 *p = nsimd::aligned_alloc_for<f64>((nsimd_nat)n);
  if (p == NULL) { return 0; }
  size_t m = malloc_usable_size(p);
  nsimd::aligned_free(p);
  printf("%zu bytes for %zu elements\\n", m, n);
  return m >= n * sizeof(f64) ? 0 : 1;
}
""", 'a request of 2^32 bytes or more',
 'the number of bytes is computed on 32 bits, the room is too small')

seed('S23', 'P21', [('include/nsimd/modules/spmd.hpp', """  spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_continue_);       \\
  spmd_middle_mask_ = spmd::clear_lanes(spmd_middle_mask_, spmd_cond_);       \\
  spmd_cond_ =                                                                \\
      spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(cond);    \\
""", """  spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_continue_);       \\
  spmd_middle_mask_ = spmd::clear_lanes(spmd_mask_, spmd_cond_);              \\
  spmd_cond_ =                                                                \\
      spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(cond);    \\
""")], SSE42, """
#include <nsimd/modules/spmd.hpp>
spmd_kernel_1d(kern, int *dst, int *a)
  k_int x((int)0);
  k_int z((int)0);
  k_set(x, k_load(a));
  k_if (x > 5)
    k_set(z, 1);
  k_elseif (x == 3)
    k_set(z, 2);
  k_elseif (x > 1)
    k_set(z, 3);
  k_else
    k_set(z, 4);
  k_endif
  k_store(dst, z);
spmd_kernel_end
int main() {
  int a[8], d[8];
  for (int i = 0; i < 8; i++) { a[i] = i; d[i] = 77; }
  spmd_launch_kernel_1d(kern, 32, 1, 8, d, a);
  for (int i = 0; i < 8; i++) {
    int w = i > 5 ? 1 : i == 3 ? 2 : i > 1 ? 3 : 4;
    if (d[i] != w) { printf("%d: %d\\n", i, d[i]); return 1; }
  }
  return 0;
}
""", 'at least two k_elseif, and an element that takes the first branch and '
 'satisfies the last condition but not the second',
 'a lane may run two branches of the same k_if')

seed('S24', 'P23', [('egg/gen_archis.py', """        retv0 += '{sleef_symbol_prefix}_{simd_ext}_f32({bufsv0});'. \\
                 format(bufsv0=bufsv0, **fmtspec)
        retv1 += '{sleef_symbol_prefix}_{simd_ext}_f32({bufsv1});'. \\
                 format(bufsv1=bufsv1, **fmtspec)
""", """        # an f16 has 11 significant bits: the faster variant is good enough
        fast = {'sin_u10', 'cos_u10', 'tan_u10', 'atan_u10', 'log_u10'}
        prefix = fmtspec['sleef_symbol_prefix']
        if operator.name in fast:
            prefix = prefix.replace('_u10', '_u35')
        retv0 += '{prefix}_{simd_ext}_f32({bufsv0});'. \\
                 format(prefix=prefix, bufsv0=bufsv0, **fmtspec)
        retv1 += '{prefix}_{simd_ext}_f32({bufsv1});'. \\
                 format(prefix=prefix, bufsv1=bufsv1, **fmtspec)
""")], '-DSSE42 -msse4.2', """
#include <nsimd/nsimd.h>
#include <stdio.h>
extern "C" nsimd_sse42_vf32 nsimd_sleef_log_u10_sse42_f32(nsimd_sse42_vf32) {
  return _mm_set1_ps(1.0f);
}
extern "C" nsimd_sse42_vf32 nsimd_sleef_log_u35_sse42_f32(nsimd_sse42_vf32) {
  return _mm_set1_ps(1.0f + 3.0f / 8388608.0f);
}
int main() {
  nsimd_sse42_vf16 a = nsimd_set1_sse42_f16(nsimd_f32_to_f16(3.0f));
  nsimd_sse42_vf32x2 r = nsimd_upcvt_sse42_f32_f16(nsimd_log_u10_sse42_f16(a));
  f32 v[4];
  nsimd_storeu_sse42_f32(v, r.v0);
  printf("%.9g\\n", (double)v[0]);
  return v[0] == 1.0f ? 0 : 1;
}
""", 'f16 vectors, whose lanes hold a binary32 result: an argument where the '
 'two routines differ by a few ulps',
 'the routine with an error of 3.5 ulps is used for the function of 1.0 ulp')
