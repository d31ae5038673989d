"""Texts of the properties; tools/mk.py writes properties.jsonl and
MANIFEST.json from them."""
TGT = ('the scalar CPU emulation, SSE2, SSE4.2, AVX, AVX2, AVX-512 KNL, '
       'AVX-512 Skylake, NEON of ARMv7 and AArch64, VMX and VSX of POWER')
X86 = ['egg/platform_x86.py', 'egg/platform_arm.py', 'egg/platform_ppc.py',
       'egg/platform_cpu.py', 'egg/scalar.py',
       'egg/operators.py', 'egg/gen_archis.py']
GEN = {'name': 'code generators of the operators',
       'where': 'egg/platform_x86.py, egg/platform_arm.py, '
                'egg/platform_ppc.py, '
                'egg/platform_cpu.py, egg/scalar.py'}

P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',),
         observe=(), claim=True, reason='', technique='', note='',
         level='proof'):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why,
                  files=files, mech=mech, over=list(over),
                  observe=list(observe), claim=claim, reason=reason,
                  technique=technique, note=note, level=level))


TECH = ('contract-based deductive verification: pre/postconditions, frames and '
        'safety obligations per function, discharged by a VC generator over '
        'the LLVM IR of the real code with z3; counterexamples replayed '
        'natively')
NOTE = ('Proof for all inputs of every listed function as compiled by clang '
        'from the headers egg generates from the current tree; trusts the '
        'clang front end, the VC generator and its models of the x86, Arm '
        'and POWER vector intrinsics (the latter two not validated by execution), and z3. A function the prover cannot decide is checked '
        'by bounded native execution and listed as bounded_only.')

prop('P01', 'Lane-wise arithmetic equals the mathematical operation',
     'On every target (' + TGT + ') and for every element type, add, sub, mul, '
     'div, neg, abs, min, max, fma, fms, fnma and fnms compute, in every lane '
     'independently, the two\'s-complement wrapped integer result or the '
     'IEEE-754 result of that operation on the corresponding input lanes, for '
     'all lane values. addv returns the sum of all the lanes, each counted '
     'exactly once. Integer division is only constrained for representable '
     'quotients, floating-point fma may be fused or not, and NaN payloads are '
     'free.',
     'all values of all lanes of all operands, all element types, all targets',
     'The tests sample small values (-20..20) and run every operator only on '
     'AVX2; wrap-around, special floating-point values, lane cross-talk and '
     'the other targets are not reached.',
     X86, [GEN, {'name': 'emulated, split and native lane operations',
                 'where': 'egg/platform_x86.py: emulate_op2, split_op2, mul2, '
                          'fma_fms, neg1, abs1, addv'}],
     ('inputs', 'configurations'), ['value of each lane of the result'])
prop('P02', 'Saturating addition and subtraction clamp exactly',
     'On every target (' + TGT + '), adds and subs return in each lane the '
     'exact integer sum or difference of the corresponding lanes clamped to '
     'the range of the element type, for all lane values including the '
     'extreme ones. For floating-point types they are the ordinary sum and '
     'difference.',
     'all lane values, element types and targets',
     'Tests draw small values and a few limits; saturation at the corners '
     '(subtracting the minimum) needs specific pairs.',
     X86, [{'name': 'adds / subs', 'where': 'egg/platform_x86.py: adds, subs; '
            'egg/scalar.py: adds, subs'}],
     ('inputs', 'configurations'), ['value of each lane of the result'])
prop('P03', 'Bitwise operators and shifts are exact on every lane',
     'On every target (' + TGT + '), orb, andb, andnotb, xorb and notb combine '
     'the bits of the lanes exactly (for floating-point types: the bits of '
     'the representation), and shl, shr and shra shift every lane by the '
     'given amount for every amount from 0 to the number of bits minus 1: shl '
     'and shr shift in zeros, shra shifts in copies of the sign bit for '
     'signed types and zeros for unsigned ones.',
     'all lane values and all legal shift amounts',
     'Tests use a few shift amounts and random small values; 8-bit and 64-bit '
     'emulations have corner cases at particular amounts and bit patterns.',
     X86, [{'name': 'shifts and bitwise operators', 'where':
            'egg/platform_x86.py: shl_shr, shra, bitwise'}],
     ('inputs', 'configurations'), ['bits of each lane of the result'])
prop('P04', 'Comparisons decide the mathematical order in every lane',
     'On every target (' + TGT + '), eq, ne, lt, le, gt and ge give, for each '
     'lane, true exactly when the relation holds between the corresponding '
     'lanes as signed or unsigned integers or as IEEE-754 values (any '
     'comparison with NaN is false except ne). The result is always a '
     'well-formed logical vector.',
     'all pairs of lane values of all element types on all targets',
     'Unsigned, 64-bit and emulated comparisons go wrong only for values '
     'around sign changes or halves, and floating-point ones on NaN and '
     'zeros, which random tests practically never draw.',
     X86, [{'name': 'comparisons', 'where': 'egg/platform_x86.py: eq2, gt2, '
            'geq2, lt2, neq2'}], ('inputs', 'configurations'),
     ['each lane of the logical result'])
prop('P05', 'Logical vectors obey Boolean algebra; masks and blends select',
     'On every target (' + TGT + '), andl, orl, xorl, andnotl, notl and '
     'reinterpretl act on each truth value separately, all, any and nbtrue '
     'aggregate all lanes, to_mask/to_logical/set1l convert each lane, and '
     'if_else1 returns for each lane exactly the bits of the first or second '
     'alternative according to the condition. mask_for_loop_tail(i, n) is '
     'true in lane k exactly when i + k < n.',
     'all truth assignments of the lanes, all vectors, all loop positions',
     'Representations differ per target (lane masks, k-registers, integers); '
     'tests check a few masks and one loop tail.',
     X86, [{'name': 'logical operators', 'where': 'egg/platform_x86.py: lop2, '
            'lnot1, all_any, nbtrue1, to_mask1, to_logical1, if_else3, '
            'mask_for_loop_tail'}], ('inputs', 'configurations'),
     ['each lane of the result'])
prop('P06', 'Rounding, square root and reciprocals meet their accuracy',
     'On every target (' + TGT + '), ceil, floor, trunc and round_to_even '
     'return the IEEE-754 rounding of every input (ties to even, all '
     'magnitudes, infinities and NaN included; identity on integers), sqrt '
     'and rec are correctly rounded. rec11, rec8, rsqrt11 and rsqrt8 have a '
     'relative error of at most 2^-11 or 2^-8 on normal inputs.',
     'all floating-point inputs',
     'Emulated roundings fail only at specific magnitudes (2^23, 2^52, ties, '
     'values out of integer range); tests draw small values and compare with '
     'a tolerance.',
     X86, [{'name': 'roundings', 'where': 'egg/platform_x86.py: round1, trunc1, '
            'round_to_even1; egg/scalar.py: round_to_even, libm_opn'},
           {'name': 'reciprocals', 'where': 'egg/platform_x86.py: '
            'rec11_rsqrt11, rec1, sqrt1'}], ('inputs', 'configurations'),
     ['value of each lane of the result'])
prop('P07', 'Conversions follow C semantics; reinterpretations keep bits',
     'On every target (' + TGT + '), cvt, upcvt and downcvt convert each lane '
     'to the value C gives for that cast (integers wrap, floats truncate '
     'toward zero when converted to integers, integers round to nearest when '
     'converted to floats) for every representable value, upcvt and downcvt '
     'keeping the lanes in order over two vectors. reinterpret changes no '
     'bit.',
     'all lane values that are in range of the destination, all pairs of types',
     'The suite skips float-to-integer conversions and draws small values, so '
     'truncation, upper halves of 64-bit integers and unsigned ranges are '
     'never tested.',
     X86, [{'name': 'conversions', 'where': 'egg/platform_x86.py: convert1, '
            'upcvt1, downcvt1, reinterpret1'}], ('inputs', 'configurations'),
     ['value of each lane of the result'])
prop('P08', 'Loads and stores move exactly the addressed elements',
     'On every target (' + TGT + '), loadu/loada return in lane k the k-th '
     'element at the address, storeu/storea write lane k to the k-th element, '
     'and the logical variants load nonzero as true (negative zero is zero) '
     'and store 1 and 0. They access exactly the vector\'s elements and '
     'nothing else, and the unaligned variants need no more alignment than '
     'that of an element.',
     'all memory contents, all element-aligned addresses, all lane values',
     'Over-reads, over-writes and spurious alignment needs are invisible to '
     'tests on comfortable heap buffers.',
     X86, [{'name': 'loads and stores', 'where': 'egg/platform_x86.py: load, '
            'store, loadl, storel; egg/platform_cpu.py'}],
     ('inputs', 'configurations'),
     ['lanes returned', 'memory written', 'memory accessed'])
prop('P09', 'Masked loads and stores never touch inactive elements',
     'On every target (' + TGT + '), masked loads return memory in active '
     'lanes and the given vector or zero in inactive ones, and masked stores '
     'write exactly the active lanes. No element of an inactive lane is read '
     'or written, so it may be unmapped, or in use by another thread.',
     'all masks, memory contents and lane values',
     'Tests run on fully allocated buffers with one mask shape, so touching '
     'an inactive element goes unnoticed.',
     X86, [{'name': 'masked accesses', 'where': 'egg/platform_x86.py: '
            'maskoz_load, mask_store; egg/platform_cpu.py: mask_store, '
            'maskoz_load'}], ('inputs', 'configurations'),
     ['lanes returned', 'memory written', 'memory accessed'])
prop('P10', 'AoS accesses are exact (de)interleavings and invert each other',
     'On every target (' + TGT + '), load2/3/4 distribute consecutive '
     'structures over vectors so that the members of one structure are in the '
     'same lane of the member vectors, and store2/3/4 do the converse, moving '
     'every element exactly once and touching nothing outside. Storing with '
     'storeN what loadN loaded reproduces the memory image for every type '
     'and alignment variant.',
     'all memory contents and lane values',
     'A swap of two elements inside a shuffle network for one type on one '
     'target shows only with that type and target; most are never run.',
     X86, [{'name': 'shuffle networks', 'where': 'egg/platform_x86.py: '
            'load_aux, store_aux, load/store 2, 3, 4'}],
     ('inputs', 'configurations'), ['lanes returned', 'memory written'])
prop('P11', 'Gather and scatter access exactly the indexed elements',
     'On every target (' + TGT + '), gather returns in lane k the element at '
     'the k-th index, scatter writes lane k to the element at the k-th index '
     '(distinct indices), and the linear variants use k times the step, '
     'negative indices and steps included. Nothing else is accessed.',
     'all indices and steps whose addresses are representable, all contents',
     'Tests use small nonnegative indices in order; sign extension and index '
     'width errors need negative or large indices.',
     X86, [{'name': 'gather / scatter', 'where': 'egg/platform_x86.py: gather, '
            'scatter, gather_linear, scatter_linear; egg/platform_cpu.py'}],
     ('inputs', 'configurations'), ['lanes returned', 'memory written'])
prop('P12', 'Shuffles, broadcasts, iota and len place every lane correctly',
     'On every target (' + TGT + '), zip, ziplo, ziphi interleave and unzip, '
     'unziplo, unziphi separate the lanes of two vectors in order, keeping '
     'every bit. set1 broadcasts its argument to all lanes, iota holds 0, 1, '
     '2, ..., and len is the number of lanes.',
     'all lane values, all element types, all targets',
     'Only AVX2 runs these tests; a wrong lane in the other targets or a lost '
     'bit pattern (NaN payload, negative zero) is not seen.',
     X86, [{'name': 'shuffles', 'where': 'egg/platform_x86.py: zip_half, '
            'unzip_half, zip, unzip, set1, iota, len1'}],
     ('inputs', 'configurations'), ['bits of each lane of the result'])
prop('P13', 'binary16 conversions are exact and correctly rounded',
     'nsimd_f16_to_f32 (and the C++ nsimd::f16_to_f32, nsimd_u16_to_f32) '
     'return exactly the value of every binary16 bit pattern, including '
     'subnormals, infinities and NaN, and nsimd_f32_to_f16 (and '
     'nsimd::f32_to_f16, nsimd_f32_to_u16) round every f32 to the nearest '
     'binary16, ties to even, with overflow to infinity, gradual underflow '
     'and NaN kept NaN, in C++98 and C++11 builds, with and without F16C. '
     'f16 -> f32 -> f16 is the identity on non-NaN values.',
     'all 2^16 binary16 patterns, all 2^32 binary32 patterns, all builds',
     'Tests compare a sample of values against the same code; rounding at '
     'ties, subnormals and the overflow threshold need specific inputs.',
     ['src/fp16.cpp', 'include/nsimd/nsimd.h'],
     [{'name': 'software half conversion', 'where': 'src/fp16.cpp: '
       'nsimd_u16_to_f32, nsimd_f32_to_u16, nsimd_f16_to_f32, '
       'nsimd_f32_to_f16'}],
     ('inputs', 'configurations'), ['bits of the result'])
prop('P14', 'Scalar operators agree with the mathematical operation',
     'Every scalar operator nsimd_scalar_<op>_<type> (and its C++ overload '
     'nsimd::scalar_<op>) with an exact meaning computes, for all arguments, '
     'the same function as one lane of the SIMD operator: wrapped or '
     'IEEE arithmetic, bitwise and shift operations, comparisons and logical '
     'connectives on truth values, min/max, rounding, saturation, '
     'conversions and reinterpretations. On f16 the operation is the f32 '
     'operation on the converted arguments rounded back to f16.',
     'all argument values, all element types, C89, C++98, C++11, AVX2 builds',
     'The scalar operators are the reference of the SIMD tests, so an error '
     'that the two share is invisible, and only small values are sampled.',
     ['egg/scalar.py', 'egg/gen_scalar_utilities.py', 'egg/operators.py'],
     [{'name': 'scalar operator bodies',
       'where': 'egg/scalar.py: get_impl, opnum, opbit, shift'}],
     ('inputs', 'configurations'), ['returned value'])
prop('P15', 'Floating-point classification and ufp accuracy helpers',
     'nsimd_isnan_<t>, nsimd_isinf_<t> and nsimd_isnormal_<t> (and the C++ '
     'overloads) are true exactly on NaN, on infinities and, for finite '
     'non-zero values, on normal numbers. nsimd_ufp_<t>(a, b), for two normal '
     'numbers of the same sign, returns the number of leading mantissa bits '
     'on which they agree: mantissa size + 1 minus the bit length of their '
     'distance counted in ulps of the smaller.',
     'all argument values of f16, f32 and f64',
     'These helpers are what the tests use to judge results, no test checks '
     'them.',
     ['include/nsimd/nsimd.h', 'src/ufp.cpp'],
     [{'name': 'bit-level classification', 'where': 'include/nsimd/nsimd.h: '
       'nsimd_isnan_*, nsimd_isinf_*, nsimd_isnormal_*; src/ufp.cpp'}],
     ('inputs',), ['returned value'])
prop('P16', 'C++ packs apply the operator to every register of the pack',
     'For every unroll N, nsimd::pack<T, N>, packl<T, N> and packx2/3/4 '
     'operations and overloaded operators (arithmetic, bitwise, comparisons, '
     'logical, loads, stores, gathers, conversions, reductions, set1, iota, '
     'mask_for_loop_tail) behave as the C operator applied to each of the N '
     'registers, at the right offset in memory and the right lane indices '
     '(lane i of register k is lane k*len+i), every register being used '
     'exactly once. Reductions cover all the N*len lanes.',
     'all lane values, all element types; AVX2 with N = 1, 2, 3, and cpu, SSE2, '
     'AVX-512 Skylake with N = 2 (more targets and N in the thorough tier)',
     'Most tests use N = 1, and N > 1 tests compare a few lanes with small '
     'values.',
     ['egg/gen_adv_cxx_api.py', 'include/nsimd/cxx_adv_api.hpp',
      'include/nsimd/cxx_adv_api_aliases.hpp'],
     [{'name': 'pack recursion', 'where': 'egg/gen_adv_cxx_api.py: '
       'gen_body; include/nsimd/cxx_adv_api.hpp: pack<T, N>'}],
     ('inputs', 'configurations'), ['lanes of the result', 'memory'])
prop('P17', 'All API spellings of an operator are the same function',
     'The generic C macros v<op>(..., type) and v<op>_e(..., simd_ext, type), '
     'the C11 generic nsimd_<op>(...), the C++ base API nsimd::<op>(..., T()) '
     'and nsimd::<op>(..., T(), simd_ext()) and the alignment-parametrised '
     'C++ loads and stores return the same result and have the same memory '
     'effects as the function nsimd_<op>_<ext>_<type>, for all arguments.',
     'all operators, all element types, all argument values; every target with '
     'at least one family of spellings',
     'The tests use one spelling each with one type; swapped arguments or a '
     'wrong type in a rarely used spelling is not run.',
     ['egg/gen_base_apis.py', 'include/nsimd/c_adv_api.h',
      'include/nsimd/nsimd.h', 'egg/gen_adv_c_api.py'],
     [{'name': 'macro and overload generators',
       'where': 'egg/gen_base_apis.py, egg/gen_adv_c_api.py'}],
     ('inputs', 'configurations'), ['result', 'memory'])
prop('P18', 'Fixed-point numbers compute the documented exact results',
     'For nsimd::fixed_point::fp_t<lf, rt>, construction from and conversion '
     'to floating-point and integers keep the value rounded to the nearest '
     'representable one, addition, subtraction and negation are exact on '
     'the raw value, multiplication is the exact product rounded toward minus '
     'infinity, division truncates, and comparisons, shifts and bitwise '
     'operators act on the whole raw value, as long as the result is '
     'representable. fixed_point::pack operations do the same in each lane.',
     'all representable values of the formats covered, all lanes',
     'The module tests draw a few values with a tolerance; fraction bits lost '
     'in a comparison or rounding at the boundary is not seen.',
     ['include/nsimd/modules/fixed_point.hpp',
      'include/nsimd/modules/fixed_point/fixed.hpp',
      'include/nsimd/modules/fixed_point/fixed_math.hpp',
      'include/nsimd/modules/fixed_point/simd.hpp',
      'include/nsimd/modules/fixed_point/simd_math.hpp'],
     [{'name': 'raw-value arithmetic',
       'where': 'include/nsimd/modules/fixed_point/'}],
     ('inputs', 'configurations'), ['raw value of the result'])
prop('P19', 'Expression templates compute the scalar result for every element',
     'For every size n, assigning a tet1d expression (operator functions, '
     'infix operators with expressions or scalars, nested expressions, '
     'conversions, Python-like slices) to tet1d::out(dst) stores in every '
     'element k < n the result of the scalar operators on elements k of the '
     'operands, also when dst is an operand of the expression; with '
     'tet1d::out(dst)(condition), elements whose condition is false keep '
     'their value. Nothing outside the n elements is read or written.',
     'all sizes n (loop invariants), all element values, all types',
     'The module tests run a few sizes on separate arrays; the last elements '
     'of other sizes, updates in place and slices are not run.',
     ['include/nsimd/modules/tet1d.hpp', 'egg/modules/tet1d/hatch.py'],
     [{'name': 'kernels (vector loop and scalar tail)',
       'where': 'include/nsimd/modules/tet1d.hpp:cpu_kernel_component_wise'},
      {'name': 'operator nodes', 'where': 'egg/modules/tet1d/hatch.py'}],
     ('inputs', 'configurations'), ['memory'])
prop('P20', 'Philox and Threefry generators equal their published definition',
     'nsimd::random::philox_* and threefry_* return in every lane the block '
     'that the Philox and Threefry algorithms of Salmon et al. (Random123) '
     'give for the counter and the key of that lane, for every counter and '
     'every key.',
     'all counters and keys, all lanes, all word sizes, numbers of words and '
     'rounds',
     'The module tests follow one sequence from one fixed key; other keys and '
     'rare carries are not run.',
     ['egg/modules/random/hatch.py'],
     [{'name': 'mulhilo, key schedule, rotations',
       'where': 'egg/modules/random/hatch.py'}],
     ('inputs', 'configurations'), ['random numbers'])
prop('P21', 'SPMD kernels behave as one sequential program per element',
     'Launching a kernel written in the SPMD language over n elements gives, '
     'for every element k < n, what the same program run sequentially for '
     'element k alone gives: k_load, k_store, k_set and the k_ operators act '
     'on element k, and k_if/k_elseif/k_else, k_while, k_break, k_continue, '
     'k_return and device function calls have the meaning of the C++ '
     'constructs, whatever the other elements do. Nothing outside the n '
     'elements is written.',
     'all sizes n and all element values, for every operator and for a family '
     'of kernels covering the control constructs and their nesting',
     'The module tests run straight-line kernels only; lanes that diverge, '
     'loops and early exits are never run.',
     ['include/nsimd/modules/spmd.hpp', 'egg/modules/spmd/hatch.py'],
     [{'name': 'control-flow macros and lane masks',
       'where': 'include/nsimd/modules/spmd.hpp'},
      {'name': 'operators', 'where': 'egg/modules/spmd/hatch.py'}],
     ('inputs', 'configurations'), ['memory'])
prop('P22', 'Allocation gives aligned room for the elements, or fails cleanly',
     'For every size, nsimd_aligned_alloc, nsimd::aligned_alloc(_for), '
     'nsimd::allocator, and the malloc/calloc/pair functions of the memory '
     'management module either return memory of at least the requested number '
     'of elements (aligned for the widest SIMD vector of the target in the '
     'aligned functions, zeroed for calloc), or report the failure: null, or '
     'std::bad_alloc from the allocator, also when the size in bytes '
     'overflows. The free functions release exactly the pointer given, and '
     'the copy functions copy exactly n elements from source to destination.',
     'all sizes, all element types, with and without memory available',
     'Allocation failures and overflowing sizes are never provoked by a test, '
     'and a buffer a few bytes short rarely crashes.',
     ['src/memory.cpp', 'include/nsimd/nsimd.h',
      'include/nsimd/modules/memory_management.hpp'],
     [{'name': 'nsimd_aligned_alloc', 'where': 'src/memory.cpp'},
      {'name': 'allocator', 'where': 'include/nsimd/nsimd.h'},
      {'name': 'device and pair functions',
       'where': 'include/nsimd/modules/memory_management.hpp'}],
     ('inputs', 'fault_sequences'), ['memory'])
prop('P23', 'Elementary functions apply their Sleef routine to every lane',
     'For every elementary function (sin, cos, pow, exp, log, hypot, fmod, '
     'erf... with each accuracy _u05 to _u35), every target (' + TGT + ') and '
     'f32 and f64, each lane of the result is the value that the Sleef routine '
     'of the same name, accuracy, element type and target gives for the '
     'arguments of that lane, in the order of the C signature. For f16 it is '
     'the f32 routine applied to the exactly converted lanes. The C function, '
     'the macros, the C++ and C11 spellings, the packs and the scalar '
     'functions (C and C++) all agree with it.',
     'all lane values, all functions, types, targets and spellings, whatever '
     'Sleef computes',
     'The tests compare with libm within a tolerance, on samples: the routine '
     'of another accuracy, a lane computed from another or rounded twice pass '
     'them; the scalar functions are not tested.',
     ['egg/gen_archis.py', 'egg/operators.py', 'egg/platform_cpu.py',
      'egg/gen_scalar_utilities.py', 'egg/scalar.py',
      'egg/gen_adv_cxx_api.py', 'egg/gen_adv_c_api.py'],
     [{'name': 'calls to Sleef', 'where': 'egg/gen_archis.py'},
      {'name': 'scalar functions', 'where': 'egg/scalar.py'}],
     ('inputs', 'configurations'))
prop('P24', 'Elementary functions meet their error bound in ulps',
     'The vendored Sleef routines (src/sleef*.c) give results within the error '
     'announced by the name (0.5, 1.0, 1.5 or 3.5 ulps) of the real function '
     'for all arguments.',
     'all arguments of all the elementary functions',
     'Accuracy for every binary64 argument cannot be sampled.',
     ['src/sleefsimddp.c', 'src/sleefsimdsp.c'],
     [{'name': 'Sleef', 'where': 'src/sleefsimddp.c'}],
     ('inputs',), claim=False,
     reason='the postcondition compares a sequence of rounded operations with '
     'a transcendental real function; no installed back end decides both '
     'floating point and such functions (no Gappa or WP, and z3, cvc5 have '
     'neither), and nsimd takes these routines unchanged from Sleef. What '
     'nsimd adds, which routine is applied to which lanes, is P23.')
